from ..ccp import *
from ..core import Sub
from .. import gen
from ciscoconfparse.ciscoconfparse import convert_junos_to_ios

HEAD = ["system", "interfaces", "ge-0/0/0", "unit 0", "family inet", "a", "b", "a b", "policy-options", "term 1", "from", "then",
        "inactive: unit 1", "protocols", "bgp", "group X", "firewall", "filter F", "replace: x", "ltm virtual /Common/v1", "0", "1 a"]
STMT = ["host-name r1", "address 1.1.1.1/24", "accept", "a", "b", "a b", "description \"foo bar\"", "members [ a b c ]", "no-redirects",
        "version 1.2", "0", "apply-groups x", "mtu 1500", "description \"x; y\"", "permit (a|b)", "as-path \".* 65000 .*\"", "then accept",
        "description \"!x\"", "a:b", "x=y", "$9$abc/def", "speed 1g", "exit", "no", "banner motd ^", "description \"caf\u00e9\""]

INNER = ["cost 5", "accept", "a", "members [ a b ]", "mtu 1500", "0"]


def g_tree(d):
    depth_p = d.weighted([(2, 0.3), (2, 0.55)])
    count = [0]

    def node(level):
        count[0] += 1
        if level < 8 and count[0] < 60 and d.chance(depth_p):
            t = gen.text(d, 0, "#!") if d.chance(0.1) else d.pick(HEAD)
            if ok(t):
                kids = d.list(lambda: node(level + 1), 0, 8, 2)
                style = d.draw(3) if not kids else 0
                alts = []
                if style == 0 and d.chance(0.12):
                    alts = d.list(lambda: [d.pick(["else", "elseif a", "else b"]), d.list(lambda: node(level + 1), 0, 4, 1)], 1, 3, 1)
                return [t, kids, style, alts]
        t = gen.text(d, 1, "#!") if d.chance(0.1) else d.pick(STMT)
        if not ok(t):
            t = "a"
        if d.chance(0.08):
            # a block with its statements on one line
            inner = " ".join(d.list(lambda: d.pick(INNER) + d.pick([";", ";", ""]), 1, 3, 1))
            t = d.pick(HEAD) + d.pick([" { %s }", " { %s }", " {%s}", "{ %s }"]) % inner
            if d.chance(0.15):
                t = d.pick(HEAD) + " { %s }" % t
            return [t, None, 1]
        return [t, None, 0]

    roots = d.list(lambda: node(0), 1, 10, 3)
    if d.chance(0.03):
        for _ in range(d.int(5, 60)):  # a deep one
            roots = [[d.pick(HEAD), roots, 0, []]] + ([[d.pick(STMT), None, 0]] if d.chance(0.3) else [])
    return {"tree": roots, "layout": d.draw(1 << 30), "indent": d.pick([4, 4, 2, 8, 0, -1]), "factory": d.chance(0.2),
            "noise": d.chance(0.4), "com": d.pick(["!", "!", "#", "!#", "#!"])}


def ok(t):
    return not any(ch in t for ch in "{};#!") or t in STMT


class Lcg:
    def __init__(self, s):
        self.s = s

    def n(self, k):
        self.s = (self.s * 1103515245 + 12345) % (1 << 31)
        return (self.s >> 8) % k


def render(c, com="!"):
    """com: the comment delimiter; with '!' a line beginning with # is a line like others, but its text is not touched"""
    r = Lcg(c["layout"])
    out, want, depth = [], [], []  # want: (text, parent index)

    def lead(level):
        if c["indent"] == -1:
            return [" ", "\t", "      ", ""][r.n(4)]
        return " " * (c["indent"] * level)

    def tail():
        return ["", "", "", " ", "  "][r.n(5)] if c["noise"] else ""

    def noise(level, parent):
        if c["noise"] and r.n(6) == 0:
            out.append(["", "   "][r.n(2)])
        if c["noise"] and r.n(10) == 0:
            if com == "#" and want and depth[-1] > level:
                return  # a comment below deeper lines would be attached to nothing (P03)
            t = ["# note", "## x y", "#", "# set x;", "# unit 0 {", "# }", "# a { b; }"][r.n(7)]
            out.append(lead(level) + t)
            want.append((t, parent))
            depth.append(level)

    def emit(node, level, parent):
        t, kids, style = node[:3]
        noise(level, parent)
        me = len(want)
        want.append((t.strip(), parent))
        depth.append(level)
        if kids is None and style == 1:
            out.append(lead(level) + t + tail())
            return
        if kids is None:
            out.append(lead(level) + t + [";", ";", " ;"][r.n(3) if c["noise"] else 0] + tail())
            return
        if style == 1:
            out.append(lead(level) + t + " { }" + tail())
            return
        if style == 2:
            out.append(lead(level) + t + " {}" + tail())
            return
        out.append(lead(level) + t + [" {", " {", "{", "  {"][r.n(4) if c["noise"] else 0] + tail())
        for k in kids:
            emit(k, level + 1, me)
        for t2, kids2 in (node[3] if len(node) > 3 else []):
            out.append(lead(level) + "} " + t2 + " {" + tail())
            me = len(want)
            want.append((t2, parent))
            depth.append(level)
            for k in kids2:
                emit(k, level + 1, me)
        noise(level + 1, me)
        out.append(lead(level) + ["}", "};"][1 if c["noise"] and r.n(8) == 0 else 0] + tail())

    for n in c["tree"]:
        emit(n, 0, None)
    return out, want


def c_tree(c):
    """One or two comment delimiters in a row: neither parse depends on the other."""
    return [one(c, com) for com in c.get("com", "!")][0]


def one(c, com):
    src, want = render(c, com)
    kw = {} if com == "!" else {"comment": com}
    p = CiscoConfParse(list(src), syntax="junos", factory=c["factory"], **kw)
    objs = list(p.objs)
    same([o.text.strip() for o in objs], [w for w, _ in want], "statements of %r" % src)
    level = []
    for _t, par in want:
        level.append(0 if par is None else level[par] + 1)
    w = [4, 1, 2, 3][c["layout"] % 4]
    src0 = list(src)
    conv = convert_junos_to_ios(src, stop_width=w, comment_delimiter="#")
    same([x for x in conv if x.strip()], [" " * w * k + t for k, (t, _p) in zip(level, want)], "convert_junos_to_ios(%r, stop_width=%d)" % (src0, w))
    same(src, src0, "the list given to convert_junos_to_ios")
    pos = {id(o): i for i, o in enumerate(objs)}
    kids = [[] for _ in want]
    for i, (_t, par) in enumerate(want):
        if par is not None:
            kids[par].append(i)
    for i, o in enumerate(objs):
        par = want[i][1]
        same(pos.get(id(o.parent)), i if par is None else par, "parent of statement %d %r of %r" % (i, o.text, src))
        same([pos.get(id(k)) for k in o.children], kids[i], "children of statement %d %r of %r" % (i, o.text, src))
    return any(p_ is not None for _t, p_ in want)


SUBS = [Sub("blocks", g_tree, c_tree)]
RULE = "Random block trees rendered with random layout, blanks, comments; non-trivial = at least one nested statement."
