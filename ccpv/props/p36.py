"""P36: queries leave the configuration alone and keep giving the same answers."""
import inspect
import re
import types
import warnings

from .. import env  # noqa: F401
from ..core import Sub, require, same
from ..ccp import parse
from .. import gen
from ..model import delivered
from ciscoconfparse import CiscoConfParse, HDiff
from ciscoconfparse.ccp_abc import BaseCfgLine
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj
from . import p28, p29, p31, p33, p34

RULE = "at least four queries ran on a configuration of at least three lines and one of them had a non-empty answer"
ASSUME = ["the deprecated add_uncfgtext / line setters are edits, not queries"]
IOS = ["hostname R1", "aaa authentication login default group tacacs+ local", "aaa accounting exec default start-stop group tacacs+", "line vty 0 4", "ip access-list extended X", "banner motd ^C hi ^C",
       "aaa group server tacacs+ T", "route-map X permit 10", "ip prefix-list X seq 5 permit 10.0.0.0/8 le 24", "! note", "router bgp 65000"]
NX = ["hostname R1", "aaa authentication login default group X", "vpc domain 5", "line vty", "feature vpc", "ip route 10.0.0.0/8 1.1.1.1", "vrf context A"]
ASA = ["hostname R1", "name 10.0.0.1 a", "name 10.0.0.2 b description x", "object network o", " host 10.0.0.1", "object-group network g", "object-group network h", " group-object g", " network-object host b", " network-object host a", " network-object 10.1.0.0 255.255.0.0",
       "object-group service s tcp", " port-object eq www", " port-object range 5 9", "access-list A extended permit ip any any", "object service x", " service tcp destination eq 80"]
SKIP = {"confobj"}
PARENT = ["find_parent_objects", "find_objects_w_child", "find_parents_w_child", "find_parent_objects_wo_child", "find_objects_wo_child", "find_parents_wo_child", "find_children_w_parents",
          "find_objects_w_parents", "find_child_objects", "find_objects_w_all_children", "find_objects_w_missing_children"]
ONE = ["find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "find_lineage", "has_line_with", "re_search_children", "find_objects_dna", "find_interface_objects"]
FACTS = ["ioscfg", "objs", "openargs", "hierarchy", "names", "comments", "no_comments", "all_parents", "last", "len", "repr", "contains", "groups", "acl", "diff", "req", "req", "sync", "excl", "excl", "uncfgs"]


def g_lines(d, syntax, factory, hi=4):
    lines = []

    def block():
        k = d.draw(4)
        if k == 0:
            lines.extend(gen.typed_safe(gen.config(d, hi=8, avg=4), syntax) if factory else gen.config(d, hi=8, avg=4))
        elif syntax == "ios":
            lines.extend(p28.stanza(d)["lines"] if k == 1 else [d.pick(IOS)] if k == 2 else [" ".join(d.pick([p29.ios4, p29.ios6])(d)[0])] if d.chance(0.5) else p31.g(d)["lines"])
        elif syntax == "asa":
            lines.extend(p34.stanza(d, syntax)["lines"] if k == 1 else [d.pick(ASA) for _ in range(4)] if k == 2 else [p33.line(d)[0]])
        else:
            lines.extend(p34.stanza(d, syntax)["lines"] if k == 1 else [d.pick([d.pick(NX), " ".join(p29.nxos4(d)[0])])] if syntax == "nxos" else p34.stanza(d, syntax)["lines"])
    for _ in range(d.int(1, hi)):
        block()
    return [x for x in lines if isinstance(x, str)]


def g(d):
    syntax = d.pick(["ios", "ios", "nxos", "iosxr", "asa"])
    factory = d.chance(0.7)
    lines = g_lines(d, syntax, factory)
    if syntax != "asa" and d.chance(0.15):
        lines = lines + (gen.macro(d) if syntax == "ios" and d.chance(0.5) else gen.banner(d))["lines"] + g_lines(d, syntax, factory, 1)
    pool = [gen.pattern(d, lines) for _ in range(d.int(1, 4))]

    def pat():
        return d.pick(pool)

    def op():
        k = d.draw(8)
        if k < 2:
            return ["props", d.draw(1000)]
        if k == 2:
            return ["fact", d.pick(["names", "groups", "acl"]) if syntax == "asa" and d.chance(0.5) else d.pick(FACTS)]
        if k == 3:
            return ["branches", [pat() for _ in range(d.int(1, 3))], d.draw(4)]
        if k == 4:
            return ["one", d.pick(ONE[:d.pick([2, len(ONE)])]), pat(), d.draw(8)]
        if k == 5:
            return ["line", d.pick(["uncfgtext", "re_match", "re_search", "re_match_typed", "re_match_iter_typed", "re_search_children", "has_child_with", "abbrev", "subnet", "subnets", "hash", "repr", "dict", "reset_str",
                                     "has_line"]), d.draw(1000), pat()]
        if k == 6:
            return ["rmit", pat(), d.draw(4)]
        return ["pair", d.pick(PARENT), pat(), pat(), d.draw(16)]
    ops = d.list(op, 1, 12, 6)
    return {"lines": lines, "syntax": syntax, "factory": factory, "ignore": not d.chance(0.3), "ops": ops, "comment": d.weighted([(6, "!"), (1, "#"), (1, "!#")]), "order": d.shuffle(list(range(len(ops)))), "fresh": d.draw(len(ops))}


def canon(v, pos, depth=0):
    if isinstance(v, BaseCfgLine):
        return "line %s" % pos.get(id(v), "outside: " + v.text)
    if depth > 6:
        return "deep"
    if isinstance(v, dict):
        return {"dict": [[canon(k, pos, depth + 1), canon(x, pos, depth + 1)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [canon(x, pos, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return {"set": sorted(repr(canon(x, pos, depth + 1)) for x in v)}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, types.GeneratorType):
        return [canon(x, pos, depth + 1) for x in v]
    return re.sub(r"0x[0-9a-f]+", "0x", "%s %r" % (type(v).__name__, v))


def state(p):
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    return [[id(o), type(o).__name__, o.text, o.linenum, o.indent, bool(o.is_comment), o.blank_line_keep, pos.get(id(o.parent), "outside"), [pos.get(id(c), "outside") for c in o.children]] for o in objs]


def properties(cls):
    out = set()
    for k in cls.__mro__:
        for n, v in vars(k).items():
            if isinstance(v, property) and not n.startswith("_"):
                out.add(n)
    return sorted(out - SKIP)


def flags(fn, bits):
    """The optional switches of a search, set from the bits"""
    names = [n for n, q in inspect.signature(fn).parameters.items() if isinstance(q.default, bool) and n not in ("debug", "allow_none")]
    return {n: bool(bits >> i & 1) for i, n in enumerate(names)}


def run(p, op):
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}

    def call(fn):
        try:
            k = op[0]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = fn()
                out = canon(v, pos)
                if isinstance(v, (IPv4Obj, IPv6Obj)) and not v.empty and str(v) != str(IPv4Obj("0.0.0.1/32")):
                    # (that value stands for no address)
                    v.prefixlen = (v.prefixlen + 5) % 32
                if k in ("one", "pair", "branches", "rmit", "fact") and k + str(op[1]) not in ("factobjs", ):
                    # the answer belongs to the caller, who may change it
                    if isinstance(v, (list, dict)):
                        v.clear()
                return out
        except RecursionError:
            raise
        except Exception as e:
            return "raises " + type(e).__name__
    k = op[0]
    if k == "props":
        if not objs:
            return []
        o = objs[op[1] % len(objs)]
        def ask(n):
            v = getattr(o, n)
            keep.append((n, v))
            return v
        keep = []
        out = [[n, call(lambda: ask(n))] for n in properties(type(o))]
        for n, v in keep:
            if n not in ("children", ) and isinstance(v, (list, dict, set)):
                v.clear()
        return out
    if k == "branches":
        return call(lambda: p.find_object_branches(tuple(op[1]), regex_flags=re.IGNORECASE if op[2] & 1 else 0, regex_groups=bool(op[2] & 2)))
    if k == "one":
        return call(lambda: getattr(p, op[1])(op[2], **flags(getattr(p, op[1]), op[3])))
    if k == "rmit":
        return call(lambda: p.re_match_iter_typed(r"(%s)" % op[1], group=1, default="7", untyped_default=bool(op[2] & 1), result_type=int if op[2] & 2 else str))
    if k == "pair":
        b = [op[3]] if op[1] in ("find_objects_w_all_children", "find_objects_w_missing_children") else op[3]
        b0 = list(b)
        out = call(lambda: getattr(p, op[1])(op[2], b, **flags(getattr(p, op[1]), op[4])))
        same(list(b), b0, "the caller's patterns after %s" % op[1])
        return out
    if k == "fact":
        n = op[1]
        texts = [o.text for o in objs]
        cl = p.ConfigObjs
        return call({"ioscfg": lambda: p.ioscfg, "objs": lambda: p.objs, "openargs": lambda: p.openargs, "hierarchy": lambda: cl.config_hierarchy(), "names": lambda: cl.names,
                     "comments": lambda: cl.iter_with_comments(), "no_comments": lambda: cl.iter_no_comments(), "all_parents": lambda: cl.all_parents, "last": lambda: cl.last_index, "len": lambda: len(cl),
                     "repr": lambda: [repr(p), str(cl)[:200]], "contains": lambda: [o in cl for o in objs], "groups": lambda: [sorted(cl.object_group_network), sorted(cl.object_group_service)],
                     "acl": lambda: cl.access_list, "diff": lambda: HDiff(texts, texts[1:], syntax="ios").unified_diffs(header=False), "req": lambda: p.req_cfgspec_all_diff(texts[:2] + ["zz"]),
                     "excl": lambda: p.req_cfgspec_excl_diff(r"^\s*\S", r"\S+", texts[1:3] + ["zz"]), "uncfgs": lambda: [o.uncfgtext for o in objs if o.text.strip()],
                     "sync": lambda: p.sync_diff(texts[1:] + ["zz"], "^zz|^hostname")}[n])
    if not objs:
        return []
    o, s, n = objs[op[2] % len(objs)], op[3], op[1]
    net = IPv4Obj("10.0.0.0/8")
    return call({"uncfgtext": lambda: o.uncfgtext, "re_match": lambda: o.re_match("(%s)" % s), "re_search": lambda: o.re_search(s), "re_match_typed": lambda: o.re_match_typed("(%s)" % s, default="none"),
                 "re_match_iter_typed": lambda: o.re_match_iter_typed("(%s)" % s, default="none"), "re_search_children": lambda: o.re_search_children(s, recurse=True), "has_child_with": lambda: o.has_child_with(s),
                 "abbrev": lambda: o.is_abbreviated_as("gi0/1"), "subnet": lambda: o.in_ipv4_subnet(net), "subnets": lambda: o.in_ipv4_subnets([net]), "hash": lambda: o.hash_children,
                 "repr": lambda: [repr(o), str(o), len(o), o == objs[0], o > objs[0]], "dict": lambda: o.re_match_iter_typed(r"(?P<a>\S+)\s+(?P<b>\S+)", groupdict={"a": str, "b": str}),
                 "reset_str": lambda: o.build_reset_string(), "has_line": lambda: p.ConfigObjs.has_line_with(s)}[n])


def c(case):
    kw = dict(syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["ignore"], comment=case.get("comment", "!"))
    source = list(case["lines"])
    p = CiscoConfParse(source, **kw)
    before = state(p)
    what = "configuration %r (%s%s): " % (case["lines"], case["syntax"], ", typed" if case["factory"] else "")
    first = []
    for op in case["ops"]:
        first.append(run(p, op))
        after = state(p)
        if after != before:
            bad = [[a[1:], b[1:]] for a, b in zip(before, after) if a != b] or [len(before), len(after)]
            require(False, "%squery %r changed the configuration: %r", what, op, bad[:2])
        same(source, case["lines"], what + "the list that was parsed, after query %r" % (op,))
    for i in case["order"]:
        same(run(p, case["ops"][i]), first[i], what + "the answer to %r when asked again" % (case["ops"][i],))
        same(state(p) == before, True, what + "the configuration is as before, after %r again" % (case["ops"][i],))
    for i in [case["fresh"]] + [i for i in case["order"] if case["ops"][i][0] in ("one", "pair", "branches", "rmit")][:5]:
        q = CiscoConfParse(list(case["lines"]), **kw)
        same(run(q, case["ops"][i]), first[i], what + "the answer to %r on a fresh parse" % (case["ops"][i],))
    return len(case["ops"]) >= 4 and len(before) >= 3 and any(x and not str(x).startswith("raises") for x in first)


def g_search(d):
    """All searches, in a random order, on a small configuration with irregular indentation."""
    syntax = d.pick(["ios", "ios", "ios", "nxos", "iosxr", "asa"])
    factory = d.chance(0.15)
    lines = gen.config(d, hi=14, avg=6)
    if factory:
        lines = gen.typed_safe(lines, syntax)
    a, b = gen.pattern(d, lines), gen.pattern(d, lines)
    ops = [["one", n, d.pick([a, b]), d.draw(8)] for n in ONE] + [["pair", n, a, b, d.draw(16)] for n in PARENT] + [["branches", [a, b], d.draw(4)], ["props", d.draw(100)]]
    ops = d.shuffle(ops)[:d.int(6, len(ops))]
    return {"lines": lines, "syntax": syntax, "factory": factory, "ignore": not d.chance(0.3), "ops": ops, "order": d.shuffle(list(range(len(ops))))[:6], "fresh": d.draw(len(ops))}


QUICK_S = 24  # slow cases
SUBS = [Sub("history", g, c, weight=2), Sub("searches", g_search, c)]
