"""P47: debug output, log handlers and read-only mode change no result."""
import contextlib
import io
import os
import re
import sysconfig
import functools

from ..env import logger
from .. import env, gen
from ..ccp import *
from ..core import Sub
import ciscoconfparse.ciscoconfparse as cc
from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoIOSXRInterface, CiscoRange, IPv4Obj, IPv6Obj, ip_factory
from . import p06, p17, p18, p24, p25, p36, p42

sysconfig.get_path = functools.lru_cache(maxsize=None)(sysconfig.get_path)  # loguru asks 44 times for each handler
RULE = "a session of at least three operations on a configuration of at least three lines; a file of at least three lines; a value which is not refused"
ASSUME = ["debug levels 0 to 5; log handlers are text streams"]
RAISED = (Exception,)


@contextlib.contextmanager
def logging_to(mode):
    """The library's log is off, or goes to a stream."""
    old = cc.ACTIVE_LOGURU_HANDLERS
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            if mode:
                logger.enable("ciscoconfparse")
                logger.add(out, level=mode, colorize=False, catch=False)
            yield out
    finally:
        logger.remove()
        logger.disable("ciscoconfparse")
        cc.ACTIVE_LOGURU_HANDLERS = old


def g_how(d):
    ro = d.chance(0.25)
    how = {"debug": d.pick([1, 1, 2, 3, 5, True] + ([0, 0, 0] if ro else [])), "read_only": ro, "log": d.weighted([(5, ""), (1, "DEBUG"), (1, "WARNING")])}
    if how["log"] and d.chance(0.3):
        how["debug"] = 0
    return how


def g(d):
    if d.chance(0.1):
        c = {"syntax": "junos", "factory": False, "ignore": True, "comment": d.pick(["#", "!"]), "lines": p06.render(p06.g_tree(d))[0], "ops": []}
        pats = [gen.pattern(d, c["lines"]) for _ in range(3)]
        c["ops"] = [["one", "find_objects", x, d.draw(8)] for x in pats] + [["branches", pats[:2], d.draw(4)]]
    else:
        c = p36.g(d)
    ed = p17.g_ops(d, c["lines"], c["syntax"], c["factory"], 6, 3) if c["syntax"] != "junos" else []
    ops = [["query", x] for x in c["ops"][:6]] + [["edit", x] for x in ed]
    for _ in range(d.draw(3)):
        ops.append(["own", d.pick(["branches", "search", "dict", "appf"]), d.draw(60), gen.pattern(d, c["lines"]), gen.pattern(d, c["lines"])])
    return {"lines": c["lines"], "syntax": c["syntax"], "factory": c["factory"], "ignore": c["ignore"], "comment": c["comment"], "ops": d.shuffle(ops), "how": g_how(d)}


def edit(p, e):
    op, new = e["op"], e["new"]
    objs = list(p.objs)
    o = objs[e["at"] % len(objs)] if objs else None
    if op == "commit":
        p.commit()
    elif op == "ins":
        (p.insert_after if e["after"] else p.insert_before)(e["p"], new, atomic=e["atomic"])
    elif op == "append":
        p.append_line(new)
    elif op == "prepend":
        p.prepend_line(new)
    elif op == "insert":
        p.ConfigObjs.insert(e["at"] % (len(objs) + 1), new)
    elif op == "dell":
        p.delete_lines(e["p"])
    elif op == "repl":
        p.replace_lines(e["p"], e["r"], atomic=e["atomic"])
    elif op == "replk":
        p.replace_children(e["p"], e["q"], e["r"], atomic=e["atomic"])
    elif op == "repla":
        p.replace_all_children(e["p"], e["q"], e["r"], atomic=e["atomic"])
    elif op == "insc":
        p.insert_after_child(e["p"], e["q"], new, atomic=e["atomic"])
    elif op == "search":
        return [x.linenum for x in p.find_parent_objects(e["p"], e["q"])]
    elif o is None:
        return None
    elif op == "oins":
        (o.insert_after if e["after"] else o.insert_before)(new)
    elif op in ("del", "del0"):
        o.delete(recurse=op == "del")
    elif op == "text":
        o.text = new
    elif op == "resub":
        return o.re_sub(e["p"], e["r"])
    elif op == "fam":
        o.append_to_family(new, auto_indent=True)
    elif op == "delk":
        o.delete_children_matching(e["p"])
    elif op == "ldel":
        del p.ConfigObjs[e["at"] % len(objs)]
    elif op == "lslice":
        i = e["at"] % len(objs)
        del p.ConfigObjs[i:i + e["k"]]
    elif op == "pop":
        return p.ConfigObjs.pop(e["at"] % len(objs)).text
    elif op == "remove":
        p.ConfigObjs.remove(o)
    return None


def step(p, op, debug):
    try:
        if op[0] == "query":
            return p36.run(p, op[1])
        if op[0] == "edit":
            return edit(p, op[1])
        objs = list(p.objs)
        pos = {id(x): i for i, x in enumerate(objs)}
        _, k, at, a, b = op
        if k == "branches":
            return [[None if x is None else pos[id(x)] for x in row] for row in p.find_object_branches((a, b), debug=debug)]
        o = objs[at % len(objs)]
        if k == "search":
            return o.re_search(a, debug=debug)
        if k == "dict":
            return o.get_typed_dict(regex=re.search(r"(?P<a>\S+)\s+(?P<b>\S+)", o.text), type_dict={"a": str, "b": str}, default={"a": "-", "b": "-"}, debug=bool(debug))
        o.append_to_family(" zz", indent=o.indent + 1)
        return None
    except RAISED as e:
        return "raises " + type(e).__name__


def c(case):
    how = case["how"]
    kw = dict(syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["ignore"], comment=case["comment"])

    def play(debug, read_only):
        out = []
        try:
            p = parse(case["lines"], debug=debug, read_only=read_only, **kw)
        except RAISED as e:
            return ["parse raises " + type(e).__name__]
        out.append(["parse", snapshot(p), [type(o).__name__ for o in p.objs]])
        for op in case["ops"]:
            r = step(p, op, debug)
            out.append([op, r, snapshot(p)])
        return out

    want = play(0, False)
    with logging_to(how["log"]):
        got = play(how["debug"], how["read_only"])
    same(len(got), len(want), "steps with %r of %r" % (how, case["lines"]))
    for x, y in zip(got, want):
        require(x == y, "with %r, after %r on %r: got %r, expected %r", how, x[0], case["lines"], x[1:], y[1:])
    return len(want) > 3 and len(case["lines"]) >= 3


def g_value(d):
    k = d.pick(["intf", "intf", "xr", "xr", "range", "ints", "xrange", "v4", "v6", "factory"])
    m = d.draw(8)
    if k == "intf":
        n = p24.g_name(d)
        t = p24.text(n["p"], n["gap"], n["cgap"])
    elif k == "xr":
        n = p42.g_name(d)
        t = p42.text(n["p"])
    elif k == "range":
        t = p25.intf_text(p25.g_intf(d))
    elif k == "ints":
        t = p25.int_text(p25.g_int(d))
    elif k == "xrange":
        t = "GigabitEthernet0/0/0/%d-%d,%d" % (d.int(0, 9), d.int(5, 30), d.int(0, 9))
    elif k == "v6":
        t = "%x:%x::%x/%d" % (d.int(0, 65535), d.int(0, 65535), d.int(0, 65535), d.int(0, 128))
    else:
        t = "%d.%d.%d.%d" % tuple(d.int(0, 255) for _ in range(4)) + d.pick(["", "/%d" % d.int(0, 32), " 255.255.0.0", "/255.255.255.0"])
    if m < 2 and t:  # now and then something else
        i = d.draw(len(t))
        t = t[:i] + d.pick(["", "/", "-", ",", ".", ":", " ", "x", "9"]) + t[i + d.draw(2):]
    return {"k": k, "text": t, "how": g_how(d), "op": d.draw(6), "n": d.int(0, 40), "strict": d.chance(0.3), "stdlib": d.chance(0.3), "mode": d.pick(["auto_detect", "ipv4", "ipv6"])}


def value(case, debug):
    k, t, n = case["k"], case["text"], case["n"]
    b = bool(debug)

    def intf(o):
        return [str(o), repr(o), repr(sorted(o.as_dict().items(), key=str))]

    def ip(o):
        return [type(o).__name__, str(o), repr(o)]
    try:
        if k in ("intf", "xr"):
            cls = CiscoIOSInterface if k == "intf" else CiscoIOSXRInterface
            o = cls(t, debug=b)
            if case["op"] < 3:
                o = cls(interface_dict=o.as_dict(), debug=b)
            return intf(o)
        if k in ("range", "ints", "xrange"):
            member = CiscoIOSXRInterface if k == "xrange" else CiscoIOSInterface
            r = CiscoRange(t, result_type=int if k == "ints" else CiscoIOSXRInterface if k == "xrange" else None, debug=b)
            out = [[str(x) for x in r.as_list()]]
            x = n if k == "ints" else member("GigabitEthernet0/0/0/%d" % n if k == "xrange" else "Eth1/%d" % n)
            if case["op"] < 2:
                r.append(x, debug=b, ignore_errors=case["strict"])
            elif case["op"] < 4 and len(r):
                r.remove(x if case["op"] == 2 else r.as_list()[n % len(r)], debug=b, ignore_errors=case["strict"])
            return out + [[str(x) for x in r.as_list()], r.as_compressed_str(debug=b)]
        if k == "v4":
            return ip(IPv4Obj(t, strict=case["strict"], debug=debug))
        if k == "v6":
            return ip(IPv6Obj(t, strict=case["strict"], debug=debug))
        return ip(ip_factory(t, stdlib=case["stdlib"], mode=case["mode"], debug=debug))
    except RAISED as e:
        return "raises " + type(e).__name__


def c_value(case):
    want = value(case, 0)
    with logging_to(case["how"]["log"]):
        got = value(case, int(case["how"]["debug"]) or 1)
    same(got, want, "%r with %r" % (case, case["how"]))
    return not str(want).startswith("raises")


def g_file(d):
    c = p18.g_diff(d)
    return {"a": [x for x in c["a"] if "\n" not in x and "\r" not in x], "b": c["b"], "syntax": c["syntax"], "ignore": c["ignore"], "how": g_how(d)}


def c_file(case):
    """Diffs and configurations read from a file."""
    how = case["how"]
    path = os.path.join(env.scratch(), "p47-%d.txt" % os.getpid())
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write("".join(x + "\n" for x in case["a"]))

    def play(debug, read_only):
        out = []
        for fn in (lambda: snapshot(cc.CiscoConfParse(path, syntax=case["syntax"], encoding="utf-8", debug=debug, read_only=read_only)),
                   lambda: cc.CiscoConfParse(path + "-missing", debug=debug, read_only=read_only),
                   lambda: (lambda h: [h.all_output_dicts, h.unified_diffs(header=False)])(cc.HDiff(list(case["a"]), list(case["b"]), syntax=case["syntax"], ignore_blank_lines=case["ignore"], debug=debug))):
            try:
                out.append(fn())
            except RAISED as e:
                out.append("raises " + type(e).__name__)
        return out
    try:
        want = play(0, False)
        with logging_to(how["log"]):
            got = play(int(how["debug"]), how["read_only"])
    finally:
        os.unlink(path)
    for n, x, y in zip(("file", "missing file", "diff"), got, want):
        require(x == y, "%s of %r and %r with %r: got %r, expected %r", n, case["a"], case["b"], how, x, y)
    return len(case["a"]) >= 3


SUBS = [Sub("session", g, c, weight=2), Sub("value", g_value, c_value, weight=2), Sub("file", g_file, c_file)]
