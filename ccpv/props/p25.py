"""P25: ranges of integers and of interfaces."""
from .. import env  # noqa: F401
from ..core import Sub, Violation, raises, require, same
from . import p24, p42
from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoIOSXRInterface, CiscoRange

RULE = "the expression has a dash and denotes three or more members"
ASSUME = ["a bare number in an interface range stands for the last component of the interface named before it",
          "in a range with different interface classes every member is written with its class"]


def g_items(d, hi=5, top=60, span=40):
    """[[lo, hi or None], ...]"""
    base = d.pick([0, 1, 1, 95, 990, 4000]) if d.chance(0.4) else d.draw(20)
    out = []

    def one():
        lo = max(0, base + d.draw(top) - 3)
        out.append([lo, None if d.chance(0.5) else lo + d.pick([0, 1, 2, 3, d.draw(span)])])
    d.list(one, 1, hi, 2.5)
    return out


def expand(items):
    s = []
    for lo, hi in items:
        s += range(lo, (lo if hi is None else hi) + 1)
    return s


def g_sp(d):
    return d.pick(["", "", "", " "])


def g_int(d):
    return {"items": g_items(d), "sp": [g_sp(d), g_sp(d), g_sp(d)]}


def int_text(c):
    a, b, e = c["sp"]
    return (a + "," + b).join("%d" % lo if hi is None else "%d%s-%s%d" % (lo, e, e, hi) for lo, hi in c["items"])


def check_queries(r, want, what, member):
    """want: sorted list of the members"""
    for _ in range(2):
        same(len(r), len(want), what + ": length")
        same(sorted(r), want, what + ": iteration")
        same(r.as_list(), want, what + ": as_list")
        same(r.as_set(), set(want), what + ": as_set")
        same([r[i] for i in range(len(r))], list(r), what + ": indexing")
        same(r.member_type, member, what + ": member type")
    require(r == r and hash(r) == hash(r), what + ": equality and hash")


def c_int(c):
    t = int_text(c)
    want = sorted(set(expand(c["items"])))
    what = "CiscoRange(%r, int)" % t
    r = CiscoRange(t, result_type=int)
    check_queries(r, want, what, int)
    same(r.as_list(result_type=str), [str(x) for x in want], what + ": as_list(str)")
    same(r.as_set(result_type=int), set(want), what + ": as_set(int)")
    for v in want[:3] + [want[-1]]:
        for w in (v - 1, v, v + 1):
            same(w in r, w in want, what + ": %d in it" % w)
    z = r.as_compressed_str()
    r2 = CiscoRange(z, result_type=int)
    same(sorted(r2), want, what + ": compressed to %r and expanded" % z)
    require(r2 == r, what + ": not equal to its compressed form %r", z)
    same(hash(r2), hash(r), what + ": hash of its compressed form")
    same(r2.as_compressed_str(), z, what + ": compressed twice")
    # no longer than necessary: maximal runs, pairs spelt out
    parts, i = [], 0
    while i < len(want):
        j = i
        while j + 1 < len(want) and want[j + 1] == want[j] + 1:
            j += 1
        parts += [str(want[i])] if i == j else ["%d,%d" % (want[i], want[j])] if j == i + 1 else ["%d-%d" % (want[i], want[j])]
        i = j + 1
    same(z, ",".join(parts), what + ": compressed")
    b = CiscoRange(t, result_type=int, reverse=True)
    same(b.as_list(), want[::-1], what[:-1] + ", reverse=True): as_list")
    same(b.as_list(result_type=str), [str(x) for x in want[::-1]], what[:-1] + ", reverse=True): as_list(str)")
    same(sorted(b), want, what[:-1] + ", reverse=True): members")
    same(b.as_set(), set(want), what[:-1] + ", reverse=True): as_set")
    same(b.as_compressed_str(), z, what[:-1] + ", reverse=True): compressed")
    same((b - CiscoRange("%d" % want[0], result_type=int)).as_list(), want[:0:-1], what[:-1] + ", reverse=True) - %d: as_list" % want[0])
    same((b + CiscoRange("%d" % (want[-1] + 2), result_type=int)).as_list(), [want[-1] + 2] + want[::-1],
         what[:-1] + ", reverse=True) + %d: as_list" % (want[-1] + 2))
    b.append(want[-1] + 1)
    same(b.as_list(), [want[-1] + 1] + want[::-1], what[:-1] + ", reverse=True).append(%d): as_list" % (want[-1] + 1))
    same(sorted(r), want, what + " afterwards")
    return "-" in t and len(want) >= 3


def g_intf(d):
    groups = []
    pre = p24.g_prefix(d)
    cls = d.pick(p24.CLASS) if d.chance(0.2) else None

    def one():
        p = p24.g_parts(d)
        p["prefix"] = pre if d.chance(0.7) else p24.g_prefix(d)
        if groups and d.chance(0.6):  # near the previous group
            q = groups[-1]["p"]
            p = dict(q)
            k = d.pick([k for k in p24.KEYS if q[k] is not None])
            p[k] = q[k] + d.draw(3)
        p["interface_class"] = None
        groups.append({"p": p, "items": g_items(d, d.pick([2, 4]), 30, d.pick([5, 5, 5, 30])), "full": d.chance(0.2)})
    d.list(one, 1, 3, 0.8)
    if len(groups) > 1:  # plain numbers would be relative to the other names
        for g in groups:
            if p24.text(g["p"]).isdigit():
                g["p"] = dict(g["p"], prefix="Eth")
    if cls and d.chance(0.3):  # every part with its own class
        for g in groups:
            g.update(full=True, cls=[d.pick(p24.CLASS) for _ in g["items"]])
        cls = None
    return {"groups": groups, "cls": cls, "sp": [g_sp(d), g_sp(d), g_sp(d)], "gap": d.pick(["", "", " "])}


def it_attr(p):
    return next(k for k in ("channel", "subinterface", "port") if p[k] is not None)


def intf_text(c):
    a, b, e = c["sp"]
    parts = []
    for g in c["groups"]:
        k = it_attr(g["p"])
        for n, (lo, hi) in enumerate(g["items"]):
            q = dict(g["p"])
            q[k] = lo
            # a name without prefix, slot, ... looks like a bare number: relative to the previous name
            t = p24.text(q, c["gap"]) if n == 0 or g["full"] else "%d" % lo
            parts.append((t if hi is None else "%s%s-%s%d" % (t, e, e, hi)) + (" " + g["cls"][n] if "cls" in g else ""))
    return (a + "," + b).join(parts) + (" " + c["cls"] if c["cls"] else "")


def members(c):
    out = []
    for g in c["groups"]:
        k = it_attr(g["p"])
        for n, item in enumerate(g["items"]):
            for v in expand([item]):
                q = dict(g["p"])
                q[k] = v
                q["interface_class"] = g["cls"][n] if "cls" in g else c["cls"]
                if q not in out:
                    out.append(q)
    return out


def key(p):
    return [-1 if p[k] is None else p[k] for k in p24.KEYS] + [p.get("interface_class") or ""]


def c_intf(c):
    ms = members(c)
    t = intf_text(c)
    what = "CiscoRange(%r)" % t
    want = [p24.text(q) for q in ms]
    for rt in (None, str, CiscoIOSInterface):
        r = CiscoRange(t, result_type=rt)
        w = what[:-1] + ", %s)" % rt
        for _ in range(2):
            same(len(r), len(want), w + ": length")
            same(sorted(str(x) for x in r), sorted(want), w + ": iteration")
            same(sorted(r.as_list(result_type=str)), sorted(want), w + ": as_list(str)")
            same(r.as_set(result_type=str), set(want), w + ": as_set(str)")
            if rt is str:
                break
    same(r.member_type, CiscoIOSInterface, what + ": member type")
    for f in (lambda: r.as_set(), lambda: r.as_set(result_type=None), lambda: r.as_set(result_type=CiscoIOSInterface),
              lambda: set(r.as_list()), lambda: set(r.as_list(result_type=None)), lambda: set(r)):
        same(f(), {CiscoIOSInterface(x) for x in want}, what + ": members")
    keys = [key(next(q for q in ms if p24.text(q) == str(x))) for x in r]
    same(keys, sorted(keys), what + ": order")
    keys = [key(next(q for q in ms if p24.text(q) == x)) for x in r.as_list(result_type=str)]
    same(keys, sorted(keys), what + ": order of as_list")
    q = dict(ms[0])
    for k in p24.KEYS:
        if q[k] is not None:
            for n in (0, 1, 2):
                e = dict(q)
                e[k] += n  # with the class of the first member
                same(CiscoIOSInterface(p24.text(e)) in r, p24.text(e) in want, what + ": %s in it" % p24.text(e))
    z = r.as_compressed_str()
    r2 = CiscoRange(z, result_type=None)
    same(sorted(str(x) for x in r2), sorted(want), what + ": compressed to %r and expanded" % z)
    require(len(z) <= len(",".join(want)), what + ": compressed to %r", z)
    b = CiscoRange(t, result_type=None, reverse=True)
    keys = [key(next(q for q in ms if p24.text(q) == x)) for x in b.as_list(result_type=str)]
    same(keys, sorted((key(q) for q in ms), reverse=True), what[:-1] + ", reverse=True): order of as_list")
    same(sorted(str(x) for x in b), sorted(want), what[:-1] + ", reverse=True): members")
    z = b.as_compressed_str()
    same(sorted(str(x) for x in CiscoRange(z, result_type=None)), sorted(want), what[:-1] + ", reverse=True): compressed to %r and expanded" % z)
    same(sorted(str(x) for x in r), sorted(want), what + " afterwards")
    return "-" in t and len(want) >= 3


def g_hist(d):
    ops = d.list(lambda: [d.pick(["append", "append", "remove", "remove", "append!", "remove!", "add", "sub", "set", "del", "query"]),
                          d.draw(24), d.draw(8)], 1, 14, 6)
    return {"items": g_items(d, 3, 20) if d.chance(0.85) else [], "kind": d.pick(["int", "int", "intf"]), "ops": ops,
            "p": p24.g_parts(d), "nosort": d.chance(0.1)}


def c_hist(c):
    p = dict(c["p"], prefix="Eth")
    p["interface_class"] = None
    k = it_attr(p)

    def mk(v):
        if c["kind"] == "int":
            return v
        return CiscoIOSInterface(p24.text(dict(p, **{k: v})))

    def rng(items):
        if c["kind"] == "int":
            return CiscoRange(int_text({"items": items, "sp": ["", "", ""]}), result_type=int)
        t = intf_text({"groups": [{"p": p, "items": items, "full": False}], "cls": None, "sp": ["", "", ""], "gap": ""}) if items else ""
        return CiscoRange(t, result_type=None)
    r = rng(c["items"])
    m = sorted(set(expand(c["items"])))
    order = list(m)
    pool = list(m) + [x for x in range(24)]
    log = ["%s range of %r" % (c["kind"], m)]
    bad = (lambda f, w: raises(f, w))
    for op, a, b in c["ops"]:
        v = pool[a % len(pool)]
        what = "; ".join(log) + "; %s %r" % (op, v)
        if op == "append":
            if v in m:
                bad(lambda: r.append(mk(v)), what)
            else:
                same(r.append(mk(v), sort=not c["nosort"]) is r, True, what + ": returned the range")
                m.append(v)
                order = order + [v] if c["nosort"] else sorted(order + [v])
        elif op == "append!":
            r.append(mk(v), ignore_errors=True)
            if v not in m:
                m.append(v)
                order = sorted(order + [v])
        elif op == "remove":
            if v in m:
                r.remove(mk(v))
                m.remove(v)
                order.remove(v)
            else:
                bad(lambda: r.remove(mk(v)), what)
        elif op == "remove!":
            r.remove(mk(v), ignore_errors=True)
            if v in m:
                m.remove(v)
                order.remove(v)
        elif op in ("add", "sub"):
            none = a % 5 == 0  # an empty operand
            items = [] if none else [[v, v + b]]
            o = rng(items)
            old = list(r)
            n = r + o if op == "add" else r - o
            same(list(r), old, what + ": left operand")
            span = [] if none else list(range(v, v + b + 1))
            same(list(o), [mk(x) for x in span], what + ": right operand")
            require(n is not r and n is not o, "%s: the result is one of the operands", what)
            # a change of an operand leaves the result alone and the other way round
            if b % 2:  # (append() also sorts the operand)
                keep = list(n)
                for q in (r, o):
                    q.append(mk(90001), ignore_errors=True)
                same(list(n), keep, what + ": the result after the operands grew")
                for q in (r, o):
                    q.remove(mk(90001))
                n.append(mk(90002), ignore_errors=True)
                same(sorted(r), sorted(old), what + ": left operand after the result grew")
                same(list(o), [mk(x) for x in span], what + ": right operand after the result grew")
                n.remove(mk(90002))
                same(sorted(n), sorted(keep), what + ": the result after adding and removing a member")
                n = r + o if op == "add" else r - o
                order = sorted(order)
            r = n
            m = sorted(set(m) | set(span)) if op == "add" else [x for x in m if x not in span]
            order = sorted(m) if op == "add" else [x for x in order if x not in span]
        elif op == "set":
            if m and v not in m:
                i = b % len(r) - (len(r) if a % 2 else 0)  # also from the end
                old = r[i]
                require(old == list(r)[i], "%s: indexing with %d", what, i)
                r[i] = mk(v)
                m.remove(next(x for x in m if mk(x) == old))
                m.append(v)
                order[i] = v
        elif op == "del":
            if m:
                i = b % len(r) - (len(r) if a % 2 else 0)
                old = r[i]
                del r[i]
                m.remove(next(x for x in m if mk(x) == old))
                del order[i]
        else:
            str(r), repr(r), r.as_compressed_str(), (hash(r) if m else 0), list(r), len(r)
            for q in (r.as_list(), r.as_set(), r.as_list(result_type=str), r.as_set(result_type=str)):
                q.clear()  # the answers are the caller's to change
        log.append("%s %r" % (op, v))
        what = "; ".join(log)
        want = sorted(m)
        same(len(r), len(want), what + ": length")
        same(sorted(r), [mk(x) for x in want], what + ": members")
        same(list(r), [mk(x) for x in order], what + ": order of the members")
        same([v in r for v in map(mk, range(26))], [v in m for v in range(26)], what + ": membership")
    want = sorted(m)
    same(list(r.as_list()), [mk(x) for x in want], what + ": as_list")
    same(set(r.as_set()), {mk(x) for x in want}, what + ": as_set")
    z = r.as_compressed_str()
    if want:
        same(sorted(CiscoRange(z, result_type=int if c["kind"] == "int" else None)), [mk(x) for x in want], what + ": compressed to %r" % z)
    else:
        same(z, "", what + ": compressed")
    return len(c["ops"]) >= 3


def g_xr(d):
    groups = []

    def one():
        p = p42.g_parts(d)
        if groups and d.chance(0.6):
            p = dict(groups[-1]["p"])
            k = d.pick([k for k in p42.NUM if p[k] is not None])
            p[k] += d.draw(3)
        p["cls"] = None
        p["prefix"] = (groups[0]["p"]["prefix"] if groups and d.chance(0.7) else d.pick(p42.PREFIX[:-1]))
        groups.append({"p": p, "items": g_items(d, 3, 20, 4), "full": d.chance(0.2)})
    d.list(one, 1, 3, 0.8)
    return {"groups": groups, "sp": [g_sp(d), g_sp(d), g_sp(d)], "gap": d.pick(["", "", " "])}


def c_xr(c):
    a, b, e = c["sp"]
    parts, ms = [], []
    for g in c["groups"]:
        k = it_attr(g["p"])
        for n, (lo, hi) in enumerate(g["items"]):
            t = p42.text(dict(g["p"], **{k: lo}), c["gap"]) if n == 0 or g["full"] else "%d" % lo
            parts.append(t if hi is None else "%s%s-%s%d" % (t, e, e, hi))
        for v in expand(g["items"]):
            q = dict(g["p"], **{k: v})
            if q not in ms:
                ms.append(q)
    t = (a + "," + b).join(parts)
    want = sorted(p42.text(q) for q in ms)
    what = "CiscoRange(%r, result_type=CiscoIOSXRInterface)" % t
    r = CiscoRange(t, result_type=CiscoIOSXRInterface)
    for _ in range(1):
        same(len(r), len(want), what + ": length")
        same(sorted(str(x) for x in r), want, what + ": iteration")
        same(sorted(str(x) for x in r.as_list()), want, what + ": as_list")
        same(sorted(r.as_list(result_type=str)), want, what + ": as_list(str)")
        same(r.as_set(result_type=str), set(want), what + ": as_set(str)")
        same({str(x) for x in r.as_set()}, set(want), what + ": as_set")
        same(r.member_type, CiscoIOSXRInterface, what + ": member type")
        z = r.as_compressed_str()
        same(sorted(str(x) for x in CiscoRange(z, result_type=CiscoIOSXRInterface)), want, what + ": compressed to %r and expanded" % z)
        require(len(z) <= len(",".join(want)), what + ": compressed to %r", z)
    q = dict(ms[0])
    for k in p42.NUM:
        if q[k] is not None:
            for n in (0, 1, 2):
                x = p42.text(dict(q, **{k: q[k] + n}))
                same(CiscoIOSXRInterface(x) in r, x in want, what + ": %s in it" % x)
    x = CiscoIOSXRInterface(want[0])
    r.remove(x)
    same(sorted(str(x) for x in r), want[1:], what + ".remove(%s)" % x)
    if len(want) > 1:
        r.append(x)
        same(sorted(str(x) for x in r), want, what + ".remove(%s).append(%s)" % (x, x))
    return "-" in t and len(want) >= 3


SUBS = [Sub("int", g_int, c_int, RULE, 1), Sub("intf", g_intf, c_intf, RULE, 2),
        Sub("xr", g_xr, c_xr, RULE, 1), Sub("history", g_hist, c_hist, "three or more operations", 2)]
