import re

from ..ccp import *
from ..core import Sub, raises
from ..search import g_config, load, idx, rx, opts, plain
from .. import gen


def g_lines(d):
    c = g_config(d)
    c["spec"], c["ws"], c["exact"] = opts(d, c["lines"])
    return c


def c_lines(c):
    p, objs, tree, pos = load(c)
    spec = c["spec"]
    f = rx(spec, c["ws"], c["exact"])
    want = [i for i, t in enumerate(tree.lines) if f(t)]
    kw = {}
    if c["exact"]:
        kw["exactmatch"] = True
    if c["ws"]:
        kw["ignore_ws"] = True
    what = "(%r, %r) on %r" % (spec, kw, tree.lines)
    got = p.find_objects(spec, **kw)
    same(idx(pos, got, "find_objects"), want, "find_objects" + what)
    same(list(p.find_lines(spec, **kw)), [tree.lines[i] for i in want], "find_lines" + what)
    for e, w in ((True, False), (False, False), (True, True), (False, True)):
        # the same pattern on the same configuration, asked in the other ways
        if e and "(?" in spec:
            continue
        g = rx(spec, w, e)
        hits = [i for i, t in enumerate(tree.lines) if g(t)]
        x = "(%r, exactmatch=%r, ignore_ws=%r) after another search on %r" % (spec, e, w, tree.lines)
        same(idx(pos, p.find_objects(spec, exactmatch=e, ignore_ws=w), "find_objects"), hits, "find_objects" + x)
        same(list(p.find_lines(spec, exactmatch=e, ignore_ws=w)), [tree.lines[i] for i in hits], "find_lines" + x)
    if not kw:
        same(p.has_line_with(spec), bool(want), "has_line_with" + what)
        same(bool(p.ConfigObjs.has_line_with(spec)), bool(want), "ConfigObjs.has_line_with" + what)
    same(idx(pos, p.find_objects(spec, **kw), "find_objects"), want, "find_objects again" + what)
    if not kw:
        same(idx(pos, p.re_search_children(spec, recurse=True), "re_search_children"), want, "re_search_children, recursive" + what)
        same(idx(pos, p.re_search_children(spec), "re_search_children"), [i for i in want if not tree.ancestors(i)],
             "re_search_children" + what)
        for i in range(min(6, len(objs))):
            t = tree.lines[i]
            hit = i in want or spec in t
            same(objs[i].re_search(spec), t if hit else "", "re_search of line %d" % i + what)
            same(objs[i].re_search(spec, default="-none-"), t if hit else "-none-", "re_search with a default, of line %d" % i + what)
    return 0 < len(want) < len(tree.lines)


TYPES = ["GigabitEthernet", "FastEthernet", "Serial", "Vlan", "Loopback", "Tunnel", "TenGigabitEthernet", "Ethernet", "Port-channel",
         "GigabitEthernet", "Serial"]


def g_intf(d):
    names, seen = [], set()

    def one():
        t = d.pick(TYPES)
        n = "/".join(str(d.pick([0, 1, 2, 10, 11, 100])) for _ in range(1 + d.draw(3)))
        if d.chance(0.3):
            n += "." + str(d.pick([1, 10, 100]))
        if t in ("Vlan", "Loopback", "Tunnel", "Port-channel"):
            n = str(d.pick([1, 10, 100, 11]))
        if t + n not in seen:
            seen.add(t + n)
            names.append([t, n])
    d.list(one, 1, 8, 4)
    if not names:
        names.append(["Vlan", "1"])
    t, n = d.pick(names)
    k = 1 + d.draw(len(t))
    q = t[:k]
    if d.chance(0.1):
        q, n = d.pick(TYPES)[:1 + d.draw(4)], d.pick(["1", "0/1", "1/0", "10", "0/1.10"])
    q = d.pick([q, q.lower(), q.upper()]) + d.pick(["", " "]) + n
    return {"names": names, "query": q, "syntax": d.pick(["ios", "ios", "nxos", "iosxr"]), "sub": d.chance(0.4), "space": d.chance(0.3)}


def c_intf(c):
    lines = []
    head = {}
    for i, (t, n) in enumerate(c["names"]):  # IOS allows a space between the type and the number
        head[t + n] = "interface " + t + (" " if c["syntax"] == "ios" and c.get("space") and i % 2 == 0 else "") + n
        lines += [head[t + n], " description x", " no shutdown", "!"]
    p = parse(lines, factory=True, syntax=c["syntax"])
    q = c["query"].lower()
    want = []
    for t, n in c["names"]:
        if any(q == t[:k].lower() + sep + n for k in range(1, len(t) + 1) for sep in ("", " ")):
            want = [head[t + n]]
            break
    got = p.find_interface_objects(c["query"])
    same([o.text for o in got], want, "find_interface_objects(%r) among %r" % (c["query"], c["names"]))
    raises(lambda: parse(lines, syntax=c["syntax"]).find_interface_objects(c["query"]), "find_interface_objects on an untyped parse")
    raises(lambda: p.find_interface_objects(c["query"], exactmatch=False), "find_interface_objects without exactmatch")
    same([o.text for o in p.find_interface_objects(c["query"])], want, "find_interface_objects(%r) again" % c["query"])
    return bool(want)


def g_dna(d):
    lines = ["hostname R1", "interface Vlan1", " description x", "ip route 1.0.0.0 255.0.0.0 2.2.2.2", "line vty 0 4", "router bgp 1",
             "interface GigabitEthernet0/1", "no cdp run", "aaa group server tacacs+ x", "vlan 10"]
    return {"lines": d.list(lambda: d.pick(lines), 1, 12, 6), "spec": d.pick(
        ["Hostname", "Intf", "IOSIntfLine", "Route", "Cfg", "IOSCfgLine", "^IOS", "Line$", "Access", "x", "Intf|Route", "IOSIntfLine|IOSRouteLine", "IOSIntf|RouteLine", "IOS|Line"]),
        "exact": d.chance(0.4)}


DNA = [("hostname", "IOSHostnameLine"), ("interface", "IOSIntfLine"), ("ip route", "IOSRouteLine"), ("line", "IOSAccessLine"),
       ("no cdp run", "IOSIntfGlobal"), ("aaa group", "IOSAaaGroupServerLine")]


def c_dna(c):
    p = parse(c["lines"], factory=True)
    f = rx(c["spec"], exact=c["exact"])
    names = [next((n for k, n in DNA if t.startswith(k)), "IOSCfgLine") for t in c["lines"]]
    want = [i for i, n in enumerate(names) if f(n)]
    same([o.linenum for o in p.find_objects_dna(c["spec"], exactmatch=c["exact"])], want, "find_objects_dna(%r, %r) on %r" % (
        c["spec"], c["exact"], c["lines"]))
    raises(lambda: parse(c["lines"]).find_objects_dna(c["spec"]), "find_objects_dna on an untyped parse")
    return 0 < len(want) < len(names)


SUBS = [Sub("lines", g_lines, c_lines, weight=4), Sub("interfaces", g_intf, c_intf), Sub("types", g_dna, c_dna)]
RULE = "Random configurations x patterns derived from their lines; non-trivial = some but not all lines match."
