"""Junos interfaces: block trees with an interfaces block; what is an interface, a unit, its name and switchport state."""
from ..ccp import *
from ..core import Sub, Violation
from .p06 import render

IFN = ["ge-0/0/0", "ge-0/0/1", "xe-1/0/47", "et-0/1/2:0", "ae0", "lo0", "irb", "em0", "me0", "vlan", "st0", "fxp0", "reth1", "interface-range community", "interface-range unit-ports", "interface-range " + "building-7-" * 5]
STM = ["description \"uplink to ge-0/0/1\"", "description \"unit 0\"", "description \"family ethernet-switching\"", "mtu 9192", "speed 1g", "vlan-tagging",
       "disable", "apply-groups X", "description interfaces", "encapsulation ethernet-bridge"]
FAM = ["family inet", "family inet6", "family ethernet-switching", "family mpls", "family iso"]
FST = ["address 10.0.0.1/30", "address 2001:db8::1/64", "mtu 1500", "interface-mode trunk", "description \"family ethernet-switching\""]
TOP = ["system", "protocols", "vlans", "groups", "firewall", "routing-instances", "logical-systems", "policy-options", "interfaces-old"]


def g(d):
    def fam():
        return [d.pick(FAM), d.list(lambda: [d.pick(FST), None, 0], 0, 3, 1), d.draw(3)]

    def unit():
        kids = d.list(lambda: fam() if d.chance(0.75) else [d.pick(STM), None, 0], 0, 4, 1.2)
        return ["unit %d" % d.pick([0, 0, 1, 100, 16385]), kids, 0 if kids else d.draw(3)]

    def intf():
        kids = d.list(lambda: unit() if d.chance(0.6) else ["ether-options", [["no-flow-control", None, 0]], 0] if d.chance(0.2) else [d.pick(STM), None, 0], 0, 5, 2)
        return [d.pick(IFN), kids, 0 if kids else d.draw(3)]

    def other(level=0):
        t = d.pick(TOP) if level == 0 else d.pick(["ospf", "area 0.0.0.0", "unit 0", "X", "instance A", "term 1", "interface ge-0/0/0.0", "ge-0/0/0"])
        kids = d.list(lambda: block(level + 1), 0, 4, 1.2)
        return [t, kids, 0 if kids else d.draw(3)]

    def block(level):
        k = d.draw(4)
        if k == 0 and level < 4:
            return other(level)
        if k == 1 and level < 3:
            return ["interfaces", d.list(intf, 0, 3, 1.2), 0]
        return [d.pick(["interface ge-0/0/0.0", "host-name r1", "family ethernet-switching", "accept", "unit 0"] + STM), None, 0]

    roots = []
    n = d.pick([1, 1, 1, 0, 2])
    for _ in range(n):
        roots.append(["interfaces", d.list(intf, 0, 5, 2), 0])
    roots += d.list(other, 0, 4, 1.5)
    return {"tree": d.shuffle(roots), "layout": d.draw(1 << 30), "indent": d.pick([4, 4, 2, 0, -1]), "noise": d.chance(0.3), "factory": d.chance(0.3)}


def c_(c):
    src, want = render(c)
    p = parse(src, syntax="junos", factory=c["factory"])
    objs = list(p.objs)
    same([o.text.strip() for o in objs], [w for w, _ in want], "statements of %r" % src)
    exp = []

    def path(i):
        r = []
        while i is not None:
            r.append(i)
            i = want[i][1]
        return r[::-1]

    desc = [[] for _ in want]
    for i in range(len(want)):
        for a in path(i)[:-1]:
            desc[a].append(i)
    n = 0
    headers = set(w[1] for w in want)
    for i, o in enumerate(objs):
        pa = path(i)
        t = want[i][0]
        top = want[pa[0]][0] == "interfaces"
        phys = top and len(pa) == 2
        unit = top and len(pa) == 3 and t.split()[0] == "unit"
        if t.startswith("#"):
            continue
        isi = phys or unit
        n += isi
        what = " of statement %d %r of %r" % (i, o.text, src)
        same(o.is_intf, isi, "is_intf" + what)
        same(o.is_subintf, unit and want[pa[1]][0] is not None, "is_subintf" + what)
        nm = " ".join(want[k][0] for k in pa[1:]) if isi else None
        same(o.intf_name, nm, "intf_name" + what)
        same(o.name, nm, "name" + what)
        same(o.is_switchport, isi and any(want[k][0].split()[:2] == ["family", "ethernet-switching"] for k in desc[i]), "is_switchport" + what)
    return n > 0


SUBS = [Sub("interfaces", g, c_, fixed=[{"factory": False, "indent": 4, "layout": 0, "noise": False, "tree": [["interfaces-old", [["ge-0/0/0", [], 0]], 0], ["interfaces", [["interface-range community", [["unit 0", [], 0]], 0]], 0]]}])]
RULE = "A random Junos tree with interfaces blocks (also nested in other blocks); non-trivial = at least one interface."
ASSUME = "Statements directly inside the interfaces block are interfaces; comments are not judged."
