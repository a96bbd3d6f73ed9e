"""P30: VLANs of trunk and access ports."""
from .. import env  # noqa: F401
from ..core import Sub, require, same
from ..ccp import parse
from ciscoconfparse.ccp_util import CiscoRange

RULE = "at least two allowed-VLAN commands, or a value other than the default"
ASSUME = ["'except' takes the VLANs away from the current set on IOS (as the existing tests fix) and means all other VLANs on NX-OS"]
ALL = frozenset(range(1, 4095))
NOISE = ["description switchport trunk allowed vlan 7", "mtu 1500", "no switchport trunk allowed vlan 9", "switchport voice vlan 33", "spanning-tree portfast",
         "! switchport trunk allowed vlan 8", "switchport trunk pruning vlan 2-7", "no shutdown", "switchport port-security", "description switchport access vlan 12",
         "switchport trunk group FOO", "private-vlan trunk 5", "description x"]


def vlans(d):
    """(text, members)"""
    parts, got = [], set()
    for _ in range(d.pick([1, 1, 2, 3, 5])):
        a = d.pick([1, 2, 4094, d.int(1, 4094), d.int(1, 12), d.int(1, 12)])
        if d.chance(0.4):
            b = min(4094, a + d.pick([0, 1, 3, d.int(0, 60), d.int(0, 4094)]))
            parts.append("%d-%d" % (a, b))
            got |= set(range(a, b + 1))
        else:
            parts.append(str(a))
            got.add(a)
    return ",".join(parts), got


def g(d):
    syn = d.pick(["ios", "ios", "nxos", "nxos", "iosxr"])
    kind = d.pick(["trunk", "trunk", "trunk", "trunk", "access", "", "none", "dynamic"])
    cmds, cur, n = [], set(ALL), 0
    block = []
    if kind not in ("none",):
        for _ in range(d.pick([0, 1, 1, 2, 3, 5])):
            op = d.pick(["", "", "all", "none", "add", "add", "remove", "remove", "except"])
            n += 1
            if op in ("all", "none"):
                block.append("switchport trunk allowed vlan " + op)
                cur = set(ALL) if op == "all" else set()
                continue
            t, v = vlans(d)
            block.append("switchport trunk allowed vlan " + (op + " " if op else "") + t)
            if op == "":
                cur = set(v)
            elif op == "add":
                cur |= v
            elif op == "remove" or syn == "ios":
                cur -= v
            else:
                cur = set(ALL) - v
    native = access = None
    if kind != "none":
        if d.chance(0.4):
            native = d.pick([1, 2, 4094, d.int(1, 4094)])
        if d.chance(0.4):
            access = d.pick([1, 2, 4094, d.int(1, 4094)])
    rest = {"trunk": ["switchport mode trunk"], "access": ["switchport mode access"], "": ["switchport"], "none": [],
            "dynamic": ["switchport mode fex-fabric" if syn == "nxos" else "switchport mode dynamic auto"]}[kind]
    if kind in ("trunk", "access") and d.chance(0.3):
        rest = rest + ["switchport"]
    if native is not None:
        rest = rest + ["switchport trunk native vlan %d" % native]
    if access is not None:
        rest = rest + ["switchport access vlan %d" % access]
    rest = rest + [d.pick(NOISE[:7] if kind != "none" else [x for x in NOISE if not x.startswith("switchport")]) for _ in range(d.pick([0, 0, 1, 2]))]
    rest = d.shuffle(rest)
    # the allowed-VLAN commands keep their order, other commands are mixed in
    lines = list(block)
    for x in rest:
        lines.insert(d.draw(len(lines) + 1), x)
    other = []
    if d.chance(0.4):
        other = ["interface Ethernet1/9", " switchport mode trunk", " switchport trunk allowed vlan 77", " switchport access vlan 78", " switchport trunk native vlan 79"]
    return {"syntax": syn, "kind": kind, "lines": lines, "allowed": sorted(cur) if len(cur) < 50 else None, "compressed": ranges(cur), "native": native,
            "access": access, "other": other, "first": d.chance(0.5), "n": n}


def ranges(s):
    out = []
    for x in sorted(s):
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return out


def c(case):
    own = ["interface Ethernet1/1"] + [" " + x for x in case["lines"]]
    lines = (case["other"] + own) if case["first"] else (own + case["other"])
    p = parse(lines, factory=True, syntax=case["syntax"])
    o = list(p.objs)[len(case["other"]) if case["first"] else 0]
    what = "%s %r: " % (case["syntax"], "\n".join(own))
    sw = case["kind"] != "none"
    want = set()
    for a, b in case["compressed"]:
        want |= set(range(a, b + 1))
    for _ in range(2):
        got = o.trunk_vlans_allowed
        if not sw or case["kind"] == "access":
            require(got == 0 and isinstance(got, int), "%strunk_vlans_allowed of a port which is no trunk: %r", what, got)
        else:
            require(isinstance(got, CiscoRange), "%strunk_vlans_allowed is %r", what, got)
            members = list(got)
            same(ranges(members), case["compressed"], what + "trunk_vlans_allowed")
            require(len(members) == len(set(members)) == len(want) and all(isinstance(x, int) for x in members), "%smembers %r", what, members[:50])
            same(members, sorted(want), what + "order of the VLANs")
    same(o.native_vlan, case["native"] if case["native"] is not None else (1 if sw else 0), what + "native_vlan")
    same(o.access_vlan, case["access"] if case["access"] is not None else (1 if sw else 0), what + "access_vlan")
    return case["n"] > 1 or case["native"] not in (None, 1) or case["access"] not in (None, 1)


SUBS = [Sub("vlans", g, c)]
