import re
from ..ccp import *
from ..core import Sub
from .. import gen
from ciscoconfparse.models_cisco import IOSCfgLine

SYN = ["ios", "nxos", "iosxr", "asa"]
IFN = ["GigabitEthernet0/1", "Ethernet1/2", "Vlan10", "Loopback0", "TenGigE0/0/0/1.100", "Serial1/0:3", "Port-channel1", "Tunnel100",
       "Management0", "BVI1", "Gi0/1"]
W = ["a", "R1", "foo", "X-1", "10", "TACACS"]
AAA = [("aaa authentication login {w} group {w2} local", "AaaLoginAuthenticationLine"),
       ("aaa authentication enable {w} group {w2} enable", "AaaEnableAuthenticationLine"),
       ("aaa authorization commands {n} {w} group {w2} local", "AaaCommandsAuthorizationLine"),
       ("aaa accounting commands {n} {w} start-stop group {w2}", "AaaCommandsAccountingLine"),
       ("aaa accounting exec {w} stop-only group {w2}", "AaaExecAccountingLine"),
       ("aaa group server tacacs+ {w}", "AaaGroupServerLine"),
       ("aaa group server radius {w}", "AaaGroupServerLine")]
GLOB = ["no cdp run", "logging event link-status global", "spanning-tree portfast default", "spanning-tree portfast bpduguard default"]
PRE = {"ios": "IOS", "nxos": "NXOS", "iosxr": "IOSXR", "asa": "ASA", "junos": "Junos"}
KINDS = {
    "ios": [("interface {i}", "IntfLine"), ("ip route 10.{o}.0.0 255.255.0.0 1.2.3.{o}", "RouteLine"),
            ("ip route vrf {w} 10.{o}.0.0 255.255.0.0 1.2.3.{o} 200 name {w2} tag {n}", "RouteLine"),
            ("ipv6 route 2001:db8:{o}::/48 2001:db8::1", "RouteLine"), ("ipv6 route ::/0 2001:db8::{o}", "RouteLine"),
            ("line vty 0 {n}", "AccessLine"),
            ("line con 0", "AccessLine"), ("hostname {w}", "HostnameLine")] + AAA + [(g, "IntfGlobal") for g in GLOB],
    "nxos": [("interface {i}", "IntfLine"), ("ip route 10.{o}.0.0/16 1.2.3.{o}", "RouteLine"),
             ("ipv6 route 2001:db8:{o}::/48 2001:db8::1", "RouteLine"), ("line vty", "AccessLine"), ("line console", "AccessLine"),
             ("hostname {w}", "HostnameLine"), ("vpc domain {n}", "vPCLine")] + AAA + [(g, "IntfGlobal") for g in GLOB],
    "iosxr": [("interface {i}", "IntfLine")],
    "asa": [("interface {i}", "IntfLine"), ("name 10.0.0.{o} {w}", "Name"), ("object network {w}", "ObjNetwork"),
            ("object service {w}", "ObjService"), ("object-group network {w}", "ObjGroupNetwork"),
            ("object-group service {w} tcp", "ObjGroupService"), ("object-group service {w}", "ObjGroupService"),
            ("mtu inside {n}", "IntfGlobal"), ("hostname {w}", "HostnameLine"),
            ("access-list {w} extended permit ip any any", "AclLine"), ("access-list {w} remark foo", "AclLine"),
            ("access-list {w} extended deny tcp host 1.1.1.{o} any eq www log", "AclLine")],
    "junos": [],
}
PLAIN = ["router bgp 65000", "vlan 10", "snmp-server community x", "username a", "logging 1.1.1.1", "access-lists x", "ip access-list standard 1",
         "hostname", "service x", "banner", "router ospf 1", "route-map A", "names", "a", "foo bar", "1", "end", "class-map x", "ntp server 1.1.1.1",
         "no hostname x", "no interface Vlan1", "no ip route 0.0.0.0 0.0.0.0 1.1.1.1", "default interface Vlan1", "aliases", "ip routing",
         "ipv6 router ospf 1", "no line vty 0", "no aaa new-model", "snmp ifmib", "monitor session 1", "vrf context a", "objects",
         "x interface Vlan1", "x interface Loopback1", "x interface Port-channel1", "x interface Ethernet1/1.10", "no interface Loopback1.5", "no interface GigabitEthernet0/1",
         "default interface Port-channel1", "interfaces x", "x hostname y", "crypto map a 10 match", "no name 1.1.1.1 x", "x access-list y", "x line vty 0", "x vpc domain 1",
         "set mtu 1500", "set object network x", "x object-group network y", "ip host name 1.1.1.1"]
PLAIN = [x for x in PLAIN if x not in ("hostname", "banner", "names")]


def g_class(d):
    syn = d.pick(SYN + ["ios", "asa"])
    lines, want = [], []

    def one():
        if KINDS[syn] and d.chance(0.6):
            t, cls = d.pick(KINDS[syn])
            t = t.format(i=d.pick(IFN), o=1 + d.draw(250), w=d.pick(W), w2=d.pick(W), n=1 + d.draw(15))
            lines.append(t)
            want.append(PRE[syn] + cls)
            for _ in range(d.draw(3)):
                lines.append(" " + d.pick(["description foo", "shutdown", "a", "description interface Loopback1", "description x interface Ethernet1/1.5", "x interface Port-channel5.1", "ip address 1.1.1.1 255.255.255.0", "use-vrf x"]))
                want.append(PRE[syn] + "CfgLine")
        elif d.chance(0.1):
            lines.append("! interface Vlan1")
            want.append(PRE[syn] + "CfgLine")
        else:
            lines.append(d.pick(PLAIN))
            want.append(PRE[syn] + "CfgLine")
    d.list(one, 1, 14, 5)
    return {"lines": lines, "want": want, "syntax": syn}


def predicates(o, syn):
    """What a line says about being an interface follows from its own text."""
    t = o.text
    name = t.split(None, 1)[1].lower() if t.startswith("interface ") else ""
    want = {"is_intf": bool(name), "is_subintf": bool(re.search(r"\.\d", name)), "is_loopback_intf": name.startswith("loopback"), "is_ethernet_intf": "thernet" in name}
    if syn == "asa":
        if not name.startswith("port-channel"):
            want["is_virtual_intf"] = name.startswith(("loopback", "tunnel", "virtual-template"))
    else:
        want["is_virtual_intf"] = name.startswith(("loopback", "vlan", "tunnel", "dialer", "virtual-template", "port-channel"))
    for k, v in want.items():
        same(getattr(o, k), v, "%s of the %s line %r" % (k, syn, t))


CLASSIFY = {"hostname": ["hostname"], "interface": ["interface"], "aaa_authentication": ["aaa", "authentication"], "aaa_authorization": ["aaa", "authorization"],
            "aaa_accounting": ["aaa", "accounting"], "ip_route": ["ip", "route"], "ipv6_route": ["ipv6", "route"]}


def classifiers(t):
    """The classifiers of the generic IOS line go by the first words."""
    words = t.split()
    got = {k: getattr(IOSCfgLine, "is_object_for_" + k)(line=t) for k in CLASSIFY}
    same(got, {k: words[:len(w)] == w for k, w in CLASSIFY.items()}, "classifiers of %r" % t)


def c_class(c):
    p = parse(c["lines"], syntax=c["syntax"], factory=True)
    q = parse(c["lines"], syntax=c["syntax"])
    same([o.classname for o in p.objs], c["want"], "types of the lines of %r" % c["lines"])
    same([type(o).__name__ for o in p.objs], c["want"], "types of the lines of %r" % c["lines"])
    same([o.classname for o in q.objs], [PRE[c["syntax"]] + "CfgLine"] * len(c["lines"]), "types in an untyped parse")
    same(snapshot(p), snapshot(q), "typed parse vs plain parse of %r" % c["lines"])
    for o in list(p.objs) + list(q.objs):
        predicates(o, c["syntax"])
        if c["syntax"] == "ios" and o.text.strip():
            classifiers(o.text)
    # context independence: a line alone has the same type as among others
    for t, w in zip(c["lines"], c["want"]):
        if not t.startswith(" "):
            (o,) = parse([t], syntax=c["syntax"], factory=True).objs
            same(o.classname, w, "type of %r alone" % t)
    return len(set(c["want"])) >= 2


def g_same(d):
    syn = d.pick(SYN)
    lines = gen.typed_safe(gen.config(d), syn)
    if d.chance(0.2):
        at = d.draw(len(lines) + 1)
        lines[at:at] = gen.banner(d)["lines"]
    return {"lines": gen.typed_safe(lines, syn), "syntax": syn, "ignore": d.chance(0.5)}


def c_same(c):
    lines = c["lines"]
    kw = dict(syntax=c["syntax"], ignore_blank_lines=c["ignore"])
    if c["ignore"]:
        lines = [x for x in lines if x.strip()]
    p, q = parse(lines, factory=True, **kw), parse(lines, factory=False, **kw)
    same(snapshot(p), snapshot(q), "typed parse vs plain parse of %r" % lines)
    return len(lines) > 3


SUBS = [Sub("classes", g_class, c_class), Sub("transparent", g_same, c_same)]
RULE = "Configurations of typed and plain commands; non-trivial = two different types / more than three lines."
