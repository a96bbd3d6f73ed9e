"""P34: facts of NX-OS, IOS-XR and ASA interfaces and of NX-OS vPC domains."""
import ipaddress
from .. import env  # noqa: F401
from ..core import Sub, raises, require, same
from ..ccp import parse
from ..stanza import Stanza, decoy, description, v4, v6, mask
from ciscoconfparse.ccp_util import CiscoIOSXRInterface, IPv4Obj, IPv6Obj

RULE = "the stanza under test has at least three commands which set a fact"
ASSUME = ["each single-valued command occurs at most once in a stanza; at most one HSRP group per NX-OS interface",
          "facts which the library takes over from IOS and which have no command on the platform are not checked"]
NOISE = {
    "nxos": ["no shutdown", "no switchport", "ip ospf cost 3", "no ip redirects", "load-interval counter 1 30", "lldp transmit", "! mtu 1111", "! shutdown", "no mtu", "no description x",
             "no channel-group 9", "no vrf member OLD", "no speed 10", "ip router ospf 1 area 0.0.0.0", "ipv6 address 2001:db8::1/64", "no ip address 10.55.55.55/8", "no vpc 9",
             "no bandwidth 5", "no ip access-group X in", "spanning-tree bpduguard enable", "no lacp suspend-individual", "ip address 10.44.44.44/8 secondary", "hsrp version 2",
             "no ip dhcp relay address 10.3.3.3", "no ip pim sparse-mode", "no beacon", "logging event port link-status"],
    "iosxr": ["no shutdown", "! mtu 1111", "no mtu", "no vrf OLD", "ipv4 mtu 1400", "ipv4 unreachables disable", "load-interval 30", "lldp", "no description x", "no bandwidth 7", "bundle minimum-active links 1",
              "no ipv4 address 10.5.5.5 255.0.0.0", "ipv4 address 10.44.44.44 255.0.0.0 secondary", "flow ipv4 monitor M ingress", "ipv6 enable"],
    "asa": ["security-level 100", "nameif inside", "no shutdown", "! shutdown", "no description x", "ospf cost 10", "no ip address", "management-only", "no speed 10", "no delay 5", "ipv6 enable", "vlan 10",
            "no duplex half", "channel-group 1 mode active", "ip verify reverse-path interface inside", "pim hello-interval 5", "no pim"]}
for _k in NOISE:
    NOISE[_k] += ["no snmp trap link-status", "mac-address 0000.1111.2222", "service-policy output X"]


def num(d, hi):
    return d.pick([1, hi, d.int(1, hi)])


def g_name(d, syntax):
    sub = d.int(1, 4094) if d.chance(0.3) else None
    if syntax == "nxos":
        pt, n = d.pick([("Ethernet", 2), ("Ethernet", 2), ("Ethernet", 3), ("port-channel", 1), ("Vlan", 1), ("loopback", 1), ("mgmt", 1), ("Tunnel", 1)])
        if pt not in ("Ethernet", "port-channel"):
            sub = None
    elif syntax == "iosxr":
        pt, n = d.pick([("GigabitEthernet", 4), ("TenGigE", 4), ("HundredGigE", 4), ("Loopback", 1), ("Bundle-Ether", 1), ("BVI", 1)])
        if pt in ("Loopback", "BVI"):
            sub = None
    else:
        pt, n = d.pick([("GigabitEthernet", 2), ("Ethernet", 2), ("Management", 2), ("TenGigabitEthernet", 2), ("Port-channel", 1), ("Vlan", 1), ("Tunnel", 1), ("BVI", 1)])
        if pt in ("Vlan", "Tunnel", "BVI"):
            sub = None
    nums = [d.pick([0, 1, 2, d.int(0, 130)]) for _ in range(n)]
    ns = "/".join(map(str, nums))
    text = pt + ns + (".%d" % sub if sub is not None else "")
    low = pt.lower()
    f = dict(name=text, port=nums[-1], port_type=pt, is_intf=True, is_subintf=sub is not None, is_loopback_intf=low == "loopback",
             is_ethernet_intf="thernet" in low or (syntax == "nxos" and low == "mgmt"))
    if syntax != "asa":
        f.update(ordinal_list=nums, interface_number=ns, subinterface_number=text[len(pt):], is_portchannel_intf="channel" in low)
    else:
        f["ordinal_list"] = nums
    f["is_virtual_intf"] = low in ("loopback", "vlan", "tunnel", "port-channel") if syntax != "asa" else low in ("loopback", "tunnel")
    if syntax == "asa" and low == "port-channel":
        del f["is_virtual_intf"]
    return text, f


def stanza(d, syntax):
    text, f = g_name(d, syntax)
    s = Stanza("interface " + text, f)
    p = d.pick([0.1, 0.3, 0.6])
    yes = lambda: d.chance(p)  # noqa: E731
    fa = s.facts

    def opt(line, defaults, facts, prob=None):
        fa.update(defaults)
        if d.chance(p if prob is None else prob):
            s.add(line)
            fa.update(facts)

    x = description(d)
    opt("description " + x, {"description": ""}, {"description": x})
    n = num(d, 10**6)
    opt("delay %d" % n, {"manual_delay": 0}, {"manual_delay": n})
    opt("shutdown", {"is_shutdown": False}, {"is_shutdown": True})
    v = d.pick(["auto", 10, 100, 1000, 10000])
    fa["has_manual_speed"] = False
    if syntax != "asa":
        fa["manual_speed"] = 0
    if yes():
        s.add("speed %s" % v)
        if v != "auto":
            fa["has_manual_speed"] = True
            if syntax != "asa":
                fa["manual_speed"] = v
    v = d.pick(["auto", "full", "half"])
    dup = ""
    if yes():
        dup = v
        s.add("duplex " + v)
    fa["has_manual_duplex"] = bool(dup)
    if syntax != "asa":
        fa["manual_duplex"] = dup
    fa["has_autonegotiation"] = fa["is_ethernet_intf"] and not fa["has_manual_speed"] and dup in ("", "auto")
    out = {"ipv4": None, "ipv6": None, "standby": "", "standby6": "", "dhcp": False}
    addr, n = v4(d), d.pick([24, 30, 32, 31, 8, d.int(1, 32)])
    kind = d.pick(["none", "static", "static", "static", "dhcp"])
    if kind == "static":
        out["ipv4"] = [addr, n]
        if syntax == "nxos":
            s.add("ip address %s/%d%s" % (addr, n, d.pick(["", "", "", " tag 5"])))
        elif syntax == "iosxr":
            s.add("ipv4 address %s %s" % (addr, mask(n)))
        else:
            out["standby"] = v4(d) if d.chance(0.4) else ""
            s.add("ip address %s %s%s" % (addr, mask(n), " standby " + out["standby"] if out["standby"] else ""))
    elif kind == "dhcp" and syntax != "iosxr":
        out["dhcp"] = syntax == "nxos"
        s.add("ip address dhcp" + (d.pick(["", " setroute"]) if syntax == "asa" else ""))
    if syntax == "nxos":
        nxos(d, s, opt, out, p)
    elif syntax == "iosxr":
        n = num(d, 9216)
        opt("mtu %d" % n, {"manual_mtu": 0, "has_manual_mtu": False}, {"manual_mtu": n, "has_manual_mtu": True})
        n = num(d, 10**7)
        opt("bandwidth %d" % n, {"manual_bandwidth": 0}, {"manual_bandwidth": n})
        v = d.pick(["RED", "cust-1", "10"])
        opt("vrf " + v, {"vrf": "", "has_vrf": False}, {"vrf": v, "has_vrf": True})
        e = d.pick(["dot1q", "ppp", "hdlc"])
        opt("encapsulation " + e + (" 5" if e == "dot1q" else ""), {"manual_encapsulation": ""}, {"manual_encapsulation": e})
    else:
        if d.chance(0.5):
            a = v6(d)
            n = d.pick([64, 128, 127, d.int(1, 128)])
            out["ipv6"] = [str(ipaddress.IPv6Address(a)), n]
            out["standby6"] = "2001:db8::%x" % d.int(1, 255) if d.chance(0.4) else ""
            block = ["ipv6 address %s/%d%s" % (a, n, " standby " + out["standby6"] if out["standby6"] else "")]
            if d.chance(0.2):
                block.insert(d.draw(2), "ipv6 address fe80::1 link-local")
            s.add(block)
        sw = d.pick(["", "", "access", "trunk"])
        opt("ip pim sparse-mode", {"has_ip_pim_sparse_mode": False}, {"has_ip_pim_sparse_mode": out["ipv4"] is not None})
        opt("x", {"is_switchport": False, "has_manual_switch_access": False, "has_manual_switch_trunk": False, "access_vlan": 0}, {}, 0)
        if sw:
            s.add("switchport mode " + sw, is_switchport=True, has_manual_switch_access=sw == "access", has_manual_switch_trunk=sw == "trunk")
        if d.chance(0.2):
            n = num(d, 4094)
            s.add("switchport access vlan %d" % n, is_switchport=True, access_vlan=n)
    nset = len(s.blocks)
    for _ in range(d.pick([0, 0, 1, 2, 4])):
        x = decoy(d) if d.chance(0.4) else d.pick(NOISE[syntax])
        if x.startswith("switchport"):
            continue
        s.add(x)
    out.update(lines=s.render(d, d.pick([" ", "  "]) if syntax == "nxos" else " "), facts=fa, n=nset, abbv=[f["port_type"], text[len(f["port_type"]):]])
    return out


def nxos(d, s, opt, out, p):
    fa = s.facts
    for fact, cmd, hi in (("manual_mtu", "mtu %d", 9216), ("manual_ip_mtu", "ip mtu %d", 9216)):
        n = num(d, hi)
        opt(cmd % n, {fact: 0, "has_" + fact: False}, {fact: n, "has_" + fact: True})
    n = num(d, 10**7)
    opt("bandwidth %d" % n, {"manual_bandwidth": 0}, {"manual_bandwidth": n})
    opt("beacon", {"manual_beacon": False}, {"manual_beacon": True})
    n = num(d, 1000)
    opt("carrier-delay msec %d" % n, {"manual_carrierdelay": 0.0, "has_manual_carrierdelay": False}, {"manual_carrierdelay": n / 1000.0, "has_manual_carrierdelay": True})
    n = num(d, 4094)
    opt("encapsulation dot1q %d" % n, {"manual_encapsulation": ""}, {"manual_encapsulation": "dot1q"})
    opt("mpls ip forwarding", {"has_mpls": False}, {"has_mpls": True})
    v = d.pick(["RED", "management", "10"])
    opt("vrf member " + v, {"vrf": "", "has_vrf": False}, {"vrf": v, "has_vrf": True})
    vrf = fa["vrf"]
    helpers = []
    if d.chance(p):
        block = []
        for _ in range(d.int(1, 3)):
            a = v4(d)
            block.append("ip dhcp relay address %s" % a)
            helpers.append({"addr": a, "vrf": vrf, "global": False})
        s.add(block)
    fa.update(ip_helper_addresses=helpers, has_ip_helper_addresses=bool(helpers))
    has4 = out["ipv4"] is not None
    if not out["dhcp"]:
        for fact, cmd in (("has_no_icmp_unreachables", "no ip unreachables"), ("has_no_ip_proxyarp", "no ip proxy-arp")):
            opt(cmd, {fact: False}, {fact: has4})
        fa["has_ip_pim_sparse_mode"] = False
        opt("ip pim sparse-mode", {}, {"has_ip_pim_sparse_mode": has4})
        fa.update(has_ip_pim_dense_mode=False, has_ip_pim_sparsedense_mode=False)
    n = num(d, 4096)
    opt("channel-group %d%s" % (n, d.pick(["", " mode active", " force mode on"])), {"intf_in_portchannel": False, "portchannel_number": -1}, {"intf_in_portchannel": True, "portchannel_number": n})
    n = num(d, 4096)
    fa.update(vpc=0, is_vpc_peerlink=False)
    k = d.draw(6)
    if k == 1:
        s.add("vpc %d" % n, vpc=n)
    elif k == 2:
        s.add("vpc peer-link", is_vpc_peerlink=True)
    n = num(d, 199)
    opt("fex associate %d" % n, {"fex_associate_chassis_id": 0}, {"fex_associate_chassis_id": n})
    v = d.pick(["point-to-point", "shared", "auto"])
    opt("spanning-tree link-type " + v, {"manual_stp_link_type": ""}, {"manual_stp_link_type": v})
    v = d.pick(["edge", "edge trunk", "network", "normal"])
    opt("spanning-tree port type " + v, {"manual_stp_port_type": ""}, {"manual_stp_port_type": v})
    fa.update(is_switchport=False, has_manual_switch_access=False, has_manual_switch_trunk=False, has_manual_switch_fex_fabric=False, has_switch_portsecurity=False,
              has_switch_stormcontrol=False)
    if d.chance(0.4):
        mode = d.pick(["", "access", "trunk", "fex-fabric"])
        fa["is_switchport"] = True
        if mode:
            s.add("switchport mode " + mode, **{"has_manual_switch_" + {"fex-fabric": "fex_fabric"}.get(mode, mode): True})
        if not mode or d.chance(0.3):
            s.add("switchport")
        opt("switchport port-security", {}, {"has_switch_portsecurity": True})
        opt("storm-control broadcast level 5.00", {}, {"has_switch_stormcontrol": True})
    opt("no cdp enable", {"has_manual_disable_cdp": False}, {"has_manual_disable_cdp": True})
    acl = {}
    for way in ("in", "out"):
        v = d.pick(["ACL-in", "out", "FOO", "101"])
        opt("ip access-group %s %s" % (v, way), {"ip_accessgroup_" + way: ""}, {"ip_accessgroup_" + way: v})
        v = d.pick(["MAC-IN", "in", "m"])
        opt("mac access-group %s %s" % (v, way), {"mac_accessgroup_" + way: ""}, {"mac_accessgroup_" + way: v}, 0.15)
    del acl
    # HSRP
    out["hsrp"] = None
    if has4 and d.chance(0.5):
        h = {"group": str(num(d, 4095)), "ip": v4(d), "priority": 100, "hello": 0.0, "hold": 0.0, "track": "", "preempt": False, "keychain": ""}
        kids = ["  ip " + h["ip"]]
        if d.chance(0.5):
            h["priority"] = d.int(1, 255)
            kids.append("  priority %d" % h["priority"])
        if d.chance(0.5):
            a, b = d.int(1, 254), d.int(3, 255)
            ms = d.chance(0.4)
            if ms:
                a, b = d.int(250, 999), d.int(750, 3000)
            h["hello"], h["hold"] = (a / 1000.0, b / 1000.0) if ms else (float(a), float(b))
            kids.append("  timers %s%d %s%d" % ("msec " if ms else "", a, "msec " if ms else "", b))
        if d.chance(0.5):
            h["preempt"] = True
            kids.append("  preempt" + d.pick(["", " delay minimum 30"]))
        if d.chance(0.4):
            h["track"] = str(d.int(1, 500))
            kids.append("  track " + h["track"] + d.pick(["", " decrement 20"]))
        if d.chance(0.4):
            h["keychain"] = d.pick(["KC1", "k", "chain-2"])
            kids.append("  authentication md5 key-chain " + h["keychain"])
        if d.chance(0.3):
            kids.append(d.pick(["  no preempt-old", "  no authentication md5 key-chain OLD", "  name x", "  authentication text y"]))
        s.add(["hsrp " + h["group"]] + d.shuffle(kids))
        out["hsrp"] = h


def g(d):
    syntax = d.pick(["nxos", "nxos", "asa", "iosxr"])
    st = [stanza(d, syntax) for _ in range(d.pick([1, 1, 2]))]
    i = d.draw(len(st))
    a = st[i]
    net = None
    if a["ipv4"]:
        net = ipaddress.ip_network("%s/%d" % (a["ipv4"][0], max(0, min(32, a["ipv4"][1] + d.int(-3, 3)))), strict=False).with_prefixlen
    nets = [x for x in [net] if x] + ["%s/%d" % (ipaddress.ip_network("%s/%d" % (v4(d), n), strict=False).network_address, n) for n in d.list(lambda: d.int(4, 30), 0, 2, 1)]
    return {"syntax": syntax, "pre": d.pick([[], ["hostname R1"], ["!"]]), "sep": d.pick([[], ["!"]]), "stanzas": st, "i": i, "nets": d.shuffle(nets)}


def c(case):
    lines, pos = list(case["pre"]), []
    for s in case["stanzas"]:
        pos.append(len(lines))
        lines += s["lines"] + case["sep"]
    syn = case["syntax"]
    p = parse(lines, factory=True, syntax=syn)
    a = case["stanzas"][case["i"]]
    o = list(p.objs)[pos[case["i"]]]
    what = "%s %r: " % (syn, "\n".join(a["lines"]))
    f = a["facts"]
    for k, v in f.items():
        got = getattr(o, k)
        if k == "ordinal_list":
            got = list(got)
        if k == "is_vpc_peerlink":
            got = bool(got)
        require(type(got) is type(v), "%s%s is %r, expected %r", what, k, got, v)
        same(got, v, what + k)
    if syn == "nxos":
        for way in ("in", "out"):
            same([getattr(o, "ipv4_accessgroup_" + way), getattr(o, "has_ip_accessgroup_" + way), getattr(o, "has_ipv4_accessgroup_" + way)],
                 [f["ip_accessgroup_" + way], bool(f["ip_accessgroup_" + way]), bool(f["ip_accessgroup_" + way])], what + "ip access group " + way)
            same(getattr(o, "has_mac_accessgroup_" + way), f["is_switchport"] and bool(f["mac_accessgroup_" + way]), what + "has_mac_accessgroup_" + way)
        h = a["hsrp"]
        if not a["dhcp"]:
            same([o.has_ip_hsrp, o.hsrp_ip_addr, o.hsrp_priority, o.has_hsrp_preempt, o.hsrp_track, o.has_hsrp_track],
                 [True, h["ip"], h["priority"], h["preempt"], h["track"], bool(h["track"])] if h else [False, "", 0, False, "", False], what + "HSRP")
            same([o.hsrp_authentication_md5_keychain, o.has_hsrp_authentication_md5], [h["keychain"], bool(h["keychain"])] if h else ["", False], what + "HSRP key chain")
            same([str(o.hsrp_group), o.hsrp_hello_timer, o.hsrp_hold_timer], [h["group"], h["hello"], h["hold"]] if h else ["", 0.0, 0.0], what + "HSRP group and timers")
    if a["dhcp"]:
        for k in ("ipv4_addr", "ip_addr", "ipv4_addr_object", "ip", "ipv4"):
            raises(lambda: getattr(o, k), what + k + " of a dhcp interface")
    elif a["ipv4"]:
        addr, n = a["ipv4"]
        same([o.ipv4_addr, o.ip_addr, o.ipv4_netmask, o.ipv4_masklength, o.has_no_ipv4], [addr, addr, mask(n), n, False], what + "IPv4 address, mask and length")
        want = IPv4Obj("%s/%d" % (addr, n))
        for k in ("ipv4_addr_object", "ip", "ipv4"):
            same(getattr(o, k), want, what + k)
        net = ipaddress.ip_network("%s/%d" % (addr, n), strict=False)
        for k in ("ip_network_object", "ipv4_network_object"):
            got = getattr(o, k)
            same(str(got if syn == "asa" else got.network), str(net), what + k)
    else:
        same([o.ipv4_addr, o.ip_addr, o.ipv4_netmask, o.ipv4_masklength, o.has_no_ipv4], ["", "", "", 0, True], what + "IPv4 address without one")
        for k in ("ipv4_addr_object", "ip", "ipv4", "ip_network_object"):
            same(getattr(o, k), IPv4Obj() if syn == "asa" else o.default_ipv4_addr_object, what + k + " without an address")
    if syn == "asa":
        same(o.ipv4_standby_addr, a["standby"], what + "ipv4_standby_addr")
        same(o.ipv4_standby_addr_object, IPv4Obj("%s/%d" % (a["standby"], a["ipv4"][1])) if a["standby"] else IPv4Obj(), what + "ipv4_standby_addr_object")
        same([o.ipv6_addr, o.ipv6_masklength], a["ipv6"] or ["", 0], what + "IPv6 address")
        same(o.ipv6_standby_addr, a["standby6"], what + "ipv6_standby_addr")
        if a["ipv6"]:
            same(o.ipv6_addr_object, IPv6Obj("%s/%d" % tuple(a["ipv6"])), what + "ipv6_addr_object")
        else:
            require(o.ipv6_addr_object.empty, "%sipv6_addr_object without an address", what)
    if not a["dhcp"]:
        hit = []
        for n in case["nets"]:
            want = False
            if a["ipv4"]:
                want = ipaddress.ip_network("%s/%d" % tuple(a["ipv4"]), strict=False).subnet_of(ipaddress.ip_network(n))
            hit.append(want)
            same(bool(o.in_ipv4_subnet(IPv4Obj(n))), want, what + "in_ipv4_subnet(%s)" % n)
        same(bool(o.in_ipv4_subnets([IPv4Obj(n) for n in case["nets"]])), any(hit), what + "in_ipv4_subnets(%s)" % case["nets"])
    if syn != "asa":
        pt, ns = a["abbv"][0].lower(), a["abbv"][1]
        for i in range(1, len(pt) + 1):
            for sp in ("", " "):
                require(o.is_abbreviated_as(pt[:i].title() + sp + ns), "%snot abbreviated as %r", what, pt[:i] + sp + ns)
        for x in (pt + ns + "9", "x" + pt + ns, pt[:1] + "9" + ns, ns):
            require(not o.is_abbreviated_as(x), "%sabbreviated as %r", what, x)
    require(isinstance(repr(o), str) and isinstance(o.verbose, str) if not a["dhcp"] else isinstance(repr(o), str), "%sprinting", what)
    return a["n"] >= 3


# facts of NX-OS and IOS-XR interfaces which are read from commands in the IOS spelling: fact, command, type of the value, default
COMMON = [("manual_bandwidth", "bandwidth %s", 10**7, 0), ("manual_delay", "delay %s", 10**6, 0), ("manual_clock_rate", "clock rate %s", 8 * 10**6, 0), ("manual_mtu", "mtu %s", 9216, 0),
          ("manual_mpls_mtu", "mpls mtu %s", 9216, 0), ("manual_ip_mtu", "ip mtu %s", 9216, 0), ("xconnect_vc", "xconnect 10.1.1.9 %s encapsulation mpls", 2**32 - 1, 0),
          ("ipv4_accessgroup_in", "ip access-group %s in", ["A", "101", "ACL-in", "out"], ""), ("ipv4_accessgroup_out", "ip access-group %s out", ["A", "101", "ACL-in", "out"], ""),
          ("mac_accessgroup_in", "mac access-group %s in", ["M", "701", "in"], ""), ("mac_accessgroup_out", "mac access-group %s out", ["M", "701", "in"], ""),
          ("hsrp_authentication_md5_keychain", "standby 1 authentication md5 key-chain %s", ["KC1", "k"], ""), ("manual_encapsulation", "encapsulation %s", ["dot1q", "ppp"], ""),
          ("has_manual_disable_cdp", "no cdp enable", None, False)]
PLATFORM = {"iosxr": [("manual_holdqueue_in", "hold-queue %s in", 4096, 0), ("manual_holdqueue_out", "hold-queue %s out", 4096, 0), ("has_hsrp_usebia", "standby use-bia", None, False),
                      ("has_mpls", "mpls ip", None, False), ("has_hsrp_preempt", "standby 1 preempt", None, False)],
            "nxos": [("has_hsrp_usebia", "hsrp use-bia", None, False), ("has_mpls", "mpls ip forwarding", None, False), ("manual_beacon", "beacon", None, False)]}
WITH_IP = [("has_no_icmp_unreachables", "no ip unreachables"), ("has_no_icmp_redirects", "no ip redirects"), ("has_no_ip_proxyarp", "no ip proxy-arp"), ("has_ip_pim_dense_mode", "ip pim dense-mode"),
           ("has_ip_pim_sparse_mode", "ip pim sparse-mode"), ("has_ip_pim_sparsedense_mode", "ip pim sparse-dense-mode")]
BOOLS = {"clock_rate": "manual_clock_rate", "mtu": "manual_mtu", "mpls_mtu": "manual_mpls_mtu", "ip_mtu": "manual_ip_mtu"}


def g_common(d):
    syntax = d.pick(["nxos", "iosxr"])
    s = Stanza("interface " + d.pick({"nxos": ["Ethernet1/1", "Vlan10"], "iosxr": ["GigabitEthernet0/0/0/1", "Bundle-Ether5"]}[syntax]), {})
    fa = s.facts
    p = d.pick([0.1, 0.3, 0.6])
    has4 = d.chance(0.6)
    if has4:
        s.add("ip address 10.1.1.1/24" if syntax == "nxos" else "ipv4 address 10.1.1.1 255.255.255.0")
    for fact, cmd, val, default in COMMON + PLATFORM[syntax]:
        fa[fact] = default
        if d.chance(p):
            v = True if val is None else num(d, val) if isinstance(val, int) else d.pick(val)
            s.add(cmd % v if val is not None else cmd, **{fact: v})
    for k, fact in BOOLS.items():
        fa["has_manual_" + k] = bool(fa[fact])
    fa["has_xconnect"] = bool(fa["xconnect_vc"])
    fa["has_hsrp_authentication_md5"] = bool(fa["hsrp_authentication_md5_keychain"])
    for way in ("in", "out"):
        v = fa["ipv4_accessgroup_" + way]
        fa["ip_accessgroup_" + way] = v
        fa["has_ip_accessgroup_" + way] = fa["has_ipv4_accessgroup_" + way] = bool(v)
    fa["manual_carrierdelay"], fa["has_manual_carrierdelay"] = 0.0, False
    if d.chance(p):
        v = num(d, 60)
        ms = d.chance(0.5)
        s.add("carrier-delay %s%d" % ("msec " if ms else "", v), manual_carrierdelay=v / 1000.0 if ms else float(v), has_manual_carrierdelay=True)
    for fact, cmd in WITH_IP:
        on = d.chance(p)
        if on:
            s.add(cmd)
        fa[fact] = has4 and on
    fa["manual_arp_timeout"] = 0 if has4 else -1
    if d.chance(p):
        v = num(d, 10**6)
        s.add("arp timeout %d" % v)
        if has4:
            fa["manual_arp_timeout"] = v
    sw = d.chance(0.5)
    fa.update(is_switchport=sw, has_dtp=sw, has_manual_switch_access=False, has_manual_switch_trunk=False, has_switch_portsecurity=False, native_vlan=1 if sw else 0, access_vlan=1 if sw else 0)
    if sw:
        s.add("switchport")
        m = d.pick(["", "access", "trunk"])
        if m:
            s.add("switchport mode " + m, **{"has_manual_switch_" + m: True})
        if d.chance(p):
            s.add("switchport nonegotiate", has_dtp=False)
        if d.chance(p):
            s.add("switchport port-security", has_switch_portsecurity=True)
        for k in ("native", "access"):
            if d.chance(p):
                v = num(d, 4094)
                s.add("switchport %s%s vlan %d" % ("trunk " if k == "native" else "", k, v), **{k + "_vlan": v})
    fa.update(has_manual_switch_trunk_encap=False, manual_switch_trunk_encap="")
    if sw and d.chance(p):
        v = d.pick(["dot1q", "isl", "negotiate"])
        s.add("switchport trunk encapsulation " + v, has_manual_switch_trunk_encap=True, manual_switch_trunk_encap=v)
    for way in ("in", "out"):
        fa["has_mac_accessgroup_" + way] = sw and bool(fa["mac_accessgroup_" + way])
    hs = dict(hsrp_group=-1, hsrp_ip_addr="", hsrp_priority=100, hsrp_hello_timer=0.0, hsrp_hold_timer=0.0, hsrp_ip_mask="") if syntax == "iosxr" else {}
    if syntax == "iosxr":  # helper addresses in the IOS spelling
        fa["ip_helper_addresses"] = []
        if d.chance(p):
            block = []
            for _ in range(d.int(1, 3)):
                h = {"addr": v4(d), "vrf": "", "global": False}
                k = d.pick(["", "", "vrf", "global"])
                if k == "vrf":
                    h["vrf"] = d.pick(["RED", "global", "10"])
                elif k:
                    h["global"] = True
                block.append("ip helper-address %s%s" % ({"": "", "vrf": "vrf %s " % h["vrf"], "global": "global "}[k], h["addr"]))
                fa["ip_helper_addresses"].append(h)
            s.add(block)
        fa["has_ip_helper_addresses"] = bool(fa["ip_helper_addresses"])
    if hs and d.chance(0.5):
        a, n = v4(d), num(d, 255)
        m = d.pick(["", "", "255.255.255.0", "255.255.255.252"])
        s.add("standby %d ip %s%s" % (n, a, " " + m if m else ""))
        if has4:
            hs["hsrp_ip_mask"] = m
        hs["hsrp_group"] = n
        if has4:
            hs["hsrp_ip_addr"] = a
        if d.chance(0.5):
            v = num(d, 255)
            s.add("standby %d priority %d" % (n, v))
            hs["hsrp_priority"] = v
        if d.chance(0.5):
            a, b = d.int(1, 254), d.int(2, 255)
            s.add("standby %d timers %d %d" % (n, a, b))
            hs["hsrp_hello_timer"], hs["hsrp_hold_timer"] = float(a), float(b)
    if hs and not hs["hsrp_ip_addr"]:  # no HSRP without a group
        hs["hsrp_priority"] = 0
    fa.update(hs)
    n = len(s.blocks)
    fa["description"] = ""
    if d.chance(0.4):
        x = description(d)
        s.add("description " + x, description=x)
    for _ in range(d.pick([0, 1, 2, 4])):
        s.add(decoy(d))
    return {"syntax": syntax, "lines": s.render(d, " "), "facts": fa, "n": n}


def c_common(case):
    other = ["interface Ethernet9/9", " mtu 1999", " standby use-bia", " switchport", " no cdp enable"]
    p = parse(case["lines"] + other, factory=True, syntax=case["syntax"])
    o = list(p.objs)[0]
    what = "%s %r: " % (case["syntax"], "\n".join(case["lines"]))
    for k, v in case["facts"].items():
        got = getattr(o, k)
        require(type(got) is type(v), "%s%s is %r, expected %r", what, k, got, v)
        same(got, v, what + k)
    same(str(o.interface_object), case["lines"][0].split()[1], what + "interface_object")
    return case["n"] >= 3


VPC = [("role priority", "vpc_role_priority", 65535), ("system-priority", "vpc_system_priority", 65535), ("auto-recovery reload-delay", "vpc_auto_recovery_reload_delay", 86400)]
VFLAGS = [("peer-config-check-bypass", "has_peer_config_check_bypass"), ("peer-switch", "has_peer_switch"), ("layer3 peer-router", "has_layer3_peer_router"), ("peer-gateway", "has_peer_gateway"),
          ("ip arp synchronize", "has_ip_arp_synchronize")]


def g_vpc(d):
    dom = d.int(1, 1000)
    s = Stanza("vpc domain %d" % dom, {"vpc_domain_id": str(dom), "vpc_system_mac": "", "has_auto_recovery": False})
    for cmd, fact, hi in VPC:
        s.facts[fact] = -1
        if d.chance(0.5):
            n = num(d, hi)
            s.add("%s %d" % (cmd, n), **{fact: n})
            if fact.endswith("delay"):
                s.facts["has_auto_recovery"] = True
    if not s.facts["has_auto_recovery"] and d.chance(0.5):
        s.add("auto-recovery", has_auto_recovery=True)
    for cmd, fact in VFLAGS:
        s.facts[fact] = False
        k = d.draw(3)
        if k == 1:
            s.add(cmd, **{fact: True})
        elif k == 2 and d.chance(0.5):
            s.add("no " + cmd)
    if d.chance(0.4):
        m = d.pick(["00:23:04:ee:be:01", "0023.04ee.be01"])
        s.add("system-mac " + m, vpc_system_mac=m)
    ka = {"destination": "", "hold-timeout": -1, "interval": -1, "timeout": -1, "precedence": "", "source": "", "tos": "", "tos-byte": -1, "udp-port": -1, "vrf": ""}
    if d.chance(0.7):
        ka["destination"] = v4(d)
        w = "peer-keepalive destination " + ka["destination"]
        for key, make in (("source", lambda: v4(d)), ("vrf", lambda: d.pick(["management", "VPC", "source"])), ("udp-port", lambda: d.int(1024, 65000)), ("interval", lambda: d.int(400, 10000)),
                          ("timeout", lambda: d.int(3, 20)), ("hold-timeout", lambda: d.int(3, 10))):
            if d.chance(0.5):
                ka[key] = make()
                w += " %s %s" % (key, ka[key])
        k = d.draw(4)
        if k == 1:
            ka["precedence"] = d.pick(["critical", "internet", "6"])
            w += " precedence " + ka["precedence"]
        elif k == 2:
            ka["tos"] = d.pick(["max-reliability", "0", "normal"])
            w += " tos " + ka["tos"]
        elif k == 3:
            ka["tos-byte"] = d.int(0, 255)
            w += " tos-byte %d" % ka["tos-byte"]
        s.add(w)
    for _ in range(d.pick([0, 1, 2])):
        s.add(d.pick(["delay restore 150", "graceful consistency-check", "! peer-switch", "dual-active exclude interface-vlan 5", "ipv6 nd synchronize", "fast-convergence"]))
    return {"lines": s.render(d, "  "), "facts": s.facts, "ka": ka, "n": len(s.blocks)}


def g_xr(d):
    def one():
        k = d.pick([0, 1, 2])
        n = lambda: d.pick([0, 1, d.int(0, 40)])  # noqa: E731
        if k == 0:
            f = {"prefix": d.pick(["Loopback", "Bundle-Ether", "BVI", "tunnel-te"]), "slot": None, "card": None, "processor": None, "port": d.int(0, 9999)}
        else:
            f = {"prefix": d.pick(["GigabitEthernet", "TenGigE", "MgmtEth", "Serial", "HundredGigE"]), "slot": str(n()), "card": str(n()), "processor": str(n()), "port": n()}
            if k == 2:
                f["card"] = d.pick(["RP0", "RSP1"])
                f["processor"] = d.pick(["CPU0", "CPU1"])
        f["subinterface"] = d.int(1, 4094) if d.chance(0.4) else None
        f["channel"] = d.int(0, 31) if d.chance(0.2) else None
        return f
    a = one()
    b = dict(a)
    k = d.pick(["port", "subinterface", "channel", "processor", "prefix", ""])
    if k == "prefix":
        b["prefix"] = "x" + b["prefix"]
    elif k and not (k == "processor" and b[k] is None):
        b[k] = str(int(b[k]) + 1) if k == "processor" and b[k].isdigit() else "CPU7" if k == "processor" else (b[k] or 0) + 1
    return {"a": a, "b": d.pick([b, b, one()])}


def c_xr(case):
    def text(f):
        n = "/".join([f["slot"], f["card"], f["processor"], str(f["port"])]) if f["slot"] is not None else str(f["port"])
        return f["prefix"] + n + (".%d" % f["subinterface"] if f["subinterface"] is not None else "") + (":%d" % f["channel"] if f["channel"] is not None else "")
    a, b = case["a"], case["b"]
    x, y = CiscoIOSXRInterface(text(a)), CiscoIOSXRInterface(text(b))
    what = "CiscoIOSXRInterface(%r): " % text(a)
    same([str(x), x.name, repr(x)], [text(a), text(a), "<CiscoIOSXRInterface %s>" % text(a)], what + "text")
    for k, v in a.items():
        same(getattr(x, k), v, what + k)
    same(x == y, a == b, what + "== %r" % text(b))
    z = CiscoIOSXRInterface(str(x))
    require(x == z and hash(x) == hash(z), "%snot equal to itself built from its name", what)
    if a == b:
        same(hash(x), hash(y), what + "hash")
    return a["subinterface"] is not None or a["channel"] is not None


def c_vpc(case):
    p = parse(["feature vpc"] + case["lines"] + ["interface Ethernet1/1"], factory=True, syntax="nxos")
    o = list(p.objs)[1]
    what = "%r: " % "\n".join(case["lines"])
    for k, v in case["facts"].items():
        same(getattr(o, k), v, what + k)
    same(o.vpc_peer_keepalive, case["ka"], what + "vpc_peer_keepalive")
    require(isinstance(repr(o), str), "%sprinting", what)
    return case["n"] >= 3


SUBS = [Sub("interface", g, c, weight=5), Sub("common", g_common, c_common, weight=2), Sub("vpc", g_vpc, c_vpc, weight=1),
        Sub("xr_name", g_xr, c_xr, rule="the name has a sub-interface or a channel", weight=1)]
