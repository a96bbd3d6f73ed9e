"""P28: facts of IOS interfaces."""
import ipaddress
from .. import env  # noqa: F401
from ..core import Sub, require, same
from ..ccp import parse
from ..stanza import Stanza, decoy, description, v4, v6, mask
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj

RULE = "the interface under test has at least three commands which set a fact"
ASSUME = ["each single-valued command occurs at most once in a stanza, its commands are not nested in a sub-mode of the interface"]

PTYPES = ["GigabitEthernet", "FastEthernet", "TenGigabitEthernet", "Ethernet", "TwentyFiveGigE", "Serial", "ATM", "POS", "Loopback", "Vlan", "Tunnel",
          "Port-channel", "Dialer", "Virtual-Template", "BVI", "Dot11Radio", "Multilink", "NVI", "Async", "Cellular"]
NOISE = ["ip ospf cost 3", "load-interval 30", "mpls label protocol ldp", "ip flow ingress", "ipv6 enable", "ipv6 mtu 1400", "mpls bgp forwarding",
         "ip tcp adjust-mss 1360", "tunnel source Loopback0", "service-policy output X", "bandwidth receive 100", "ip pim query-interval 1",
         "speed nonegotiate", "no lldp transmit", "ip arp inspection limit rate 5", "ip vrf sitemap FOO", "ipv6 traffic-filter X in", "no shutdown",
         "no mtu", "no bandwidth 100", "no mpls ip", "no ip access-group 101 in", "no ip helper-address 10.66.66.66", "! mtu 1111", "! shutdown",
         "! ip address 10.77.77.77 255.0.0.0", "ip ospf message-digest-key 1 md5 shutdown", "no delay 10", "no vrf forwarding OLD", "no ip mtu 900",
         "ip policy route-map mtu", "snmp trap link-status", "no ip route-cache", "ip nat inside", "cdp tlv app", "no description old",
         "no encapsulation ppp", "no ip address 10.55.55.55 255.0.0.0 secondary", "mpls traffic-eng tunnels", "keepalive 5", "no arp timeout 5",
         "no clock rate 64000", "no channel-group 9 mode on", "no xconnect 1.1.1.1 9 encapsulation mpls", "mac-address 0000.1111.2222",
         "tunnel key 5", "ip hello-interval eigrp 1 5", "crypto map shutdown", "no speed 10", "no duplex half", "spanning-tree portfast"]
DEFAULTS = dict(
    description="", manual_bandwidth=0, manual_delay=0, manual_holdqueue_in=0, manual_holdqueue_out=0, manual_encapsulation="", has_mpls=False,
    manual_speed=0, has_manual_speed=False, manual_duplex="", has_manual_duplex=False, manual_carrierdelay=0.0, has_manual_carrierdelay=False,
    manual_clock_rate=0, has_manual_clock_rate=False, manual_mtu=0, has_manual_mtu=False, manual_mpls_mtu=0, has_manual_mpls_mtu=False,
    manual_ip_mtu=0, has_manual_ip_mtu=False, is_shutdown=False, vrf="", has_vrf=False, manual_arp_timeout=None, is_switchport=False,
    has_manual_switch_access=False, has_manual_switch_trunk=False, has_manual_switch_trunk_encap=False, manual_switch_trunk_encap="",
    has_switch_portsecurity=False, has_switch_stormcontrol=False, has_manual_disable_cdp=False, has_xconnect=False, xconnect_vc=0,
    mac_accessgroup_in="", mac_accessgroup_out="", ip_accessgroup_in="", ip_accessgroup_out="", intf_in_portchannel=False, portchannel_number=-1)


def g_name(d):
    """(text after 'interface', expected name facts)"""
    pt = d.pick(PTYPES)
    sp = d.pick(["", "", "", " "])
    nums = d.list(lambda: d.pick([0, 1, 2, d.int(0, 130)]), 1, 3, 2)
    sub = d.int(1, 4094) if d.chance(0.3) else None
    chan = d.int(0, 30) if pt in ("Serial",) and d.chance(0.4) else None
    klass = None
    if pt in ("Serial", "ATM") and sub is not None and d.chance(0.6):
        klass = d.pick(["point-to-point", "multipoint"])
    num = "/".join(map(str, nums))
    # 'Serial1/0:15', 'Serial1/0:15.100' is not written by this parser's components, so either one
    if chan is not None:
        sub, klass = None, None
    text = pt + sp + num + (".%d" % sub if sub is not None else "") + (":%d" % chan if chan is not None else "") + (" " + klass if klass else "")
    slot, card, port = ([-1] * 2 if len(nums) == 1 else (nums[:-1] + [-1])[:2]) + nums[-1:]
    low = pt.lower()
    return text, dict(
        name=text, port=nums[-1], port_type=pt, ordinal_list=(slot, card, port, -1 if sub is None else sub, -1 if chan is None else chan, -1),
        interface_number=num + (":%d" % chan if chan is not None else ""),
        subinterface_number=num + (".%d" % sub if sub is not None else "") + (":%d" % chan if chan is not None else ""),
        is_intf=True, is_subintf=sub is not None, is_loopback_intf=low == "loopback",
        is_virtual_intf=low in ("loopback", "vlan", "tunnel", "dialer", "virtual-template", "port-channel"),
        is_ethernet_intf="ethernet" in low, is_portchannel_intf=low == "port-channel")


def stanza(d):
    text, nf = g_name(d)
    s = Stanza("interface " + text, DEFAULTS)
    s.facts.update(nf)
    r = lambda lo, hi: d.pick([lo, hi, d.int(lo, hi)])
    p = d.pick([0.1, 0.3, 0.6])
    yes = lambda: d.chance(p)
    if yes():
        x = description(d)
        s.add("description " + x, description=x)
    for fact, cmd, lo, hi in (("manual_bandwidth", "bandwidth %d", 1, 10**7), ("manual_delay", "delay %d", 1, 10**6),
                              ("manual_holdqueue_in", "hold-queue %d in", 1, 4096), ("manual_holdqueue_out", "hold-queue %d out", 1, 4096)):
        if yes():
            v = r(lo, hi)
            s.add(cmd % v, **{fact: v})
    for fact, cmd, lo, hi in (("clock_rate", "clock rate %d", 1200, 8 * 10**6), ("mtu", "mtu %d", 64, 17940),
                              ("mpls_mtu", "mpls mtu %d", 64, 9216), ("ip_mtu", "ip mtu %d", 68, 9216)):
        if yes():
            v = r(lo, hi)
            s.add(cmd % v, **{"manual_" + fact: v, "has_manual_" + fact: True})
    if yes():
        v = d.pick(["auto", 10, 100, 1000, 10000])
        s.add("speed %s" % v, **({} if v == "auto" else dict(manual_speed=v, has_manual_speed=True)))
    if yes():
        v = d.pick(["auto", "full", "half"])
        s.add("duplex " + v, manual_duplex=v, has_manual_duplex=True)
    eth = s.facts["is_ethernet_intf"]
    s.facts["has_autonegotiation"] = eth and not s.facts["has_manual_speed"] and s.facts["manual_duplex"] in ("", "auto")
    if yes():
        v = r(1, 60)
        if d.chance(0.5):
            s.add("carrier-delay %d" % v, manual_carrierdelay=float(v), has_manual_carrierdelay=True)
        else:
            v = r(1, 1000)
            s.add("carrier-delay msec %d" % v, manual_carrierdelay=v / 1000.0, has_manual_carrierdelay=True)
    if yes():
        e, a = d.pick([("dot1Q", " %d" % r(1, 4094)), ("ppp", ""), ("hdlc", ""), ("frame-relay", " ietf"), ("dot1q", " 7 native"), ("isl", " 3")])
        s.add("encapsulation " + e + a, manual_encapsulation=e)
    if yes():
        s.add("mpls ip", has_mpls=True)
    if yes():
        s.add("shutdown", is_shutdown=True)
    if yes():
        v = d.pick(["RED", "cust-1", "Mgmt-intf", "10"])
        s.add(d.pick(["vrf forwarding ", "ip vrf forwarding "]) + v, vrf=v, has_vrf=True)
    # IPv4
    kind = d.pick(["none", "static", "static", "static", "dhcp", "negotiated", "no", "unnumbered"])
    f = dict(ipv4=None, secondary=[])
    if kind == "static":
        a, n = v4(d), d.pick([24, 30, 32, 31, 8, d.int(1, 32)])
        s.add("ip address %s %s" % (a, mask(n)))
        f["ipv4"] = [a, n]
        for _ in range(d.pick([0, 0, 1, 2, 3])):
            a2, n2 = v4(d), d.pick([24, d.int(1, 32)])
            s.add("ip address %s %s secondary" % (a2, mask(n2)))
            f["secondary"].append([a2, n2])
    elif kind == "no":
        s.add("no ip address")
    elif kind == "unnumbered":
        s.add("ip unnumbered Loopback0")
    elif kind != "none":
        s.add("ip address " + kind)
    has4 = f["ipv4"] is not None
    for fact, cmd in (("has_no_icmp_unreachables", "no ip unreachables"), ("has_no_icmp_redirects", "no ip redirects"),
                      ("has_no_ip_proxyarp", "no ip proxy-arp")):
        on = yes()
        if on:
            s.add(cmd)
        elif d.chance(0.1):
            s.add(cmd[3:])
        s.facts[fact] = has4 and on
    pim = d.pick([None, None, "dense-mode", "sparse-mode", "sparse-dense-mode"])
    if pim:
        s.add("ip pim " + pim)
    for fact, v in (("has_ip_pim_dense_mode", "dense-mode"), ("has_ip_pim_sparse_mode", "sparse-mode"), ("has_ip_pim_sparsedense_mode", "sparse-dense-mode")):
        s.facts[fact] = has4 and pim == v
    arp = r(0, 2147483) if yes() else None
    if arp is not None:
        s.add("arp timeout %d" % arp)
    s.facts["manual_arp_timeout"] = -1 if not has4 else (arp or 0)
    helpers = []
    if yes():
        block = []
        for _ in range(d.int(1, 3)):
            k, a = d.pick(["", "", "vrf", "global"]), v4(d)
            vrf = d.pick(["RED", "a1", "global"]) if k == "vrf" else ""
            block.append("ip helper-address %s%s" % ({"": "", "vrf": "vrf %s " % vrf, "global": "global "}[k], a))
            helpers.append({"addr": a, "vrf": vrf, "global": k == "global"})
        s.add(block)
    s.facts["ip_helper_addresses"] = helpers
    s.facts["has_ip_helper_addresses"] = bool(helpers)
    # IPv6
    f["ipv6"] = None
    k6 = d.pick(["none", "none", "static", "static", "dhcp", "autoconfig", "ll"])
    if k6 in ("static", "ll"):
        block = ["ipv6 address FE80::%x link-local" % d.int(1, 9)] if k6 == "ll" else []
        if k6 == "static" or d.chance(0.5):
            a, n = v6(d), d.pick([64, 128, 127, d.int(1, 128)])
            block.append("ipv6 address %s/%d%s" % (a, n, d.pick(["", "", " eui-64", " anycast"])))
            f["ipv6"] = [a, n]
            if d.chance(0.3):
                block.append("ipv6 address %s/%d" % (v6(d), d.int(1, 128)))
        s.add(block)
    elif k6 != "none":
        s.add("ipv6 address " + k6)
    # switching
    if d.chance(0.4):
        sw = s.facts
        mode = d.pick(["", "access", "trunk", "dynamic auto"])
        if mode:
            s.add("switchport mode " + mode, has_manual_switch_access=mode == "access", has_manual_switch_trunk=mode == "trunk")
        if mode == "" or d.chance(0.3):
            s.add("switchport")
        sw["is_switchport"] = True
        if yes():
            e = d.pick(["dot1q", "isl", "negotiate"])
            s.add("switchport trunk encapsulation " + e, has_manual_switch_trunk_encap=True, manual_switch_trunk_encap=e)
        if yes():
            s.add(d.pick(["switchport port-security", "switchport port-security maximum 3"]), has_switch_portsecurity=True)
        if yes():
            s.add("switchport nonegotiate")
            sw["has_dtp"] = False
        else:
            sw["has_dtp"] = True
        if yes():
            s.add("switchport voice vlan %d" % r(1, 4094))
        sc = yes()
        sw["has_switch_stormcontrol"] = sc
    else:
        if d.chance(0.3):
            s.add("no switchport")
        s.facts["has_dtp"] = False
        sc = d.chance(0.1)
    if sc:
        s.add("storm-control broadcast level 5.00")
    if yes():
        s.add("no cdp enable", has_manual_disable_cdp=True)
    elif yes():
        s.add("cdp enable")
    if yes():
        vc = r(1, 4294967295)
        s.add("xconnect %s %d %s" % (v4(d), vc, d.pick(["encapsulation mpls", "pw-class X", "encapsulation l2tpv3 manual"])), has_xconnect=True, xconnect_vc=vc)
    for way in ("in", "out"):
        if yes():
            v = d.pick(["101", "2101", "ACL-in", "out", "FOO"])
            s.add("ip access-group %s %s" % (v, way), **{"ip_accessgroup_" + way: v})
        if d.chance(0.15):
            v = d.pick(["701", "MAC-IN", "in", "m"])
            s.add("mac access-group %s %s" % (v, way), **{"mac_accessgroup_" + way: v})
    if yes():
        v = r(1, 512)
        s.add("channel-group %d mode %s" % (v, d.pick(["on", "active", "desirable"])), intf_in_portchannel=True, portchannel_number=v)
    nset = len(s.blocks)
    for _ in range(d.pick([0, 0, 1, 2, 4])):
        s.add(decoy(d) if d.chance(0.4) else d.pick(NOISE))
    out = {"lines": s.render(d), "facts": s.facts, "n": nset}
    out.update(f)
    return out


def g(d):
    st = [stanza(d) for _ in range(d.pick([1, 1, 2, 3]))]
    i = d.draw(len(st))
    pre = d.pick([[], ["hostname R1"], ["ip route 0.0.0.0 0.0.0.0 10.1.1.1", "!"]])
    sep = d.pick([[], ["!"], ["!", "router ospf 1", " network 10.0.0.0 0.255.255.255 area 0", "!"]])
    a = st[i]
    net = None
    if a["ipv4"]:
        net = ipaddress.ip_network("%s/%d" % (a["ipv4"][0], max(0, min(32, a["ipv4"][1] + d.int(-3, 3)))), strict=False).with_prefixlen
    nets = [x for x in [net] if x] + ["%s/%d" % (ipaddress.ip_network("%s/%d" % (v4(d), n), strict=False).network_address, n) for n in d.list(lambda: d.int(4, 30), 0, 2, 1)]
    return {"pre": pre, "sep": sep, "stanzas": st, "i": i, "nets": d.shuffle(nets)}


def c(case):
    lines = list(case["pre"])
    pos = []
    for s in case["stanzas"]:
        pos.append(len(lines))
        lines += s["lines"] + case["sep"]
    p = parse(lines, factory=True, syntax="ios")
    a = case["stanzas"][case["i"]]
    o = list(p.objs)[pos[case["i"]]]
    what = "%r: " % "\n".join(a["lines"])
    for k, v in a["facts"].items():
        got = getattr(o, k)
        v = tuple(v) if k == "ordinal_list" else v
        require(type(got) is type(v), "%s%s is %r, expected %r", what, k, got, v)
        same(got, v, what + k)
    # derived forms
    f = a["facts"]
    for way in ("in", "out"):
        same(getattr(o, "ipv4_accessgroup_" + way), f["ip_accessgroup_" + way], what + "ipv4_accessgroup_" + way)
        same([getattr(o, "has_ip_accessgroup_" + way), getattr(o, "has_ipv4_accessgroup_" + way)], [bool(f["ip_accessgroup_" + way])] * 2, what + "has_ip_accessgroup")
        same(getattr(o, "has_mac_accessgroup_" + way), f["is_switchport"] and bool(f["mac_accessgroup_" + way]), what + "has_mac_accessgroup_" + way)
    # IPv4
    if a["ipv4"]:
        addr, n = a["ipv4"]
        same([o.ipv4_addr, o.ip_addr, o.ipv4_netmask, o.ipv4_masklength, o.has_no_ipv4], [addr, addr, mask(n), n, False], what + "IPv4 address, mask and length")
        want = IPv4Obj("%s/%d" % (addr, n))
        for k in ("ipv4_addr_object", "ip", "ipv4"):
            same(getattr(o, k), want, what + k)
            getattr(o, k).prefixlen = 32 - n  # the object belongs to the caller
            same([getattr(o, k).prefixlen, o.ipv4_masklength], [n, n], what + k + " after the caller changed the object")
        net = str(ipaddress.ip_network("%s/%d" % (addr, n), strict=False))
        for k in ("ip_network_object", "ipv4_network_object"):
            same(str(getattr(o, k).as_cidr_net), net, what + k)
    else:
        same([o.ipv4_addr, o.ip_addr, o.ipv4_netmask, o.ipv4_masklength, o.has_no_ipv4], ["", "", "", 0, True], what + "IPv4 address without one")
        for k in ("ipv4_addr_object", "ip", "ipv4", "ip_network_object"):
            require(getattr(o, k).empty, "%s%s is %r without an address", what, k, getattr(o, k))
    same(o.has_ip_secondary, bool(a["secondary"]), what + "has_ip_secondary")
    same(o.ip_secondary_addresses, {x for x, _ in a["secondary"]}, what + "ip_secondary_addresses")
    same(o.ip_secondary_networks, {"%s/%d" % (x, n) for x, n in a["secondary"]}, what + "ip_secondary_networks")
    # IPv6
    if a["ipv6"]:
        addr, n = a["ipv6"]
        same([o.ipv6_addr, o.ipv6_masklength], [addr, n], what + "IPv6 address and length")
        same(o.ipv6_addr_object, IPv6Obj("%s/%d" % (addr, n)), what + "ipv6_addr_object")
    else:
        same([o.ipv6_addr, o.ipv6_masklength], ["", 0], what + "IPv6 address without one")
        require(o.ipv6_addr_object.empty, "%sipv6_addr_object is %r without an address", what, o.ipv6_addr_object)
    # subnets
    hit = []
    for n in case["nets"]:
        want = False
        if a["ipv4"]:
            me, other = ipaddress.ip_network("%s/%d" % tuple(a["ipv4"]), strict=False), ipaddress.ip_network(n)
            want = me.subnet_of(other)
        hit.append(want)
        same(o.in_ipv4_subnet(IPv4Obj(n)), want, what + "in_ipv4_subnet(%s)" % n)
    same(o.in_ipv4_subnets([IPv4Obj(n) for n in case["nets"]]), any(hit), what + "in_ipv4_subnets(%s)" % case["nets"])
    # abbreviations
    pt, num = f["port_type"].lower(), f["subinterface_number"]
    for i in range(1, len(pt) + 1):
        for sp in ("", " "):
            require(o.is_abbreviated_as(pt[:i].title() + sp + num), "%snot abbreviated as %r", what, pt[:i] + sp + num)
    for x in (pt + num + "9", "x" + pt + num, pt[:1] + "9" + num, num):
        require(not o.is_abbreviated_as(x), "%sabbreviated as %r", what, x)
    return a["n"] >= 3


def g_misc(d):
    k = d.pick(["host", "line", "global"])
    if k == "host":
        h = d.pick(["R1", "core-sw.example", "x_1", "hostname"])
        return {"k": k, "line": "hostname" + d.pick([" ", "  "]) + h, "want": h}
    if k == "line":
        t = d.pick(["con", "vty", "aux", "tty", ""])
        a = d.int(0, 10)
        b = a + d.int(0, 90) if d.chance(0.5) else None
        kids, et = [], None
        if d.chance(0.6):
            et = [d.int(0, 35791)] + ([d.int(0, 2147483)] if d.chance(0.6) else [])
            kids.append("exec-timeout " + " ".join(map(str, et)))
        for _ in range(d.pick([0, 1, 2])):
            kids.append(d.pick(["password 7 0822455D0A16", "transport input ssh", "no exec-timeout", "session-timeout 5", "login", "! exec-timeout 3 3"]))
        return {"k": k, "line": "line " + (t + " " if t else "") + str(a) + (" %d" % b if b is not None else ""), "name": t,
                "range": [a] if b is None else [a, b], "kids": d.shuffle(kids), "et": et}
    opts = [("no cdp run", "has_cdp_disabled"), ("logging event link-status global", "has_intf_logging_def"), ("spanning-tree portfast default", "has_stp_portfast_def"),
            ("spanning-tree portfast bpduguard default", "has_stp_portfast_bpduguard_def")]
    line, fact = d.pick(opts)
    return {"k": k, "line": line, "facts": {f: f == fact for _, f in opts}}


def c_misc(case):
    k = case["k"]
    p = parse([case["line"]] + [" " + x for x in case.get("kids", [])] + ["!"], factory=True)
    o = list(p.objs)[0]
    if k == "host":
        same(o.hostname, case["want"], "host name of %r" % case["line"])
    elif k == "line":
        same([o.is_accessline, o.name, list(o.line_range), o.range_str], [True, case["name"], case["range"], " ".join(map(str, case["range"]))], "facts of %r" % case["line"])
        same(list(o.line_range), case["range"], "line range of %r, asked twice" % case["line"])
        et = case["et"]
        same(list(o.parse_exectimeout), et or [], "exec-timeout of %r" % case)
        if et:
            same(o.manual_exectimeout_minutes(), et[0], "exec-timeout minutes of %r" % case)
            same(o.manual_exectimeout_seconds(), et[1] if len(et) > 1 else 0, "exec-timeout seconds of %r" % case)
    else:
        for f, v in case["facts"].items():
            same(getattr(o, f), v, "%s of %r" % (f, case["line"]))
    return True


SUBS = [Sub("interface", g, c, weight=6), Sub("misc", g_misc, c_misc)]
