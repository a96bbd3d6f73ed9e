"""P29: static routes."""
import ipaddress
from .. import env  # noqa: F401
from ..core import Sub, require, same
from ..ccp import parse
from ..stanza import v4, v6, mask

RULE = "the route command has at least two options"
ASSUME = ["options in the order of the vendor's documentation; interface names as a device prints them (IPv6 routes also with a blank before the numbers)",
          "NX-OS IPv6 routes: prefix, next hop, distance and tag only (the library declares the rest unfinished)"]
INTF = ["FastEthernet0/0", "GigabitEthernet0/0/1.100", "Serial1/0:3", "Tunnel0", "Null0", "Vlan10", "Port-channel1", "Dialer1", "name", "track1", "global0"]
INTF = INTF[:8]
NAMES = ["DEFAULT", "to-R2", "vrf", "track", "permanent", "10.1.1.1", "tag", "5", "global", "200", "Null0"]
VRFS = ["RED", "mgmtVrf", "vrf", "10.1", "65000:1", "default"]
NOISE = ["ip routing", "no ip route 10.9.0.0 255.255.0.0 10.9.9.9", "ip prefix-list X seq 5 permit 10.0.0.0/8", "ipv6 unicast-routing", "hostname ip route", "ip http server",
         "no ipv6 route 2001::/16 2002::9", "router ospf 1", " ip route 9.9.9.0 255.255.255.0 9.9.9.9 99"]


def ipv4net(d):
    n = d.pick([0, 32, 24, 16, 8, 25, 30, d.int(0, 32)])
    return v4(d), n


def opts(d, pairs, facts):
    out, n = [], 0
    for p, make in pairs:
        if d.chance(p):
            w, f = make()
            out += w
            facts.update(f)
            n += 1
    return out, n


def ios4(d):
    a, n = ipv4net(d)
    f = dict(address_family="ip", network=a, masklen=n, netmask=mask(n), vrf="", next_hop_interface="", next_hop_addr="", admin_distance=1, multicast=False,
             route_name="", permanent=False, tracking_object_name="", tag="", feature="ip route")
    w = ["ip", "route"]
    cnt = 0
    if d.chance(0.5):
        f["vrf"] = d.pick(VRFS)
        w += ["vrf", f["vrf"]]
        cnt += 1
    w += [a, mask(n)]
    k = d.draw(5)
    if k in (0, 2, 4):
        f["next_hop_interface"] = d.pick(INTF)
    if k in (1, 2):
        f["next_hop_addr"] = v4(d)
    w += [x for x in (f["next_hop_interface"], f["next_hop_addr"]) if x]
    dhcp = k in (3, 4) or (k == 0 and d.chance(0.1))
    if dhcp:
        w.append("dhcp")
    glob = d.chance(0.4) and not dhcp
    if glob:
        w.append("global")
    f["global_next_hop"] = glob if f["vrf"] else True
    o, m = opts(d, [(0.4, lambda: (lambda x: ([str(x)], {"admin_distance": x}))(d.pick([1, 254, 255, d.int(1, 255)]))),
                    (0.2, lambda: (["multicast"], {"multicast": True})),
                    (0.4, lambda: (lambda x: (["name", x], {"route_name": x}))(d.pick(NAMES)))], f)
    w += o
    k = d.draw(3)
    if k == 1:
        w.append("permanent")
        f["permanent"] = True
    elif k == 2:
        t = str(d.int(1, 1000))
        w += ["track", t]
        f["tracking_object_name"] = t
    if d.chance(0.4):
        f["tag"] = str(d.pick([1, 4294967295, d.int(1, 70000)]))
        w += ["tag", f["tag"]]
        m += 1
    return w, f, cnt + m + (k > 0)


def ios6(d, nxos=False):
    a, n = v6(d), d.pick([0, 128, 64, 48, 32, d.int(0, 128)])
    while "." in a:
        a = v6(d)
    if d.chance(0.2):
        a, n = "::", 0
    net = ipaddress.IPv6Network("%s/%d" % (a, n), strict=False)
    f = dict(address_family="ipv6", network=a, masklen=n, netmask=str(net.netmask), next_hop_interface="", next_hop_addr="", admin_distance=1, tag="", feature="ipv6 route")
    w = ["ipv6", "route"]
    cnt = 0
    if not nxos:
        f.update(vrf="", nexthop_vrf="", multicast=False, tracking_object_name="", route_name="")
        if d.chance(0.5):
            f["vrf"] = d.pick(VRFS)
            w += ["vrf", f["vrf"]]
            cnt += 1
    w.append("%s/%d" % (a, n))
    k = d.draw(3)
    if k in (0, 2):
        f["next_hop_interface"] = d.pick(INTF + ([] if nxos else ["Serial 1/0", "GigabitEthernet 0/0/1.100"]))
    if k in (1, 2):
        f["next_hop_addr"] = d.pick(["FE80::1", "fe80::a:b", "2001:db8::1", "2001:DB8:1:2:3:4:5:6", "2002::", "::1", "2001:db8:1::2:0"])
    w += [x for x in (f["next_hop_interface"], f["next_hop_addr"]) if x]
    pairs = [(0.4, lambda: (lambda x: ([str(x)], {"admin_distance": x}))(d.pick([1, 254, 255, d.int(1, 255)])))]
    if not nxos:
        pairs = [(0.2, lambda: (lambda x: (["nexthop-vrf", x], {"nexthop_vrf": x}))(d.pick(VRFS)))] + pairs + [(0.3, lambda: ([["unicast"], ["multicast"]][f.setdefault("_m", d.draw(2))], {"multicast": bool(f["_m"])}))]
    pairs.append((0.4, lambda: (lambda x: (["tag", x], {"tag": x}))(str(d.pick([1, 4294967295, d.int(1, 70000)])))))
    if not nxos:
        pairs += [(0.3, lambda: (lambda x: (["track", x], {"tracking_object_name": x}))(str(d.int(1, 1000)))),
                  (0.4, lambda: (lambda x: (["name", x], {"route_name": x}))(d.pick(NAMES)))]
    o, m = opts(d, pairs, f)
    f.pop("_m", None)
    return w + o, f, cnt + m


def nxos4(d):
    a, n = ipv4net(d)
    f = dict(address_family="ip", network=a, masklen=n, netmask=mask(n), next_hop_interface="", next_hop_addr="", admin_distance=1, route_name="", tracking_object_name="", tag="",
             feature="ip route")
    w = ["ip", "route", "%s/%d" % (a, n)]
    k = d.draw(3)
    if k in (0, 2):
        f["next_hop_interface"] = d.pick(["Ethernet1/1", "Vlan10", "mgmt0", "Null0", "port-channel10", "Ethernet101/1/1.5"])
    if k in (1, 2):
        f["next_hop_addr"] = v4(d)
    w += [x for x in (f["next_hop_interface"], f["next_hop_addr"]) if x]
    o, m = opts(d, [(0.4, lambda: (lambda x: (["track", x], {"tracking_object_name": x}))(str(d.int(1, 500)))),
                    (0.4, lambda: (lambda x: (["name", x], {"route_name": x}))(d.pick(NAMES))),
                    (0.4, lambda: (lambda x: (["tag", x], {"tag": x}))(str(d.pick([1, 4294967295, d.int(1, 70000)])))),
                    (0.4, lambda: (lambda x: ([str(x)], {"admin_distance": x}))(d.pick([1, 254, 255, d.int(1, 255)])))], f)
    return w + o, f, m


def g(d):
    syntax = d.pick(["ios", "ios", "nxos"])
    routes = []
    for _ in range(d.pick([1, 1, 1, 2, 3])):
        w, f, n = d.pick([ios4, ios4, ios6] if syntax == "ios" else [nxos4, nxos4, lambda x: ios6(x, True)])(d)
        routes.append([" ".join(w), f, n])
    noise = d.list(lambda: d.pick(NOISE), 0, 3, 1)
    lines = d.shuffle([[r[0], i] for i, r in enumerate(routes)] + [[x, -1] for x in noise])
    return {"syntax": syntax, "routes": routes, "lines": lines}


def c(case):
    p = parse([x for x, _ in case["lines"]], syntax=case["syntax"], factory=True)
    objs = list(p.objs)
    for o, (text, i) in zip(objs, case["lines"]):
        if i < 0:
            continue
        f = case["routes"][i][1]
        what = "%s route %r: " % (case["syntax"], text)
        same(type(o).__name__, "IOSRouteLine" if case["syntax"] == "ios" else "NXOSRouteLine", what + "type of the line")
        for k, v in f.items():
            if k in ("admin_distance", "masklen"):
                same(int(getattr(o, k)), v, what + k)
            elif k == "tracking_object_name":
                same(getattr(o, k) or "", v, what + k)
            else:
                same(getattr(o, k), v, what + k)
        same(o.nexthop_str.strip(), (f["next_hop_interface"] + " " + f["next_hop_addr"]).strip(), what + "nexthop_str")
        net = ipaddress.ip_network("%s/%d" % (f["network"], f["masklen"]), strict=False)
        n = o.network_object
        same([str(n.network), n.masklen, str(n.ip)], [str(net), f["masklen"], str(ipaddress.ip_address(f["network"]))], what + "network_object")
        require(text not in ("",) and isinstance(repr(o), str) and isinstance(str(o), str), "%sprinting", what)
    return max(r[2] for r in case["routes"]) > 1


SUBS = [Sub("routes", g, c)]
