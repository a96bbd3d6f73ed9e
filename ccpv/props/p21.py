"""P21: IPv6 objects agree with the standard library."""
import ipaddress

from ..addr import *
from ..core import Reject, Sub, Violation, require, same
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, ip_factory

RULE = "host bits are set, or the spelling is not the canonical address/length"
ASSUME = ["classification flags are those of the network, as documented", "spellings are validated with the standard library"]


def g6(d):
    return {"v": g_addr(d, 128), "p": g_plen(d, 128), "s": g_spell(d), "q": g_plen(d, 128), "s2": g_spell(d)}


def facts(o, v, p, what):
    A = ipaddress.IPv6Address(v)
    net = v & mask(p, 128)
    N = ipaddress.IPv6Network((net, p))
    h = ["%04x" % x for x in hextets(v)]
    exp = {
        "ip": A, "ipv6": A, "ip_object": A, "_ip": v, "network": N, "network_object": N,
        "netmask": N.netmask, "hostmask": N.hostmask, "inverse_netmask": N.hostmask,
        "prefixlen": p, "prefixlength": p, "masklen": p, "masklength": p, "_prefixlen": p, "_max_prefixlen": 128,
        "version": 6, "_version": 6, "max_int": M6, "exploded": ":".join(h), "packed": v.to_bytes(16, "big"),
        "compressed": N.compressed, "network_offset": v - net,
        "numhosts": 1 if p == 128 else 2 if p == 127 else 2 ** (128 - p) - 2,
        "as_decimal": v, "as_decimal_network": net, "as_decimal_network_maxint": net | (M6 ^ mask(p, 128)),
        "as_hex": hex(v), "as_hex_tuple": tuple(h), "as_binary_tuple": tuple(format(int(x, 16), "016b") for x in h),
        "as_cidr_addr": "%s/%d" % (A, p), "as_cidr_net": str(N),
        "is_multicast": N.is_multicast, "is_private": N.is_private, "is_reserved": N.is_reserved,
        "is_link_local": N.is_link_local, "is_site_local": N.is_site_local, "is_unspecified": N.is_unspecified,
        "is_ipv4_mapped": (v >> 32) == 0xffff, "teredo": A.teredo, "sixtofour": A.sixtofour, "empty": False,
    }
    for k, w in exp.items():
        got = getattr(o, k)
        if got != w or type(got) is not type(w):
            raise Violation("%s.%s: got %r, expected %r" % (what, k, got, w))
    same(o.as_int() if callable(o.as_int) else o.as_int, v, what + ": as_int")
    same(int(o), v, what + ": int()")
    same(hex(o), hex(v), what + ": hex()")
    same(str(o), "<IPv6Obj %s/%d>" % ("::ffff:" + dotted(v & M4) if (v >> 32) == 0xffff else A, p), what + ": str()")
    if p >= 124:
        same([int(x) for x in o], list(range(net, (net | (M6 ^ mask(p, 128))) + 1)), what + ": iteration")


def c_facts(c):
    r = text6(c["v"], c["p"], c["s"])
    if r is None:
        raise Reject()
    t, p = r
    v = c["v"]
    what = "IPv6Obj(%r)" % (t,)
    o = IPv6Obj(t)
    facts(o, v, p, what)
    for o2, w2 in ((IPv6Obj(o.as_cidr_addr), "re-parsed"), (IPv6Obj(o), "copied"),
                   (IPv6Obj(str(o)[9:-1]), "re-parsed from its printed form"),
                   (IPv6Obj("%s/%d" % (o.exploded, p)), "re-parsed from its exploded form")):
        facts(o2, v, p, what + " " + w2)
        require(o2 == o and not (o2 != o) and hash(o2) == hash(o), "%s %s is not equal to the original", what, w2)
    r = text6(v, c["q"], c["s2"])
    if r:
        t2, p2 = r
        o3 = IPv6Obj(t2)
        same(o3 == o, p2 == p, "%s == IPv6Obj(%r)" % (what, t2))
        same(o3 != o, p2 != p, "%s != IPv6Obj(%r)" % (what, t2))
        if p2 == p:
            same(hash(o3), hash(o), "hash of %s and IPv6Obj(%r)" % (what, t2))
    facts(o, v, p, what + " afterwards")
    return (v & ~mask(p, 128)) != 0 or t != "%s/%d" % (ipaddress.IPv6Address(v), p)


def c_factory(c):
    s = dict(c["s"])
    if s["plen"] not in ("/len", "none"):
        s["plen"] = "/len"
    r = text6(c["v"], c["p"], s)
    if r is None:
        raise Reject()
    t, p = r
    v = c["v"]
    what = "ip_factory(%r)" % t
    o = ip_factory(t)
    require(isinstance(o, IPv6Obj), "%s is a %s", what, type(o).__name__)
    facts(o, v, p, what)
    o.prefixlen = (p + 7) % 129  # objects of the same text are independent
    facts(ip_factory(t), v, p, what + " after another such object was changed")
    facts(ip_factory(t, mode="ipv6"), v, p, what)
    x = ip_factory(t, stdlib=True)
    w = ipaddress.IPv6Address(v) if p == 128 else ipaddress.IPv6Network((v & mask(p, 128), p))
    require(type(x) is type(w) and x == w, "%s stdlib=True: got %r, expected %r", what, x, w)
    facts(ip_factory(v, mode="ipv6"), v, 128, "ip_factory(%r, mode='ipv6')" % v)
    try:
        r = ip_factory(t, mode="ipv4")
    except Exception:
        return p != 128
    raise Violation("%s as ipv4: got %r" % (what, r))


def c_strict(c):
    if c["s"]["plen"] == "int":
        raise Reject()
    r = text6(c["v"], c["p"], c["s"])
    if r is None:
        raise Reject()
    t, p = r
    host = c["v"] & ~mask(p, 128)
    try:
        o = IPv6Obj(t, strict=True)
    except Exception:
        require(host != 0, "IPv6Obj(%r, strict=True) is rejected although it has no host bits", t)
        return True
    require(host == 0, "IPv6Obj(%r, strict=True) is accepted although it has host bits", t)
    facts(o, c["v"], p, "IPv6Obj(%r, strict=True)" % t)
    o2 = IPv6Obj(t)
    require(o == o2 and o2 == o and not (o != o2) and hash(o) == hash(o2) and len({o, o2}) == 1,
            "IPv6Obj(%r) read strictly is not the same as read leniently", t)
    return p < 128


def g_cross(d):
    v = d.bigint(0, M4)
    return {"v": v, "p": d.draw(33)}


def c_cross(c):
    """IPv4 and IPv6 objects with the same numbers are different things."""
    a, b = IPv4Obj("%s/%d" % (dotted(c["v"]), c["p"])), IPv6Obj("::%x:%x/%d" % (c["v"] >> 16, c["v"] & 0xffff, c["p"]))
    require(not (a == b) and not (b == a) and a != b and b != a, "%r == %r", a, b)
    require(b not in a and a not in b, "%r and %r contain each other", a, b)
    return True


SUBS = [Sub("facts", g6, c_facts, RULE, 4),
        Sub("factory", g6, c_factory, "a network, not a single address", 1),
        Sub("strict", g6, c_strict, "a network, or rejected for its host bits", 1),
        Sub("cross", g_cross, c_cross, "always", 0.3)]
