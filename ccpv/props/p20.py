"""P20: IPv4 objects agree with the standard library."""
import ipaddress

from ..addr import *
from ..core import Reject, Sub, Violation, require, same
from ciscoconfparse.ccp_util import IPv4Obj, ip_factory

RULE = "host bits are set, or the notation is not plain address/length"
ASSUME = ["classification flags are those of the network, as documented"]


def g4(d):
    return {"v": g_addr(d, 32), "p": g_plen(d, 32), "form": d.pick(FORMS4), "q": g_plen(d, 32), "form2": d.pick(FORMS4)}


def facts(o, v, p, what):
    """Everything o reports, for address v/p."""
    A = ipaddress.IPv4Address(v)
    N = ipaddress.IPv4Network((v & mask(p), p))
    net, last = v & mask(p), (v & mask(p)) | (M4 ^ mask(p))
    b = [(v >> s) & 255 for s in (24, 16, 8, 0)]
    nb = [(net >> s) & 255 for s in (24, 16, 8, 0)]
    exp = {
        "ip": A, "ipv4": A, "ip_object": A, "_ip": v, "network": N, "network_object": N,
        "netmask": N.netmask, "hostmask": N.hostmask, "inverse_netmask": N.hostmask, "broadcast": N.broadcast_address,
        "prefixlen": p, "prefixlength": p, "masklen": p, "masklength": p, "_prefixlen": p, "_max_prefixlen": 32,
        "version": 4, "_version": 4, "max_int": M4, "exploded": dotted(v), "packed": bytes(b), "network_offset": v - net,
        "numhosts": 1 if p == 32 else 2 if p == 31 else 2 ** (32 - p) - 2,
        "as_decimal": v, "as_int": v, "as_decimal_network": net, "as_decimal_broadcast": last,
        "as_zeropadded": "%03d.%03d.%03d.%03d" % tuple(b), "as_zeropadded_network": "%03d.%03d.%03d.%03d/%d" % (*nb, p),
        "as_hex": hex(v), "as_hex_tuple": tuple("%02x" % x for x in b), "as_binary_tuple": tuple(format(x, "08b") for x in b),
        "as_cidr_addr": "%s/%d" % (dotted(v), p), "as_cidr_net": "%s/%d" % (dotted(net), p),
        "is_multicast": N.is_multicast, "is_private": N.is_private, "is_reserved": N.is_reserved, "empty": False,
    }
    for k, w in exp.items():
        got = getattr(o, k)
        if got != w or type(got) is not type(w):
            raise Violation("%s.%s: got %r, expected %r" % (what, k, got, w))
    same(int(o), v, what + ": int()")
    same(hex(o), hex(v), what + ": hex()")
    same(str(o), "<IPv4Obj %s/%d>" % (dotted(v), p), what + ": str()")
    if p >= 27:
        same([int(x) for x in o], list(range(net, last + 1)), what + ": iteration")


def c_facts(c):
    t, p = text4(c["v"], c["p"], c["form"])
    v = c["v"]
    what = "IPv4Obj(%r)" % (t,)
    o = IPv4Obj(t)
    facts(o, v, p, what)
    # round trips and equality
    for o2, w2 in ((IPv4Obj(o.as_cidr_addr), "re-parsed"), (IPv4Obj(o), "copied")):
        if w2 == "copied":
            same(o2.as_decimal, v, what + ": copied address")
        facts(o2, v, p, what + " " + w2)
        require(o2 == o and not (o2 != o) and hash(o2) == hash(o), "%s %s is not equal to the original", what, w2)
    t2, p2 = text4(v, c["q"], c["form2"])
    o3 = IPv4Obj(t2)
    same(o3 == o, p2 == p, "%s == IPv4Obj(%r)" % (what, t2))
    same(o3 != o, p2 != p, "%s != IPv4Obj(%r)" % (what, t2))
    if p2 == p:
        same(hash(o3), hash(o), "hash of %s and IPv4Obj(%r)" % (what, t2))
    # the original is not changed by being copied or compared
    facts(o, v, p, what + " afterwards")
    return (v & ~mask(p)) != 0 or c["form"] not in ("/len",)


def c_factory(c):
    v = c["v"]
    p = c["p"]
    form = c["form"]
    if form not in ("/len", "/mask", "/host", "none"):
        form = "/len"
    t, p = text4(v, p, form)
    what = "ip_factory(%r)" % t
    o = ip_factory(t)
    require(isinstance(o, IPv4Obj), "%s is a %s", what, type(o).__name__)
    facts(o, v, p, what)
    o.prefixlen = (p + 7) % 33  # objects of the same text are independent
    facts(ip_factory(t), v, p, what + " after another such object was changed")
    facts(ip_factory(t, mode="ipv4"), v, p, what)
    s = ip_factory(t, stdlib=True)
    w = ipaddress.IPv4Address(v) if p == 32 else ipaddress.IPv4Network((v & mask(p), p))
    require(type(s) is type(w) and s == w, "%s stdlib=True: got %r, expected %r", what, s, w)
    facts(ip_factory(v, mode="ipv4"), v, 32, "ip_factory(%r, mode='ipv4')" % v)
    try:
        r = ip_factory(t, mode="ipv6")
    except Exception:
        return p != 32
    raise Violation("%s as ipv6: got %r" % (what, r))


def c_strict(c):
    t, p = text4(c["v"], c["p"], c["form"])
    if form_int(c["form"]):
        raise Reject()
    host = c["v"] & ~mask(p)
    try:
        o = IPv4Obj(t, strict=True)
    except Exception:
        require(host != 0, "IPv4Obj(%r, strict=True) is rejected although it has no host bits", t)
        return True
    require(host == 0, "IPv4Obj(%r, strict=True) is accepted although it has host bits", t)
    facts(o, c["v"], p, "IPv4Obj(%r, strict=True)" % t)
    o2 = IPv4Obj(t)
    require(o == o2 and o2 == o and not (o != o2) and hash(o) == hash(o2) and len({o, o2}) == 1,
            "IPv4Obj(%r) read strictly is not the same as read leniently", t)
    return p < 32


def form_int(f):
    return f == "int"


SUBS = [Sub("facts", g4, c_facts, RULE, 4),
        Sub("factory", g4, c_factory, "a network, not a single address", 1),
        Sub("strict", g4, c_strict, "a network, or rejected for its host bits", 1)]
