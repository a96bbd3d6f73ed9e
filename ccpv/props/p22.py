"""P22: ordering, containment, collapsing and longest match of addresses."""
from functools import reduce

from ..addr import *
from ..core import Reject, Sub, Violation, require, same
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, collapse_addresses

RULE = "two related networks (one contains the other, or they share the network address)"
ASSUME = ["objects of one family are compared"]


def mk(bits, v, p):
    if bits == 32:
        return IPv4Obj("%s/%d" % (dotted(v), p))
    return IPv6Obj("%s/%d" % (ipaddress.IPv6Address(v), p))


import ipaddress  # noqa: E402


def g_near(d, bits, base):
    """An address/length close to, inside, around or equal to base."""
    v, p = base
    full = (1 << bits) - 1
    k = d.draw(10)
    q = d.pick([p, p, max(0, p - 1), min(bits, p + 1), bits, 0, d.draw(bits + 1)])
    net, last = v & mask(p, bits), v | (full ^ mask(p, bits))
    if k < 2:
        w = v
    elif k < 3:
        w = net
    elif k < 4:
        w = last
    elif k < 5:
        w = min(full, last + 1)
    elif k < 6:
        w = max(0, net - 1)
    elif k < 8:
        w = net + d.draw(min(last - net, 1 << 40) + 1)
    else:
        w = g_addr(d, bits)
    return [w, q]


def g_set(d, lo=2, hi=8, avg=4):
    bits = d.pick([32, 128])
    first = [g_addr(d, bits), g_plen(d, bits)]
    out = [first]
    out += d.list(lambda: g_near(d, bits, d.pick(out)), lo - 1, hi - 1, avg)
    return {"bits": bits, "s": out}


def key(bits, e):
    v, p = e
    return (v & mask(p, bits), p, v)


def rng_(bits, e):
    v, p = e
    n = v & mask(p, bits)
    return n, n | (((1 << bits) - 1) ^ mask(p, bits))


def c_order(c):
    bits = c["bits"]
    o = [mk(bits, v, p) for v, p in c["s"]]
    rel = False
    for i, x in enumerate(o):
        for j, y in enumerate(o):
            a, b = key(bits, c["s"][i]), key(bits, c["s"][j])
            what = "%r and %r" % (x, y)
            same(x < y, a < b, what + ": <")
            same(x > y, a > b, what + ": >")
            same(x == y, a == b, what + ": ==")
            same(x != y, a != b, what + ": !=")
            (al, ah), (bl, bh) = rng_(bits, c["s"][i]), rng_(bits, c["s"][j])
            same(y in x, al <= bl and bh <= ah, what + ": second in first")
            if i != j and (al <= bl <= ah or bl <= al <= bh):
                rel = True
    want = sorted(range(len(o)), key=lambda i: key(bits, c["s"][i]))
    got = sorted(range(len(o)), key=lambda i: o[i])
    same([key(bits, c["s"][i]) for i in got], [key(bits, c["s"][i]) for i in want], "sorted(%r)" % o)
    same([key(bits, c["s"][o.index(x)]) for x in sorted(o, reverse=True)],
         sorted((key(bits, e) for e in c["s"]), reverse=True), "sorted(%r, reverse=True)" % o)
    same([str(x) for x in o], [str(mk(bits, v, p)) for v, p in c["s"]], "objects after being compared")
    same(len(set(o)), len({key(bits, e) for e in c["s"]}), "size of the set of %r" % o)
    return rel


def c_longest(c):
    """As documented: the first containing network in descending order is the longest match."""
    bits = c["bits"]
    addr = c["s"][0]
    routes = c["s"][1:]
    a = mk(bits, addr[0], bits)
    tab = sorted([mk(bits, v, p) for v, p in routes], reverse=True)
    got = next((r for r in tab if a in r), None)
    best = [p for v, p in routes if (v & mask(p, bits)) == (addr[0] & mask(p, bits))]
    same(None if got is None else got.prefixlen, max(best) if best else None, "longest match of %r in %r" % (a, tab))
    return len(best) > 1


def c_collapse(c):
    bits = c["bits"]
    o = [mk(bits, v, p) for v, p in c["s"]]
    if len(c["s"]) % 2:
        arg = [x.network for x in o]
    else:
        arg = list(o)
    got = list(collapse_addresses(arg))
    # merged address ranges
    merged = []
    for lo, hi in sorted(rng_(bits, e) for e in c["s"]):
        if merged and lo <= merged[-1][1] + 1:
            merged[-1][1] = max(merged[-1][1], hi)
        else:
            merged.append([lo, hi])
    want = []
    for lo, hi in merged:
        while lo <= hi:
            size = lo & -lo if lo else 1 << bits
            while size > hi - lo + 1:
                size >>= 1
            want.append((lo, bits - size.bit_length() + 1))
            lo += size
    same([(int(n.network_address), n.prefixlen) for n in got], want, "collapse_addresses(%r)" % (arg,))
    same([str(x) for x in o], [str(mk(bits, v, p)) for v, p in c["s"]], "objects after being collapsed")
    return len(want) < len(c["s"])


SUBS = [Sub("order", g_set, c_order, RULE, 3),
        Sub("longest", lambda d: g_set(d, 3, 10, 5), c_longest, "two or more networks match", 1),
        Sub("collapse", lambda d: g_set(d, 1, 10, 5), c_collapse, "something is merged", 1)]
