"""P23: address arithmetic and field updates."""
import ipaddress

from ..addr import *
from ..core import Reject, Sub, Violation, require, same
from . import p20, p21
from .p22 import mk

RULE = "the amount is not zero and the result is inside the address space, or the operation is rejected"
ASSUME = []


def facts(bits, o, v, p, what):
    (p20 if bits == 32 else p21).facts(o, v, p, what)


def g_arith(d):
    bits = d.pick([32, 128])
    v = g_addr(d, bits)
    k = d.draw(8)
    full = (1 << bits) - 1
    n = [0, 1, d.draw(300), full - v, full - v + 1, v, v + 1, d.bigint(0, full)][k]
    if d.chance(0.3):
        n = -n
    return {"bits": bits, "v": v, "p": g_plen(d, bits), "n": n}


def c_arith(c):
    bits, v, p, n = c["bits"], c["v"], c["p"], c["n"]
    full = (1 << bits) - 1
    o = mk(bits, v, p)
    for sym, w in (("+", v + n), ("-", v - n)):
        what = "%r %s %d" % (o, sym, n)
        fn = (lambda: o + n) if sym == "+" else (lambda: o - n)
        if 0 <= w <= full:
            r = fn()
            facts(bits, r, w, p, what)
            require(r is not o, "%s is the same object", what)
            back = (r - n) if sym == "+" else (r + n)
            require(back == o, "%s and back: %r", what, back)
        else:
            try:
                r = fn()
            except Exception:
                continue
            raise Violation("%s: outside the address space, got %r" % (what, r))
        facts(bits, o, v, p, "%r after %s" % (o, what))
    return n != 0


def g_upd(d):
    bits = d.pick([32, 128])
    ops = []

    def op():
        k = d.pick(["prefixlen", "masklen", "masklength", "prefixlength", "netmask", "offset", "offset", "str", "bad", "badoff", "add"])
        return [k, d.bigint(0, (1 << bits) - 1), g_plen(d, bits)]
    return {"bits": bits, "v": g_addr(d, bits), "p": g_plen(d, bits), "ops": d.list(op, 1, 8, 3)}


def c_upd(c):
    bits, v, p = c["bits"], c["v"], c["p"]
    full = (1 << bits) - 1
    o = mk(bits, v, p)
    log = "%r" % o
    n = 0
    hash(o)
    for k, x, q in c["ops"]:
        log += "; %s %d %d" % (k, x, q)
        size = 1 << (bits - p)
        net = v & mask(p, bits)
        if k in ("prefixlen", "masklen", "masklength", "prefixlength", "str"):
            if k == "prefixlength" and bits == 128:
                k = "prefixlen"
            if k == "str":
                o.prefixlen = str(q)
            else:
                setattr(o, k, q)
            p = q
        elif k == "netmask" and bits == 32:
            o.prefixlen = dotted(mask(q))
            p = q
        elif k == "offset":
            off = x % size
            o.network_offset = off if q % 3 else str(off)
            v = net + off
        elif k == "bad":
            for bad in (bits + 1 + q, -1 - q, "x", None):
                try:
                    o.prefixlen = bad
                except Exception:
                    continue
                raise Violation("prefix length %r accepted by %r (%s)" % (bad, o, log))
        elif k == "badoff":
            for bad in (size + x % 5, -1 - x % 5, 1.5):
                try:
                    o.network_offset = bad
                except Exception:
                    continue
                raise Violation("network offset %r accepted by %r (%s)" % (bad, o, log))
        elif k == "add":
            step = x % 7
            if v + step > full:
                continue
            o = o + step
            v += step
        facts(bits, o, v, p, log)
        fresh = mk(bits, v, p)
        require(o == fresh and fresh == o, "%s: %r is not equal to a new %r", log, o, fresh)
        same(hash(o), hash(fresh), log + ": hash of the updated object and of a new equal one")
        require(not (o < fresh) and not (fresh < o) and fresh in {o}, "%s: %r against a new %r", log, o, fresh)
        n += 1
    return n > 1


SUBS = [Sub("arith", g_arith, c_arith, RULE, 2),
        Sub("update", g_upd, c_upd, "two or more updates", 2)]
