"""Generators of addresses in every accepted notation (cases hold integers, the texts are built from them)."""
import ipaddress

from . import env  # noqa: F401
from . import gen

M4, M6 = 2 ** 32 - 1, 2 ** 128 - 1
SPECIAL4 = [0, 1, M4, M4 - 1, 0x7f000001, 0x0a000000, 0xac100000, 0xc0a80000, 0xe0000000, 0xefffffff, 0xf0000000, 0xa9fe0000,
            0x64400000, 0xc0000200, 0xc6120000, 0xcb007100, 0x01010101, 0x0a010101, 0xac1fffff, 0xac200000, 0xdfffffff, 0x80000000]
SPECIAL6 = [0, 1, M6, 0xfe80 << 112, 0xfec0 << 112, 0xfc00 << 112, 0xff02 << 112, 0x20010db8 << 96, 0x2001 << 112, 0x2002 << 112,
            0xffff << 32, (0xffff << 32) + 0x01020304, (0x64ff9b << 96), 0x20010000 << 96 | 0x1234567890abcdef12345678, 1 << 127]


def g_addr(d, bits):
    top = (1 << bits) - 1
    k = d.draw(10)
    if k < 2:
        v = d.pick(SPECIAL4 if bits == 32 else SPECIAL6)
        return max(0, min(top, v + d.pick([0, 0, 0, 1, -1, 255, 256])))
    if k < 3:
        return min(top, d.pick(gen.CONST_INT))
    if k < 5:  # structured by bytes / hextets
        w = 8 if bits == 32 else 16
        v = 0
        for _ in range(bits // w):
            v = (v << w) | part(d, w)
        return v
    return d.bigint(0, top)


def part(d, w):
    k = d.draw(8)
    if k < 3:
        return 0
    if k < 4:
        return 1
    if k < 5:
        return (1 << w) - 1
    if k < 6:
        return 1 << d.draw(w)
    return d.draw(1 << w)


def g_plen(d, bits):
    k = d.draw(8)
    if k < 2:
        return bits
    if k < 3:
        return d.pick([0, 0, 1, bits - 1, bits - 2, bits // 2])
    if k < 5:
        return d.pick([8, 16, 24, 30] if bits == 32 else [32, 48, 64, 96])
    return d.draw(bits + 1)


def dotted(v):
    return ".".join(str((v >> s) & 255) for s in (24, 16, 8, 0))


def mask(p, bits=32):
    return ((1 << bits) - 1) ^ ((1 << (bits - p)) - 1)


FORMS4 = ["/len", "/len", "/mask", " mask", "  mask", "/host", " host", "none", "int", "/0len", " pad "]


def text4(v, p, form):
    """(argument, effective prefix length) or None if the form cannot express it"""
    a = dotted(v)
    if form == "/len":
        return "%s/%d" % (a, p), p
    if form == "/0len":
        return "%s/%03d" % (a, p), p
    if form == " pad ":
        return "  %s/%d " % (a, p), p
    if form == "/mask":
        return "%s/%s" % (a, dotted(mask(p))), p
    if form in (" mask", "  mask"):
        return "%s%s%s" % (a, form[:-4], dotted(mask(p))), p
    if form in ("/host", " host"):
        if p in (0, 32):
            return "%s%s%s" % (a, form[0], dotted(mask(p))), p
        return "%s%s%s" % (a, form[0], dotted(mask(p) ^ M4)), p
    if form == "none":
        return a, 32
    if form == "int":
        return v, 32
    raise ValueError(form)


def hextets(v):
    return [(v >> (112 - 16 * i)) & 0xffff for i in range(8)]


def g_spell(d):
    """How to spell an IPv6 address: choices are interpreted relative to the address."""
    return {"zero": d.draw(9), "len": d.draw(9), "emb": d.chance(0.25), "pad": d.draw(3), "up": d.draw(3),
            "plen": d.pick(["/len", "/len", "/len", "none", " len", "int", "/0len", " pad "])}


def text6(v, p, s):
    if s["plen"] == "int":
        return v, 128
    h = hextets(v)

    def fmt(x, i):
        t = "%x" % x
        if s["pad"] == 1 or (s["pad"] == 2 and i % 2):
            t = "%04x" % x
        if s["up"] == 1 or (s["up"] == 2 and i % 3 == 0):
            t = t.upper()
        return t
    n = 6 if s["emb"] else 8
    words = [fmt(h[i], i) for i in range(n)]
    tail = [dotted(v & M4)] if s["emb"] else []
    # runs of zeros which "::" may replace
    runs = []
    for i in range(n):
        for j in range(i + 1, n + 1):
            if all(x == 0 for x in h[i:j]):
                runs.append((i, j))
    if runs and s["zero"] < 7:
        best = max(runs, key=lambda r: r[1] - r[0]) if s["zero"] < 3 else runs[(s["zero"] * 9 + s["len"]) % len(runs)]
        i, j = best
        a = ":".join(words[:i]) + "::" + ":".join(words[j:] + tail)
    else:
        a = ":".join(words + tail)
    try:
        assert int(ipaddress.IPv6Address(a)) == v
    except Exception:
        return None
    t = {"/len": "%s/%d" % (a, p), "none": a, " len": "%s %d" % (a, p), "/0len": "%s/%03d" % (a, p),
         " pad ": " %s/%d " % (a, p)}[s["plen"]]
    if len(t) > 49:
        return None  # longer than any legal spelling without padding
    return t, (128 if s["plen"] == "none" else p)
