"""P42: IOS-XR interface names."""
from .. import env  # noqa: F401
from ..core import Sub, raises, require, same
from . import p24
from ciscoconfparse.ccp_util import CiscoIOSXRInterface

RULE = "four numbers, or a sub-interface, or a channel"
ASSUME = ["names have one, two or four components; numbers are written without leading zeros"]
PREFIX = ["GigabitEthernet", "TenGigE", "HundredGigE", "MgmtEth", "Bundle-Ether", "Loopback", "Serial", "POS", "tunnel-te", "BVI", "Null", "TwentyFiveGigE", "PW-Ether", ""]
CLASS = ["l2transport", "point-to-point", "preconfigure"]
KEYS = ["slot", "card", "processor", "port", "subinterface", "channel"]
NUM = ["port", "subinterface", "channel"]


def g_n(d):
    return p24.g_num(d)


def g_word(d, words):
    return d.pick(words) + str(d.int(0, 12)) if d.chance(0.4) else str(g_n(d))


def g_parts(d, shape=None):
    sh = shape or [d.pick([1, 2, 4, 4, 4]), d.chance(0.4), d.chance(0.2), d.chance(0.25)]
    c = {k: None for k in KEYS}
    c["port"] = g_n(d)
    if sh[0] > 1:
        c["slot"] = str(g_n(d))
    if sh[0] > 2:
        c["card"], c["processor"] = g_word(d, ["RP", "RSP", "LC"]), g_word(d, ["CPU", "NPU"])
    if sh[1]:
        c["subinterface"] = g_n(d)
    if sh[2]:
        c["channel"] = g_n(d)
    c["cls"] = d.pick(CLASS) if sh[3] else None
    return c


def g_prefix(d):
    return d.pick(PREFIX) if d.chance(0.8) else d.pick(p24.AL) + d.str(p24.AL + "-", 0, 12, 5)


def g_name(d):
    c = g_parts(d)
    c["prefix"] = g_prefix(d)
    return {"p": c, "gap": d.pick(["", "", " ", "  "]), "cgap": d.pick([" ", "  "]), "pad": d.pick(["", "", " "]),
            "set": {k: (g_n(d) if k in NUM else str(g_n(d))) for k in d.subset(KEYS, 0.3)}, "cut": d.draw(12)}


def number(c):
    return "/".join(str(c[k]) for k in KEYS[:4] if c[k] is not None)


def text(c, gap="", cgap=" "):
    return (c["prefix"] + (gap if c["prefix"] else "") + number(c) + (".%d" % c["subinterface"] if c["subinterface"] is not None else "")
            + (":%d" % c["channel"] if c["channel"] is not None else "") + (cgap + c["cls"] if c["cls"] else ""))


def full(c):
    return {"prefix": c["prefix"], "digit_separator": "/" if c["slot"] is not None else None, **{k: c[k] for k in KEYS}, "interface_class": c["cls"]}


def verify(o, c, what):
    for k, v in full(c).items():
        same(getattr(o, k), v, what + ": " + k)
    t = text(c)
    same((str(o), o.name, o.render_as_string()), (t, t, t), what + ": text")
    same(o.number, number(c), what + ": number")
    same(o.slot_card_port_subinterface_channel, t[len(c["prefix"]):], what + ": slot_card_port_subinterface_channel")
    same(o.as_dict(), full(c), what + ": as_dict")


def c_name(case):
    c = case["p"]
    t = case["pad"] + text(c, case["gap"], case["cgap"]) + case["pad"]
    what = "interface %r" % t
    o = CiscoIOSXRInterface(t)
    verify(o, c, what)
    copies = {"parsed again": CiscoIOSXRInterface(str(o)), "from dictionary": CiscoIOSXRInterface(interface_dict=o.as_dict()),
              "from_dict": CiscoIOSXRInterface("Serial7/8/9/4:3").from_dict(o.as_dict()), "from object": CiscoIOSXRInterface(o)}
    src = full(c)
    copies["from the same dictionary"] = CiscoIOSXRInterface(interface_dict=src)
    same(src, full(c), what + ": the dictionary after making an interface of it")
    copies["from_dict of the same dictionary"] = CiscoIOSXRInterface("Serial7/8/9/4:3").from_dict(src)
    same(src, full(c), what + ": the dictionary after from_dict")
    src["port"], src["prefix"] = 77, "changed"
    o.as_dict().clear()
    for n, x in copies.items():
        verify(x, c, what + " " + n)
        require(x == o and o == x and not (x != o) and not x < o and not x > o, what + " " + n + ": not equal")
        same(hash(x), hash(o), what + " " + n + ": hash")
    for k in full(c):
        e = full(c)
        if k == "prefix":
            e[k] += "x"
        elif k == "interface_class":
            e[k] = None if e[k] else "l2transport"
        elif k == "digit_separator" or e[k] is None:
            continue
        else:
            e[k] = e[k] + 1 if k in NUM else e[k] + "1"
        x = CiscoIOSXRInterface(interface_dict=e)
        require(x != o and not (x == o) and str(x) != str(o), what + ": equal to %r", x)
    e = dict(c)
    for k, v in sorted(case["set"].items()):
        if c[k] is not None:
            setattr(o, k, v)
            e[k] = v
    verify(o, e, what + " with %r set" % case["set"])
    verify(copies["from object"], c, what + ": its copy")
    # a fifth component, or a second sub-interface, is not cut off
    t = text(dict(c, cls=None))
    bad = [t + "/x", t + ".", t + ":", t + " 5", t + "/", t + "-5"]
    if c["slot"] is not None:
        bad += [c["prefix"] + number(c) + "/7", c["prefix"] + "3//" + number(c)]
    if c["subinterface"] is not None:
        bad += [t + ".7"]
    b = bad[case["cut"] % len(bad)]
    if not (b.endswith("/7") and number(c).count("/") == 2):
        raises(lambda: CiscoIOSXRInterface(b), "interface %r" % b)
    return c["card"] is not None or c["subinterface"] is not None or c["channel"] is not None


def g_sort(d):
    shape = [d.pick([1, 2, 4, 4]), d.chance(0.4), d.chance(0.2), d.chance(0.2)] if d.chance(0.6) else None
    parts = d.list(lambda: g_parts(d, shape), 2, 8, 4)
    if d.chance(0.6):
        for q in parts[1:]:
            for k in KEYS:
                if q[k] is not None and parts[0][k] is not None and d.chance(0.6):
                    q[k] = parts[0][k] if k not in NUM else max(0, parts[0][k] + d.pick([0, 0, 1, -1, 10]))
    return {"prefix": d.pick(PREFIX), "parts": parts}


def c_sort(case):
    ps = [dict(p, prefix=case["prefix"]) for p in case["parts"]]
    o = [CiscoIOSXRInterface(text(p)) for p in ps]

    def key(p):
        r = []
        for k in KEYS:
            v = p[k]
            r.append((0, 0, "") if v is None else (1, int(v), "") if str(v).isdigit() else (2, 0, v))
        return r + [p["cls"] or ""]
    ks = [key(p) for p in ps]
    for i, x in enumerate(o):
        for j, y in enumerate(o):
            what = "%r and %r" % (x, y)
            same((x < y, x > y, x == y), (ks[i] < ks[j], ks[i] > ks[j], ks[i] == ks[j]), what + ": < > ==")
            if ks[i] == ks[j]:
                same(hash(x), hash(y), what + ": hash")
    same([str(x) for x in sorted(o)], [text(ps[i]) for i in sorted(range(len(ps)), key=lambda i: ks[i])], "sorted(%r)" % o)
    same(len(set(o)), len({str(k) for k in ks}), "size of the set of %r" % o)
    return len({str(k) for k in ks}) > 1


SUBS = [Sub("name", g_name, c_name, RULE, 3), Sub("sort", g_sort, c_sort, "two or more different interfaces", 1)]
