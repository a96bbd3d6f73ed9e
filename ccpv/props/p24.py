"""P24: interface names."""
from .. import env  # noqa: F401
from ..core import Sub, Violation, require, same
from ciscoconfparse.ccp_util import CiscoIOSInterface

RULE = "two or more of slot, card, sub-interface, channel, class are present"
ASSUME = ["at most three slash-separated numbers (the IOS form); IOS-XR names are those of P42"]
PREFIX = ["Ethernet", "GigabitEthernet", "Serial", "Port-channel", "Vlan", "Loopback", "Eth", "Gi", "ATM", "", "Dot11Radio", "TwoGigabitEthernet",
          "Embedded-Service-Engine", "10GE", "mgmt", "Wlan-GigabitEthernet", "e", "nve"]
CLASS = ["multipoint", "point-to-point", "link", "mpls"]
AL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
KEYS = ["slot", "card", "port", "subinterface", "channel"]


def g_num(d):
    return d.weighted([(5, lambda: d.int(0, 9)), (3, lambda: d.int(0, 48)), (2, lambda: d.pick([10, 99, 100, 4094, 4095, 65535, 4294967295])),
                       (2, lambda: d.int(0, 100000))])()


def g_parts(d, shape=None):
    sh = shape if shape is not None else [d.pick([1, 2, 2, 3]), d.chance(0.4), d.chance(0.3), d.chance(0.25)]
    n = sh[0]
    nums = [g_num(d) for _ in range(n)]
    c = {"slot": None, "card": None, "port": nums[-1], "subinterface": g_num(d) if sh[1] else None,
         "channel": g_num(d) if sh[2] else None, "interface_class": d.pick(CLASS) if sh[3] else None}
    if n > 1:
        c["slot"] = nums[0]
    if n > 2:
        c["card"] = nums[1]
    return c


def g_prefix(d):
    if d.chance(0.7):
        return d.pick(PREFIX)
    return d.pick(AL) + d.str(AL + "-", 0, 12, 5)


def g_name(d):
    c = g_parts(d)
    c["prefix"] = g_prefix(d)
    return {"p": c, "gap": d.pick(["", "", " ", "  "]), "cgap": d.pick([" ", "  "]), "pad": d.pick(["", "", " "]),
            "set": {k: g_num(d) for k in d.subset(KEYS, 0.3)}}


def number(c):
    return "/".join(str(c[k]) for k in ("slot", "card", "port") if c[k] is not None)


def tail(c):
    return (".%d" % c["subinterface"] if c["subinterface"] is not None else "") + (":%d" % c["channel"] if c["channel"] is not None else "")


def text(c, gap="", cgap=" "):
    return c["prefix"] + (gap if c["prefix"] else "") + number(c) + tail(c) + (cgap + c["interface_class"] if c["interface_class"] else "")


def full(c):
    return {"prefix": c["prefix"], "digit_separator": "/" if c["slot"] is not None else None, **{k: c[k] for k in KEYS},
            "interface_class": c["interface_class"]}


def verify(o, c, what):
    for k in KEYS + ["prefix", "interface_class"]:
        same(getattr(o, k), c[k], what + ": " + k)
    t = text(c)
    same(str(o), t, what + ": text")
    same(o.name, t, what + ": name")
    same(o.render_as_string(), t, what + ": rendered text")
    same(o.number, number(c), what + ": number")
    same(o.number_list, [c["slot"], c["card"], c["port"]], what + ": number_list")
    same(o.sort_list, [c[k] for k in KEYS] + [c["interface_class"]], what + ": sort_list")
    same(o.slot_card_port_subinterface_channel, t[len(c["prefix"]):], what + ": slot_card_port_subinterface_channel")
    same(o.as_dict(), full(c), what + ": as_dict")


def c_name(case):
    c = case["p"]
    t = case["pad"] + text(c, case["gap"], case["cgap"]) + case["pad"]
    what = "interface %r" % t
    o = CiscoIOSInterface(t)
    verify(o, c, what)
    copies = {"parsed again": CiscoIOSInterface(str(o)), "from dictionary": CiscoIOSInterface(interface_dict=o.as_dict()),
              "from_dict": CiscoIOSInterface("Serial7/8/9.4:3 mpls").from_dict(o.as_dict()), "from object": CiscoIOSInterface(o),
              "from_dict of itself": o.from_dict(o.as_dict())}
    src = full(c)
    copies["from the same dictionary"] = CiscoIOSInterface(interface_dict=src)
    same(src, full(c), what + ": the dictionary after making an interface of it")
    copies["from_dict of the same dictionary"] = CiscoIOSInterface("Serial7/8/9.4:3 mpls").from_dict(src)
    same(src, full(c), what + ": the dictionary after from_dict")
    src["port"], src["prefix"] = 77, "changed"
    o.as_dict().clear()
    for n, x in copies.items():
        verify(x, c, what + " " + n)
        require(x == o and o == x and not (x != o), what + " " + n + ": not equal")
        same(hash(x), hash(o), what + " " + n + ": hash")
        require(not x < o and not x > o, what + " " + n + ": ordered before or after itself")
    verify(o, c, what + " afterwards")
    # a change of one component makes a different interface
    for k in KEYS + ["prefix", "interface_class"]:
        e = full(c)
        if k == "prefix":
            e[k] = e[k] + "x"
        elif k == "interface_class":
            e[k] = None if e[k] else "mpls"
        elif e[k] is None:
            continue
        else:
            e[k] += 1
        x = CiscoIOSInterface(interface_dict=e)
        require(x != o and not (x == o) and str(x) != str(o), what + ": equal to %r", x)
    # assigning components
    e = dict(c)
    for k, v in sorted(case["set"].items()):
        if c[k] is not None:
            setattr(o, k, v)
            e[k] = v
    verify(o, e, what + " with %r set" % case["set"])
    verify(copies["from object"], c, what + ": its copy")
    return sum(c[k] is not None for k in ("slot", "card", "subinterface", "channel", "interface_class")) >= 2


def g_sort(d):
    shape = [d.pick([1, 2, 3]), d.chance(0.4), d.chance(0.3), d.chance(0.2)] if d.chance(0.6) else None
    pre = d.pick(PREFIX)
    parts = d.list(lambda: g_parts(d, shape), 2, 8, 4)
    if d.chance(0.6):  # close neighbours
        for q in parts[1:]:
            for k in KEYS:
                if q[k] is not None and parts[0][k] is not None and d.chance(0.6):
                    q[k] = max(0, parts[0][k] + d.pick([0, 0, 1, -1, 10]))
    return {"prefix": pre, "parts": parts}


def c_sort(case):
    ps = [dict(p, prefix=case["prefix"]) for p in case["parts"]]
    o = [CiscoIOSInterface(text(p)) for p in ps]

    def key(p):
        return [-1 if p[k] is None else p[k] for k in KEYS] + [p["interface_class"] or ""]
    ks = [key(p) for p in ps]
    for i, x in enumerate(o):
        for j, y in enumerate(o):
            what = "%r and %r" % (x, y)
            same((x < y, x > y, x == y), (ks[i] < ks[j], ks[i] > ks[j], ks[i] == ks[j]), what + ": < > ==")
            if ks[i] == ks[j]:
                same(hash(x), hash(y), what + ": hash")
    same([str(x) for x in sorted(o)], [text(ps[i]) for i in sorted(range(len(ps)), key=lambda i: ks[i])], "sorted(%r)" % o)
    same(len(set(o)), len({str(k) for k in ks}), "size of the set of %r" % o)
    return len({str(k) for k in ks}) > 1


SUBS = [Sub("name", g_name, c_name, RULE, 3), Sub("sort", g_sort, c_sort, "two or more different interfaces", 1)]
