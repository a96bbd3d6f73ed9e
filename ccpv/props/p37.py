"""P37: malformed input is rejected, never misread."""
import re
import socket

from .. import env  # noqa: F401
from ..core import Reject, Sub, raises, require, same
from ..addr import mask
from ..ccp import parse
from .. import gen
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ciscoconfparse import Diff, HDiff
from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoIOSXRInterface, CiscoRange, IPv4Obj, IPv6Obj, L4Object, collapse_addresses, ip_factory

RULE = "the input is malformed"
ASSUME = ["inputs which are neither clearly well-formed nor clearly malformed are not judged: non-ASCII digits, signs, underscores and blanks inside numbers, leading zeros of lengths, "
          "wildcard masks, blanks inside interface types"]


PUNCT = [",", ";", ":", ".", "/", "-", "_", "!", "?", "*", "'", '"', "`", "(", ")", "[", "]", "<", ">", "{", "}", "%", "#", "=", "\\", "|", "&", "~", "^", "$", "@", "+", "\u00a0x", "\0"]


def edit(d, s, alphabet, lo=1, hi=3):
    """Random single-character edits."""
    if d.chance(0.2):
        x = d.pick(PUNCT)
        return d.pick([s + x, x + s, x + s + x, s + " " + x, s + x * 2, s + "," + s, s + " " + s])
    for _ in range(d.int(lo, hi)):
        k, i = d.draw(5), d.draw(len(s) + 1)
        x = d.pick(alphabet)
        if k == 0:
            s = s[:i] + x + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + x + s[i + 1:]
        elif k == 3:
            s = s[:i] + s[i:i + 1] + s[i:]
        else:
            j = d.draw(len(s) + 1)
            s = s[:i] + s[min(i, j):j] + s[i:]
    return s


# -- addresses ---------------------------------------------------------------------------
def dotted(t):
    q = t.split(".")
    if len(q) != 4 or any(not re.fullmatch(r"0|[1-9][0-9]{0,2}", x) or int(x) > 255 for x in q):
        return None
    return sum(int(x) << (24 - 8 * i) for i, x in enumerate(q))


def v4(t):
    """(address, length) / 'bad' / 'grey'"""
    if not t.isascii():
        return "grey"
    s = t.strip()
    if re.fullmatch(r"[0-9]+", s):
        return "bad"
    m = re.fullmatch(r"([0-9.]+)(?:(/|\s+)([0-9.]+))?", s)
    if not m or dotted(m.group(1)) is None:
        return "bad"
    a, sep, n = m.groups()
    if n is None:
        return dotted(a), 32
    if "." in n:
        v = dotted(n)
        if v is None:
            return "grey" if re.search(r"(^|\.)0[0-9]", n) else "bad"
        for i in range(33):
            if v == (0xffffffff << (32 - i)) & 0xffffffff:
                return dotted(a), i
            if v == (1 << i) - 1:
                return "grey"
        return "bad"
    if sep != "/":
        return "grey"
    if len(n) > 1 and n[0] == "0":
        return "grey"
    return (dotted(a), int(n)) if int(n) <= 32 else "bad"


def g_v4(d):
    a = ".".join(str(d.pick([0, 1, 9, 10, 99, 100, 255, 192, d.draw(256)])) for _ in range(4))
    n = d.draw(33)
    s = d.pick([a, "%s/%d" % (a, n), "%s %s" % (a, mask(n)), "%s/%s" % (a, mask(n))])
    k = d.draw(6)
    if k == 0:
        s = "%s/%d" % (a, d.int(33, 999))
    elif k == 1:
        q = a.split(".")
        q[d.draw(4)] = str(d.int(256, 1999))
        s = s.replace(a, ".".join(q))
    elif k == 2:
        w = d.pick([0xff00ff00, 0x00ffff00, 0xfffffffe ^ (1 << d.int(2, 30)), d.draw(2**32)])
        s = "%s%s%s" % (a, d.pick(["/", " "]), ".".join(str(w >> x & 255) for x in (24, 16, 8, 0)))
    elif k > 2:
        s = edit(d, s, "0123456789.../ :abx-%" + "\u0663")
    return {"s": s, "via": d.pick(["obj", "factory", "stdlib", "mode"])}


def v6(t):
    if not t.isascii():
        return "grey"
    s = t.strip()
    m = re.fullmatch(r"([^/\s]+)(?:(/|\s+)([0-9]+))?", s)
    if not m:
        return "bad"
    a, sep, n = m.groups()
    try:
        v = int.from_bytes(socket.inet_pton(socket.AF_INET6, a), "big")
    except (OSError, ValueError):
        return "bad"
    if n is None:
        return v, 128
    if sep != "/" or (len(n) > 1 and n[0] == "0"):
        return "grey"
    return (v, int(n)) if int(n) <= 128 else "bad"


def g_v6(d):
    k = d.draw(4)
    h = ["%x" % d.pick([0, 1, 0xfe80, 0x2001, 0xdb8, 0xffff, d.draw(65536)]) for _ in range(8)]
    s = ":".join(h)
    if d.chance(0.6):
        i = d.draw(7)
        s = ":".join(h[:i]) + "::" + ":".join(h[i + 1 + d.draw(7 - i):])
    if d.chance(0.15):
        s = "::ffff:%d.1.2.3" % d.draw(400)
    if d.chance(0.6):
        s += "/%d" % d.draw(129)
    if k == 0:
        s = s.split("/")[0] + "/%d" % d.int(129, 999)
    elif k == 1:
        s = s.replace(":", "::", 1) if d.chance(0.5) else s.replace(":", ":%x:" % d.int(65536, 99999999), 1)
    elif k == 2:
        s = edit(d, s, "0123456789abcdefg::::/. %x-" + "\u0663")
    return {"s": s, "via": d.pick(["obj", "factory", "stdlib", "mode"])}


def c_addr(cls, recog, bits, mode):
    def c(case):
        s, via = case["s"], case["via"]
        want = recog(s)
        if want == "grey" or (want != "bad" and re.search(r"\s", s) and via != "obj"):
            raise Reject()
        fn = {"obj": lambda: cls(s), "factory": lambda: ip_factory(s), "stdlib": lambda: ip_factory(s, stdlib=True), "mode": lambda: ip_factory(s, mode=mode)}[via]
        if via in ("factory", "stdlib") and want == "bad" and (v6 if mode == "ipv4" else v4)(s) != "bad":
            raise Reject()
        if want == "bad":
            raises(fn, "%s of %r" % (cls.__name__ if via == "obj" else "ip_factory (%s)" % via, s))
            return True
        o = fn()
        if via != "stdlib":
            same([int(o.ip), o.prefixlen], list(want), "%r read as" % s)
        return False
    return c


# -- interface names ---------------------------------------------------------------------
NUM = r"[0-9]+(/[0-9]+){0,2}(\.[0-9]+)?(:[0-9]+)?"
LOOSE = re.compile(r"[A-Za-z0-9\- ]*" + NUM + r"(\s+[A-Za-z\-]+)?")
INTF = ["Ethernet", "GigabitEthernet", "Port-channel", "Eth", "Serial", "Vlan"]


def name(d):
    return d.pick(INTF) + d.pick(["", "", " "]) + "/".join(str(d.draw(20)) for _ in range(d.int(1, 3))) + d.pick(["", "", ".%d" % d.int(1, 4094), ":%d" % d.draw(30)]) + d.pick(["", "", "", " point-to-point"])


def g_intf(d):
    s = name(d)
    k = d.draw(5)
    if k == 0:
        s = d.pick(INTF) + "/".join(str(d.draw(9)) for _ in range(d.int(4, 6)))
    elif k == 1:
        s = d.pick(INTF) + d.pick(["", " ", "/", ".1", ":1"])
    else:
        s = edit(d, s, "0123456789//..::,-!$_+( a" + "\u0663")
    return {"s": s}


def c_intf(case):
    s = case["s"]
    if not s.isascii() or LOOSE.fullmatch(s.strip()) or "\n" in s:
        raise Reject()
    raises(lambda: CiscoIOSInterface(s), "CiscoIOSInterface(%r)" % s)
    return True


SEP = r"(?:_|[^\w:.\-\s])"
LOOSEXR = re.compile(r"[A-Za-z\- ]*([0-9]+%s([A-Za-z]*[0-9]+%s[A-Za-z]*[0-9]+%s)?)?[0-9]+(\.[0-9]+)?(:[0-9]+)?(\s+[A-Za-z][\w\-]*)?" % (SEP, SEP, SEP))


def g_xr(d):
    k = d.draw(5)
    pre = d.pick(["TenGigE", "GigabitEthernet", "MgmtEth", "Bundle-Ether", "HundredGigE"]) + d.pick(["", "", " "])
    if k == 0:
        s = pre + "/".join(str(d.draw(9)) for _ in range(d.pick([3, 5, 6])))
    elif k == 1:
        s = pre + d.pick(["", " ", "/", ".1", ":1", "RP0", "0/RP0"])
    else:
        s = pre + d.pick(["0/0/0/%d", "0/RSP0/CPU0/%d", "%d", "0/%d"]) % d.draw(20) + d.pick(["", "", ".%d" % d.int(1, 4094), ":%d" % d.draw(30)]) + d.pick(["", "", "", " l2transport"])
        s = edit(d, s, "0123456789//..::,-!$_+( aR")
    return {"s": s}


def c_xr(case):
    s = case["s"]
    if LOOSEXR.fullmatch(s.strip()) or "\n" in s:
        raise Reject()
    raises(lambda: CiscoIOSXRInterface(s), "CiscoIOSXRInterface(%r)" % s)
    return True


NUMS = ["slot", "card", "port", "subinterface", "channel"]
JUNK = {"num": [["f", 1.5], ["f", 2.0], ["l", [1]], ["b", "1"], ["s", "a"], ["s", "1a"], ["s", ""], ["s", "1.5"], ["s", "1/2"], ["d", {}], ["c", 3]],
        "text": [["i", 1], ["f", 1.5], ["l", ["a"]], ["b", "a"], ["c", 1]],
        "sep": [["i", 1], ["n", None], ["l", ["/"]], ["b", "/"]]}


def junk(v):
    """A value out of its description, which can be written to a replay file."""
    return {"b": lambda: str(v[1]).encode(), "c": lambda: complex(v[1])}.get(v[0], lambda: v[1])()


def g_comp(d):
    xr = d.chance(0.35)
    if xr:
        s = d.pick(["TenGigE", "Bundle-Ether"]) + d.pick(["0/0/0/%d", "0/RSP0/CPU0/%d", "%d"]) % d.draw(20) + d.pick(["", ".%d" % d.int(1, 4094), ":%d" % d.draw(30)])
    else:
        s = name(d)
    key = d.pick(NUMS + (["processor"] if xr else []) + ["prefix", "interface_class", "digit_separator"])
    return {"xr": xr, "s": s, "key": key, "how": d.draw(6), "v": d.pick(JUNK["num" if key in NUMS else "sep" if key == "digit_separator" else "text"])}


def c_comp(c):
    cls = CiscoIOSXRInterface if c["xr"] else CiscoIOSInterface
    o = cls(c["s"])
    before = (str(o), o.as_dict(), hash(o))
    d, k, v = o.as_dict(), c["key"], junk(c["v"])
    what = "%s(%r)" % (cls.__name__, c["s"])
    if k == "digit_separator" and o.slot is None and o.card is None:
        raise Reject()  # there is nothing to separate: ignored
    if c["how"] == 3 and k in ("card", "processor") and o.slot is None:
        raise Reject()  # without a slot these are ignored
    if c["xr"] and k in ("slot", "card", "processor") and c["v"][0] in ("s", "i"):
        raise Reject()  # these may hold letters
    if c["how"] < 3:
        raises(lambda: setattr(o, k, v), what + ": %s = %r" % (k, v))
    elif c["how"] < 4:
        e = dict(d)
        e[k] = v
        raises(lambda: cls(interface_dict=e), "%s(interface_dict=%r)" % (cls.__name__, e))
        raises(lambda: o.from_dict(e), what + ".from_dict(%r)" % e)
    elif c["how"] < 5:
        e = {x: y for x, y in d.items() if x != k}
        raises(lambda: cls(interface_dict=e), "%s(interface_dict=%r)" % (cls.__name__, e))
        raises(lambda: o.from_dict(e), what + ".from_dict(%r)" % e)
    else:
        e = {x + ("x" if x == k else ""): y for x, y in d.items()}
        raises(lambda: cls(interface_dict=e), "%s(interface_dict=%r)" % (cls.__name__, e))
        raises(lambda: cls(interface_dict=dict(d, extra=1)), "%s(interface_dict=%r)" % (cls.__name__, dict(d, extra=1)))
    same((str(o), o.as_dict(), hash(o)), before, what + ": object after the refused change")
    return True


# -- ranges ------------------------------------------------------------------------------
def g_range(d):
    intf = d.chance(0.5)
    num = lambda: d.draw(40)  # noqa: E731

    def part():
        a = num()
        return "%d-%d" % (a, a + d.draw(5)) if d.chance(0.4) else str(a)
    parts = [part() for _ in range(d.int(1, 4))]
    s = d.pick([",", ",", ", "]).join(parts)
    if intf:
        s = d.pick(INTF) + d.pick(["", "1/", "0/1/"]) + s
    k = d.draw(4)
    if k == 0:
        a = d.int(1, 50)
        s = (s + "," if d.chance(0.5) else (d.pick(INTF) + "1/") * intf) + "%d-%d" % (a, d.draw(a))
    elif k == 1:
        s = d.pick(["", ",", s + ",", "," + s, s + ",,3", s + "-", "-", s + ",-4", s + ",x", s + ",5-", s + ",3-x", s + ";7", s + "/", s + ",/"])
    else:
        s = edit(d, s, "0123456789,,--/. x;:_+" + "\u0663")
    return {"s": s, "intf": intf}


def int_range(s):
    if re.search(r"[^0-9\s,\-]", s):
        return "bad"
    if not s.isascii() or re.search(r"[0-9]\s+[0-9]", s):
        return "grey"
    if not re.search(r"[^\s]", s):
        return "grey"
    out = set()
    for p in s.split(","):
        m = re.fullmatch(r"\s*([0-9]+)(?:\s*-\s*([0-9]+))?\s*", p)
        if not m:
            return "bad"
        a = int(m.group(1))
        b = int(m.group(2)) if m.group(2) else a
        if b < a:
            return "bad"
        if b - a > 10000:
            return "grey"
        out |= set(range(a, b + 1))
    return sorted(out)


def intf_range(s):
    """Only 'bad' or 'grey'."""
    if not s.isascii() or not s.strip():
        return "grey"
    for i, p in enumerate(s.split(",")):
        p = re.sub(r"(?<=[0-9])\s+[A-Za-z\-]+$", "", p.strip())  # an interface class
        m = re.fullmatch(r"(.*?)(?:\s*-\s*([0-9]+))?", p)
        head, hi = m.groups()
        if i == 0:
            if not LOOSE.fullmatch(p) and not LOOSE.fullmatch(head):
                return "bad"
        elif not re.fullmatch("[0-9]+", head) and not LOOSE.fullmatch(p) and not LOOSE.fullmatch(head):
            return "bad"
        t = re.search(r"(?:^|[^0-9])([0-9]+)$", head)
        if hi and t and LOOSE.fullmatch(head) and int(hi) < int(t.group(1)) and not re.search(r"[\s]", p) and not re.fullmatch(r"[A-Za-z\-]*-[0-9]+", p):
            return "bad"
    return "grey"


def c_range(case):
    s = case["s"]
    want = intf_range(s) if case["intf"] else int_range(s)
    if want == "grey":
        raise Reject()
    if want == "bad":
        raises(lambda: CiscoRange(s, result_type=None if case["intf"] else int), "CiscoRange(%r%s)" % (s, "" if case["intf"] else ", result_type=int"))
        return True
    same(list(CiscoRange(s, result_type=int).as_list()), want, "CiscoRange(%r, result_type=int)" % s)
    return False


# -- arguments ---------------------------------------------------------------------------
VALUES = {"int": 5, "zero": 0, "float": 1.5, "none": None, "bytes": b"a", "list": [], "dict": {}, "set": {"a"}, "object": object(), "true": True, "str": "x", "intlist": [1], "nonelist": [None], "byteslist": [b"a"]}
FINDS = ["find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "has_line_with", "re_search_children", "find_interface_objects", "find_lineage"]
PAIRS = ["find_parent_objects", "find_parent_objects_wo_child", "find_child_objects", "find_parents_w_child", "find_children_w_parents"]


def g_args(d):
    k = d.pick(["config", "element", "syntax", "factory", "find", "pair", "regex", "intf", "xr", "range", "v4", "v6", "l4", "file", "comment"])
    c = {"k": k, "lines": gen.nonempty_config(d, hi=6, avg=3)}
    v = {"config": ["int", "zero", "float", "none", "bytes", "dict", "set", "object", "true"], "element": ["int", "float", "none", "bytes", "list", "dict", "object", "true"],
         "factory": ["int", "zero", "none", "str", "list"], "find": ["int", "float", "none", "bytes", "list", "dict", "object"], "pair": ["int", "float", "none", "bytes", "dict", "object"],
         "intf": ["int", "float", "none", "bytes", "list", "dict", "true", "object"], "xr": ["int", "float", "none", "bytes", "list", "dict", "true", "object"], "range": ["int", "float", "none", "bytes", "list", "dict", "object", "true"],
         "v4": ["float", "bytes", "list", "dict", "object", "set"], "v6": ["float", "bytes", "list", "dict", "object", "set"], "l4": ["int", "float", "none", "bytes", "list", "true"],
         "comment": ["int", "none", "float", "bytes", "list"]}
    if k in v:
        c["v"] = d.pick(v[k])
    if k == "element":
        c["at"] = d.draw(len(c["lines"]) + 1)
    if k in ("find", "regex"):
        c["fn"] = d.pick(FINDS)
    if k == "pair":
        c["fn"], c["second"], c["lines"] = d.pick(PAIRS), d.chance(0.5), ["a", " a", "b"]
    if k == "regex":
        c["v"] = d.pick(["(", "a)", "[a", "*a", "a**", "(?P<a", "\\", "a{2,1}", "(?z)"])
    if k == "syntax":
        c["v"] = d.pick([None, 5, "", "IOS", "ios ", "cisco", "iosxe", "nx-os", "xr", "Junos", True, edit(d, d.pick(["ios", "nxos", "asa", "junos", "iosxr"]), "abxos ")])
        if c["v"] in ("ios", "nxos", "asa", "junos", "iosxr", "terraform"):
            raise Reject()
    if k == "file":
        c["v"] = d.pick(["", "/nonexistent/x.conf", "no such file", "interface Ethernet1", "a\nb"])
    return c


def c_args(case):
    k, lines = case["k"], list(case["lines"])
    v = VALUES[case["v"]] if isinstance(case.get("v"), str) and k not in ("regex", "syntax", "file") else case.get("v")
    what = "%s %r: " % (k, case.get("v"))
    if k in ("config", "file"):
        raises(lambda: CiscoConfParse(v), what + "CiscoConfParse(%r)" % (v,))
    elif k == "element":
        lines.insert(case["at"], v)
        raises(lambda: CiscoConfParse(lines), what + "CiscoConfParse(%r)" % (lines,))
    elif k in ("syntax", "factory", "comment"):
        raises(lambda: CiscoConfParse(lines, **{k: v}), what + "CiscoConfParse(.., %s=%r)" % (k, v))
    elif k in ("find", "regex", "pair"):
        p = parse(lines)
        args = [v] if k != "pair" else ["a", v] if case["second"] else [v, "a"]
        raises(lambda: getattr(p, case["fn"])(*args), what + "%s(*%r) of %r" % (case["fn"], args, lines))
    elif k == "intf":
        raises(lambda: CiscoIOSInterface(v), what + "CiscoIOSInterface(%r)" % (v,))
    elif k == "xr":
        raises(lambda: CiscoIOSXRInterface(v), what + "CiscoIOSXRInterface(%r)" % (v,))
    elif k == "range":
        raises(lambda: CiscoRange(v, result_type=int), what + "CiscoRange(%r, result_type=int)" % (v,))
    elif k == "l4":
        raises(lambda: L4Object(protocol="tcp", port_spec=v, syntax="asa"), what + "L4Object(port_spec=%r)" % (v,))
    else:
        cls = IPv4Obj if k == "v4" else IPv6Obj
        raises(lambda: cls(v), what + "%s(%r)" % (cls.__name__, v))
    require(True, "")
    return True


ETYPES = ["int", "float", "none", "bytes", "list", "dict", "set", "object", "true"]
EDITS = {
    "insert_before(v, 'x')": lambda p, o, v: p.insert_before(v, "x"), "insert_before('a', v)": lambda p, o, v: p.insert_before("a", v),
    "insert_after(v, 'x')": lambda p, o, v: p.insert_after(v, "x"), "insert_after('a', v)": lambda p, o, v: p.insert_after("a", v),
    "insert_after_child(v, 'b', 'x')": lambda p, o, v: p.insert_after_child(v, "b", "x"), "insert_after_child('a', 'b', v)": lambda p, o, v: p.insert_after_child("a", "b", v),
    "replace_objects(v, 'x')": lambda p, o, v: p.replace_objects(v, "x"), "replace_objects('a', v)": lambda p, o, v: p.replace_objects("a", v),
    "delete_lines(v)": lambda p, o, v: p.delete_lines(v),
    "line.insert_before(v)": lambda p, o, v: o.insert_before(v), "line.insert_after(v)": lambda p, o, v: o.insert_after(v),
    "line.append_to_family(v)": lambda p, o, v: o.append_to_family(v), "line.replace(v, 'x')": lambda p, o, v: o.replace(v, "x"),
    "line.replace('a', v)": lambda p, o, v: o.replace("a", v), "line.re_sub(v, 'x')": lambda p, o, v: o.re_sub(v, "x"),
    "line.re_sub('a', v)": lambda p, o, v: o.re_sub("a", v), "line.text = v": lambda p, o, v: setattr(o, "text", v),
    "line.re_match(v)": lambda p, o, v: o.re_match(v), "line.re_search(v)": lambda p, o, v: o.re_search(v),
    "line.re_search_children(v)": lambda p, o, v: o.re_search_children(v), "line.re_match_typed(v)": lambda p, o, v: o.re_match_typed(v),
    "line.re_match_iter_typed(v)": lambda p, o, v: o.re_match_iter_typed(v), "line.has_child_with(v)": lambda p, o, v: o.has_child_with(v),
    "line.delete_children_matching(v)": lambda p, o, v: o.delete_children_matching(v),
    "ConfigObjs.insert(v, 'x')": lambda p, o, v: p.ConfigObjs.insert(v, "x"), "ConfigObjs.insert(0, v)": lambda p, o, v: p.ConfigObjs.insert(0, v),
    "ConfigObjs.insert_before(v, 'x')": lambda p, o, v: p.ConfigObjs.insert_before(v, "x"), "ConfigObjs.insert_before('a', v)": lambda p, o, v: p.ConfigObjs.insert_before("a", v),
    "ConfigObjs.insert_after(v, 'x')": lambda p, o, v: p.ConfigObjs.insert_after(v, "x"), "ConfigObjs.insert_after('a', v)": lambda p, o, v: p.ConfigObjs.insert_after("a", v),
    "append_line(v)": lambda p, o, v: p.append_line(v), "HDiff(v, ['a'])": lambda p, o, v: HDiff(v, ["a"]), "HDiff(['a'], v)": lambda p, o, v: HDiff(["a"], v),
    "IPv4Obj + v": lambda p, o, v: IPv4Obj("1.1.1.1") + v, "IPv4Obj - v": lambda p, o, v: IPv4Obj("1.1.1.9") - v,
    "IPv6Obj + v": lambda p, o, v: IPv6Obj("::1") + v, "IPv6Obj - v": lambda p, o, v: IPv6Obj("::9") - v,
}
FINE = {"ConfigObjs.insert(v, 'x')": ["int", "true"], "append_line(v)": ["int", "float", "true"], "HDiff(v, ['a'])": ["list"], "HDiff(['a'], v)": ["list"],
        "IPv4Obj + v": ["int", "true"], "IPv4Obj - v": ["int", "true"], "IPv6Obj + v": ["int", "true"], "IPv6Obj - v": ["int", "true"]}

NOTSTR = ["int", "float", "none", "bytes", "list", "dict", "set", "object", "true"]
R13 = lambda: CiscoRange("1-3", result_type=int)  # noqa: E731
# Further calls, each with the kinds of value which it refuses
MORE = {
    "find_objects_w_all_children('a', v)": (lambda p, o, v: p.find_objects_w_all_children("a", v), ["int", "float", "none", "bytes", "dict", "set", "object", "true", "str"]),
    "find_objects_w_missing_children('a', v)": (lambda p, o, v: p.find_objects_w_missing_children("a", v), ["int", "float", "none", "bytes", "dict", "set", "object", "true", "str"]),
    "find_objects_w_all_children(v, ['b'])": (lambda p, o, v: p.find_objects_w_all_children(v, ["b"]), ["int", "float", "none", "bytes", "dict", "object", "true"]),
    "req_cfgspec_all_diff(v)": (lambda p, o, v: p.req_cfgspec_all_diff(v), ["int", "float", "none", "bytes", "object", "true", "str"]),
    "req_cfgspec_excl_diff('a', 'a', v)": (lambda p, o, v: p.req_cfgspec_excl_diff("a", "a", v), ["int", "float", "none", "bytes", "object", "true", "str"]),
    "req_cfgspec_excl_diff(v, 'a', ['b'])": (lambda p, o, v: p.req_cfgspec_excl_diff(v, "a", ["b"]), ["int", "float", "none", "bytes", "dict", "object", "true"]),
    "sync_diff(v, 'a', 'a')": (lambda p, o, v: p.sync_diff(v, "a", "a"), ["int", "float", "none", "object", "true"]),
    "sync_diff(['x'], v, 'a')": (lambda p, o, v: p.sync_diff(["x"], v, "a"), NOTSTR),
    "sync_diff(syntax=v)": (lambda p, o, v: p.sync_diff(["x"], "a", "a", syntax=v), NOTSTR + ["str"]),
    "find_object_branches(v)": (lambda p, o, v: p.find_object_branches(v), ["int", "float", "none", "bytes", "dict", "set", "object", "true", "str"]),
    "find_object_branches(('a', v))": (lambda p, o, v: p.find_object_branches(("a", v)), ["int", "float", "none", "bytes", "list", "dict", "object", "true"]),
    "find_parent_objects([])": (lambda p, o, v: p.find_parent_objects([]), ["list"]), "find_child_objects([])": (lambda p, o, v: p.find_child_objects([]), ["list"]),
    "find_parent_objects(['a'])": (lambda p, o, v: p.find_parent_objects(["a"]), ["list"]), "find_child_objects(['a'])": (lambda p, o, v: p.find_child_objects(["a"]), ["list"]),
    "find_objects_dna(v)": (lambda p, o, v: p.find_objects_dna(v), ["int", "float", "none", "bytes", "dict", "object", "true"]),
    "replace_lines(v, 'x')": (lambda p, o, v: p.replace_lines(v, "x"), NOTSTR), "replace_lines('a', v)": (lambda p, o, v: p.replace_lines("a", v), NOTSTR),
    "replace_children(v, 'b', 'x')": (lambda p, o, v: p.replace_children(v, "b", "x"), NOTSTR), "replace_children('a', v, 'x')": (lambda p, o, v: p.replace_children("a", v, "x"), NOTSTR),
    "replace_children('a', 'b', v)": (lambda p, o, v: p.replace_children("a", "b", v), NOTSTR), "replace_all_children('a', 'b', v)": (lambda p, o, v: p.replace_all_children("a", "b", v), NOTSTR),
    "re_match_iter_typed('(a)', group=v)": (lambda p, o, v: p.re_match_iter_typed("(a)", group=v), ["int", "float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "re_match_iter_typed('(a)', result_type=v)": (lambda p, o, v: p.re_match_iter_typed("(a)", result_type=v), NOTSTR),
    "line.re_match('(a)', group=v)": (lambda p, o, v: o.re_match("(a)", group=v), ["int", "float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "line.re_match_typed('(a)', result_type=v)": (lambda p, o, v: o.re_match_typed("(a)", result_type=v), NOTSTR),
    "line.re_list_iter_typed(v)": (lambda p, o, v: o.re_list_iter_typed(v), NOTSTR),
    "HDiff(syntax=v)": (lambda p, o, v: HDiff(["a"], ["a"], syntax=v), NOTSTR + ["str"]),
    "Diff(v, ['a'])": (lambda p, o, v: Diff(v, ["a"]).get_diff(), ["int", "float", "object", "true"]),
    "Diff(['a'], v)": (lambda p, o, v: Diff(["a"], v).get_diff(), ["int", "float", "object", "true"]),
    "ip_factory(v)": (lambda p, o, v: ip_factory(v), NOTSTR + ["str"]), "ip_factory(mode=v)": (lambda p, o, v: ip_factory("1.1.1.1", mode=v), NOTSTR + ["str"]),
    "collapse_addresses(v)": (lambda p, o, v: list(collapse_addresses(v)), ["int", "float", "none", "bytes", "set", "object", "true", "str"]),
    "collapse_addresses([v])": (lambda p, o, v: list(collapse_addresses([v])), NOTSTR + ["str"]),
    "CiscoRange + v": (lambda p, o, v: R13() + v, ["int", "float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "CiscoRange - v": (lambda p, o, v: R13() - v, ["int", "float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "CiscoRange.append(v)": (lambda p, o, v: R13().append(v), ["float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "CiscoRange.remove(v)": (lambda p, o, v: R13().remove(v), ["int", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "CiscoRange.as_list(v)": (lambda p, o, v: R13().as_list(v), ["int", "float", "bytes", "list", "dict", "set", "object", "true", "str"]),
    "CiscoRange.as_set(v)": (lambda p, o, v: R13().as_set(v), ["int", "float", "bytes", "list", "dict", "set", "object", "true", "str"]),
    "L4Object(protocol=v)": (lambda p, o, v: L4Object(protocol=v, port_spec="eq 80", syntax="asa"), NOTSTR + ["str"]),
    "L4Object(syntax=v)": (lambda p, o, v: L4Object(protocol="tcp", port_spec="eq 80", syntax=v), NOTSTR + ["str"]),
    "IPv4Obj.prefixlen = v": (lambda p, o, v: setattr(IPv4Obj("1.1.1.1/24"), "prefixlen", v), ["none", "bytes", "list", "dict", "set", "object", "str"]),
    "IPv4Obj.masklen = v": (lambda p, o, v: setattr(IPv4Obj("1.1.1.1/24"), "masklen", v), ["none", "bytes", "list", "dict", "set", "object", "str"]),
    "IPv6Obj.prefixlen = v": (lambda p, o, v: setattr(IPv6Obj("::1/64"), "prefixlen", v), ["none", "bytes", "list", "dict", "set", "object", "str"]),
    "IPv4Obj.netmask = v": (lambda p, o, v: setattr(IPv4Obj("1.1.1.1/24"), "netmask", v), ["float", "none", "list", "dict", "set", "object", "str"]),
    "IPv4Obj.network = v": (lambda p, o, v: setattr(IPv4Obj("1.1.1.1/24"), "network", v), NOTSTR + ["str"]),
    "IPv6Obj.network = v": (lambda p, o, v: setattr(IPv6Obj("::1/64"), "network", v), NOTSTR + ["str"]),
    "IPv4Obj.network_offset = v": (lambda p, o, v: setattr(IPv4Obj("1.1.1.1/24"), "network_offset", v), ["none", "bytes", "list", "dict", "set", "object", "str"]),
    "v in IPv4Obj": (lambda p, o, v: v in IPv4Obj("1.1.1.1/24"), ["float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "IPv4Obj < v": (lambda p, o, v: IPv4Obj("1.1.1.1/24") < v, ["float", "none", "bytes", "list", "dict", "set", "object", "str"]),
    "CiscoIOSInterface < v": (lambda p, o, v: CiscoIOSInterface("Eth1") < v, NOTSTR + ["str"]),
    "line < v": (lambda p, o, v: o < v, NOTSTR + ["str"]),
    "lines.index(v)": (lambda p, o, v: p.objs.index(v), NOTSTR + ["str"]), "lines.remove(v)": (lambda p, o, v: p.objs.remove(v), NOTSTR + ["str"]),
    "lines[v]": (lambda p, o, v: p.objs[v], ["float", "none", "bytes", "list", "dict", "set", "object", "str"]),
}
EDITS.update({k: v[0] for k, v in MORE.items()})
ORDER = sorted(EDITS)


def g_edits(d):
    def op():
        k = d.pick(ORDER)
        return [k, d.pick(MORE[k][1] if k in MORE else ETYPES)]
    lines = ["a", " b"] + [x for x in gen.nonempty_config(d, hi=6, avg=3)]
    return {"lines": lines, "ops": d.list(op, 1, 6, 3), "factory": d.chance(0.3)}


def c_edits(case):
    lines = gen.typed_safe(case["lines"], "ios") if case["factory"] else list(case["lines"])
    p = parse(lines, **({"factory": True} if case["factory"] else {}))
    n = 0
    for op, t in case["ops"]:
        if t in FINE.get(op, ()):
            continue
        n += 1
        before = [x.text for x in p.objs]
        what = "%s of %r with v = %r" % (op, before, VALUES[t])
        raises(lambda: EDITS[op](p, p.objs[0], VALUES[t]), what)
        same([x.text for x in p.objs], before, what + ": the lines afterwards")
    if not n:
        raise Reject()
    return True


SUBS = [Sub("ipv4", g_v4, c_addr(IPv4Obj, v4, 32, "ipv4"), weight=2), Sub("ipv6", g_v6, c_addr(IPv6Obj, v6, 128, "ipv6"), weight=2), Sub("interface", g_intf, c_intf, weight=1),
        Sub("xr", g_xr, c_xr, weight=1),
        Sub("components", g_comp, c_comp, rule="every case", weight=1),
        Sub("range", g_range, c_range, weight=1), Sub("arguments", g_args, c_args, rule="every case", weight=1),
        Sub("edit arguments", g_edits, c_edits, rule="every case", weight=1)]
