import re

from ..ccp import *
from ..core import Reject, Sub
from ..search import *
from .. import gen
from ciscoconfparse.ccp_util import IPv4Obj

TYPES = {"str": str, "int": int, "float": float, "ip": IPv4Obj, "bool": bool, "len": lambda v: v.upper()}
RX = [r"(\S+)", r"(\d+)", r"\s(\S+)$", r"^\s*(\S+)\s+(\S+)", r"(\w)(\w*)", r"(?P<a>\d+)", r"(?P<a>\S+)\s+(?P<b>\S+)",
      r"^(\s*)(\S)", r"(a|b)", r"ip address (\S+)\s", r"ip address (\S+ \S+)", r"interface\s+(\S+)", r"vlan (\d+)",
      r"(?P<a>[a-z]+) (?P<b>\d+)", r"zzz(\d)", r"description (.*)$", r"(?P<a>\w+)$", r"^(?P<a>\S+)", r"^\s+(?P<a>\S+)",
      r"(?P<b>\d+)\D*$", r"(x)", r"foo()", r"(^)", r"((a)(b)?)", r"(a)|(b)", r"(\d)|(\w+)$", r"^\s*(\D*)(\d+)?$", r"(?i)(FOO)", r"(1)", r"^(0)$", r"(2)(?P<a>.*)"]


def g_rx(d, lines):
    k = d.draw(10)
    t = [x.strip() for x in lines if x.strip()]
    if k < 5 or not t:
        return d.pick(RX)
    w = d.pick(t).split()
    i = d.draw(len(w))
    parts = [re.escape(x) for x in w]
    v = d.draw(4)
    if v == 0:
        parts[i] = r"(\S+)"
    elif v == 1:
        parts[i] = r"(?P<a>\S+)"
    elif v == 2:
        parts = ["(" + parts[i] + ")"]
    else:
        parts[i] = r"(?P<a>\S+)"
        if i + 1 < len(parts):
            parts[i + 1] = r"(?P<b>\S+)"
    return r"\s+".join(parts)


def g_ext(d):
    c = g_config(d)
    c["rx"] = g_rx(d, c["lines"])
    c["comp"] = d.chance(0.3)
    c["type"] = d.pick(["str", "str", "int", "int", "float", "ip", "bool", "len"])
    c["group"] = d.pick([1, 1, 1, 0, 2])
    c["default"] = d.pick(["", "0", "-1", "7", "zz", "1", "2", "3.3.3.3", "a", "foo", None, -1, False, 0])
    c["untyped"] = d.chance(0.5)
    c["at"] = d.draw(30)
    return c


def conv(f, *a):
    try:
        return ("value", f(*a))
    except Exception as e:
        return ("error", type(e).__name__)


def norm(r):
    k, v = r
    if k == "error":
        return (k,)
    if isinstance(v, dict):
        return (k, sorted((a, type(b).__name__, str(b)) for a, b in v.items()))
    return (k, type(v).__name__, str(v))


def agree(call, want, what):
    same(norm(conv(call)), norm(want), what)


def c_ext(c):
    p, objs, tree, pos = load(c)
    L = tree.lines
    r = re.compile(c["rx"])
    if c["group"] > r.groups:
        raise Reject()
    arg = r if c["comp"] else c["rx"]
    T = TYPES[c["type"]]
    de = c["default"]
    kw = {"group": c["group"], "result_type": T, "default": de}
    typed_def = ("value", de) if c["untyped"] else conv(T, de)
    nt = False

    def want(scope):
        for i in scope:
            m = r.search(L[i])
            if m and m.group(c["group"]) is not None:  # a group which took no part in the match is no match
                return conv(T, m.group(c["group"])), True
        return typed_def, False

    ats = sorted({(c["at"] + k * 7) % len(L) for k in range(6)}) if L else []
    for i in ats:
        o = objs[i]
        what = " with %r %r on line %d of %r" % (c["rx"], {**kw, "untyped_default": c["untyped"]}, i, L)
        m = r.search(L[i])
        if m and m.group(c["group"]) is not None:
            same(o.re_match(arg, group=c["group"], default=de), m.group(c["group"]), "re_match" + what)
        elif not m:
            same(o.re_match(arg, group=c["group"], default=de), de, "re_match" + what)
        w, _ = want([i])
        agree(lambda: o.re_match_typed(arg, untyped_default=c["untyped"], **kw), w, "re_match_typed" + what)
        for rec in (True, False):
            sc = [i] + (tree.descendants(i) if rec else list(tree.children[i]))
            w, hit = want(sc)
            agree(lambda: o.re_match_iter_typed(arg, untyped_default=c["untyped"], recurse=rec, **kw), w,
                  "re_match_iter_typed(recurse=%s)" % rec + what)
            if hit and not m:
                nt = True
    roots = [i for i in range(len(L)) if tree.parent[i] is None]
    w, hit = want(roots)
    agree(lambda: p.re_match_iter_typed(arg, untyped_default=c["untyped"], **kw), w,
          "CiscoConfParse.re_match_iter_typed with %r %r on %r" % (c["rx"], kw, L))
    return nt


def g_dict(d):
    c = g_config(d)
    for _ in range(4):
        c["rx"] = g_rx(d, c["lines"])
        if "?P<" in c["rx"]:
            break
    c["types"] = d.pick([{"a": "str"}, {"a": "int"}, {"a": "str", "b": "str"}, {"a": "float", "b": "int"}, {"b": "str"},
                         {"a": "int", "b": "str"}, {"a": "str", "c": "int"}, {"a": None, "b": "int"}])
    c["default"] = d.pick(["", "_no_match", "0", "1", "2", "10", "a", "foo", "100"])
    c["at"] = d.draw(30)
    return c


def c_dict(c):
    p, objs, tree, pos = load(c)
    L = tree.lines
    r = re.compile(c["rx"])
    if not r.groupindex:
        return False
    de = c["default"]
    types = {k: (None if v is None else TYPES[v]) for k, v in c["types"].items()}

    def build(m):
        out = {}
        for k, t in types.items():
            v = m.groupdict().get(k) if m else None
            out[k] = de if v is None else (v if t is None else t(v))
        return out

    nt = False
    for i in (sorted({(c["at"] + k * 7) % len(L) for k in range(8)}) if L else []):
        o = objs[i]
        for rec in (True, False):
            sc = [i] + (tree.descendants(i) if rec else list(tree.children[i]))
            m, at = None, None
            for k in sc:
                m = r.search(L[k])
                if m:
                    at = k
                    break
            what = "re_match_iter_typed(%r, groupdict=%r, default=%r, recurse=%s) on line %d of %r" % (
                c["rx"], c["types"], de, rec, i, L)
            agree(lambda: o.re_match_iter_typed(c["rx"], groupdict=types, default=de, recurse=rec), conv(build, m), what)
            if at not in (None, i):
                nt = True
    return nt


SUBS = [Sub("groups", g_ext, c_ext, weight=3), Sub("named", g_dict, c_dict, weight=2)]
RULE = "Random configurations x regular expressions x types x defaults; non-trivial = the value comes from a child or descendant."
ASSUME = ["the requested group takes part in the match; keys of the type dictionary not named in the expression yield the default"]
