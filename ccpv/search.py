"""Common pieces of the search properties: cases and enumeration oracles over the reference tree."""
import re

from . import gen
from .ccp import *  # noqa: F401,F403
from .core import Reject

SYN = ["ios", "nxos", "iosxr", "asa"]


def g_config(d, **kw):
    syn, fac = d.pick(SYN), d.chance(0.1)
    comment = d.weighted([(8, "!"), (1, "#"), (1, "!#")])
    lines = gen.config(d, comment=comment, **kw)
    if fac:
        lines = gen.typed_safe(lines, syn)
    return {"lines": lines, "syntax": syn, "factory": fac, "ignore": not d.chance(0.25), "comment": comment}


def load(c):
    p = parse(c["lines"], syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"], comment=c.get("comment", "!"))
    tree, _ = delivered(c["lines"], c["ignore"], c["factory"], c.get("comment", "!"))
    check_tree(p, tree, "parse")
    objs = list(p.objs)
    return p, objs, tree, {id(o): i for i, o in enumerate(objs)}


def idx(pos, objs, what):
    out = []
    for o in objs:
        if id(o) not in pos:
            raise Violation("%s returned an object which is not in the configuration: %r" % (what, o))
        out.append(pos[id(o)])
    return out


def ws(spec):
    return re.sub(r"\s+", lambda m: r"\s+", spec)


def rx(spec, ignore_ws=False, exact=False, escape=False):
    if ignore_ws:
        spec = ws(spec)
    if escape:
        spec = re.escape(spec)
    r = re.compile(spec)
    return r.fullmatch if exact else r.search


def plain(spec, texts):
    """Reject patterns whose own text occurs literally in a line which they do not match as expressions:
    line searches treat such an occurrence as a match, documented as a shortcut."""
    r = re.compile(spec)
    for t in texts:
        if spec in t and not r.search(t):
            raise Reject()


def words(d, lines, comment="!"):
    """A pattern without regular-expression escapes that contains plain blanks (for whitespace-insensitive search)."""
    t = [x.strip() for x in lines if x.strip() and re.match(r"^[\w \-/:]+$", x.strip())]
    if t and d.chance(0.85):
        w = d.pick(t).split()
        a = d.draw(len(w))
        b = a + 1 + d.draw(len(w) - a)
        s = " ".join(w[a:b])
        if d.chance(0.15):
            s = s.replace(" ", "  ")
        if d.chance(0.2):
            s = " " + s
        if d.chance(0.1):
            s = "^" + s
        return s
    return d.pick(["a b", "foo bar", "a", "^a b", "foo  bar", "ip address", "no shutdown"])


def opts(d, lines):
    """(pattern, ignore_ws, exact)"""
    k = d.draw(10)
    if k < 2:
        return words(d, lines), True, d.chance(0.3)
    if k < 4:
        p = gen.pattern(d, lines)
        if "(?i)" in p:
            p = "a"
        if d.chance(0.4) and lines:
            t = d.pick(lines).rstrip()
            p = re.escape(t) if t else "a"
            if d.chance(0.4):
                p = p + "|" + re.escape(d.pick(lines).rstrip())
        return p, False, True
    return gen.pattern(d, lines), False, False
