import os
import pathlib
from collections import UserList, deque

from ..ccp import *
from ..core import Sub
from .. import env, gen
from . import p06

SYN = ["ios", "nxos", "iosxr", "asa"]
ENC = ["utf-8", "utf-8", "latin-1", "utf-16", "ascii"]


def g(d):
    syn, fac = d.pick(SYN), d.chance(0.25)
    com = d.pick(["!", "!", "!", "#", "!#"])
    if d.chance(0.12):
        syn, com = "junos", "#"
        lines = p06.render(p06.g_tree(d))[0]
    else:
        lines = gen.config(d, hi=60, comment=com)
        if d.chance(0.2):
            at = d.draw(len(lines) + 1)
            lines[at:at] = gen.banner(d)["lines"]
        if fac:
            lines = gen.typed_safe(lines, syn)
    enc = d.pick(ENC)
    lines = [x.replace("\r", "") for x in lines]
    if enc in ("latin-1", "ascii"):
        lines = [x.encode(enc, "replace").decode(enc) for x in lines]
    return {"lines": lines, "syntax": syn, "factory": fac, "ignore": not d.chance(0.4), "nl": d.pick(["\n", "\r\n"]),
            "enc": enc, "path": d.chance(0.5), "last": d.chance(0.3), "comment": com, "mixed": d.chance(0.1)}


def c(case):
    lines = case["lines"]
    kw = dict(syntax=case["syntax"], factory=case["factory"], ignore_blank_lines=case["ignore"], comment=case.get("comment", "!"))
    ref = CiscoConfParse(list(lines), **kw)
    snap = snapshot(ref)
    same(snapshot(CiscoConfParse(tuple(lines), **kw)), snap, "tuple of lines vs list of lines")
    for other in (UserList, deque):
        same(snapshot(CiscoConfParse(other(lines), **kw)), snap, "%s of lines vs list of lines" % other.__name__)
    fn = os.path.join(env.scratch(), "p02-%d.txt" % os.getpid())
    nl = case["nl"]
    data = nl.join(lines) + (nl if lines else "")
    if case["last"] and lines and lines[-1] != "":
        data = nl.join(lines)
    if case.get("mixed"):  # every other line ends in the other way
        parts = data.split(nl)
        data = "".join(x + (["\n", "\r\n"][i % 2] if i < len(parts) - 1 else "") for i, x in enumerate(parts))
    with open(fn, "wb") as f:
        f.write(data.encode(case["enc"]))
    src = pathlib.Path(fn) if case["path"] else fn
    p = CiscoConfParse(src, encoding=case["enc"], **kw)
    same(snapshot(p), snap, "file (%s, newline %r) vs list" % (case["enc"], nl))
    with open(fn, "rb") as f:
        same(f.read(), data.encode(case["enc"]), "the source file after parsing")
    # round trip
    out = os.path.join(env.scratch(), "p02-%d.out" % os.getpid())
    if len(lines) % 2:  # saving replaces what is there
        with open(out, "w", encoding="ascii") as f:
            f.write("! something longer\n" * (len(lines) + 20) + "interface Old1\n old\n")
    r = p.save_as(pathlib.Path(out) if case["path"] else out)
    same(bool(r), True, "result of save_as")
    with open(out, "r", encoding=case["enc"]) as f:
        saved = f.read()
    want = p.ioscfg
    same(saved.split("\n")[:-1] if saved else [], list(want), "saved file")
    same(snapshot(p), snap, "configuration after saving")
    if case["syntax"] == "junos":  # the saved text has no braces any more
        os.unlink(out)
        os.unlink(fn)
        return len(lines) >= 2
    again = CiscoConfParse(out, encoding=case["enc"], **kw)
    fresh = CiscoConfParse(list(want), **kw)
    same(snapshot(again), snapshot(fresh), "saved file vs list of its lines")
    if not (case["ignore"] and case["factory"] is False and any(len(x) == 0 for x in want)):
        same(list(again.ioscfg), list(want), "lines after save and parse")
        a, b = list(p.objs), list(again.objs)
        apos = {id(o): i for i, o in enumerate(a)}
        bpos = {id(o): i for i, o in enumerate(b)}
        for x, y in zip(a, b):
            if x.is_config_line:
                same(bpos[id(y.parent)], apos[id(x.parent)], "parent of %r after save and parse" % x.text)
    os.unlink(out)
    os.unlink(fn)
    return len(lines) >= 2


def g_enc(d):
    lines = [x.replace("\r", "") for x in gen.config(d, hi=20, comment="!")]
    for _ in range(d.draw(4)):
        if lines:
            i = d.draw(len(lines))
            lines[i] += d.pick(["\u00e9", "\u20ac", "\u4e2d", "\u00df x", "\ufffd", "?"])
    return {"lines": lines, "enc": d.pick(["ascii", "latin-1", "cp1252", "utf-8"]), "read": d.pick(["ascii", "utf-8", "cp1252", "latin-1"]), "syntax": d.pick(["ios", "nxos", "asa"])}


def c_enc(case):
    """A text which the encoding cannot express is refused, never replaced."""
    fn = os.path.join(env.scratch(), "p02-%d.enc" % os.getpid())
    lines, enc, read = case["lines"], case["enc"], case["read"]
    kw = dict(syntax=case["syntax"], ignore_blank_lines=False)
    text = "".join(x + "\n" for x in lines)
    try:
        raw = text.encode(enc)
    except UnicodeEncodeError:
        raw = None
    p = CiscoConfParse(list(lines), encoding=enc, **kw)
    keep = list(p.ioscfg)
    want = "".join(x + "\n" for x in keep)
    try:
        p.save_as(fn)
        with open(fn, "rb") as f:
            got = f.read()
        require(raw is not None, "saving %r as %s wrote %r", want, enc, got)
        same(got, want.encode(enc), "file saved as %s" % enc)
    except (OSError, ValueError):
        require(raw is None, "saving %r as %s was refused", want, enc)
    same(list(p.ioscfg), keep, "configuration after saving")
    raw = text.encode("utf-8") if raw is None else raw
    with open(fn, "wb") as f:
        f.write(raw)
    try:
        text = raw.decode(read)
    except UnicodeDecodeError:
        text = None
    try:
        q = CiscoConfParse(fn, encoding=read, **kw)
        require(text is not None, "%r was read as %s: %r", raw, read, q.ioscfg)
        if not set(text) & set("\x85\x0b\x0c\x1c\x1d\x1e\u2028\u2029"):
            same(snapshot(q), snapshot(CiscoConfParse(text.split("\n")[:-1], **kw)), "file read as %s" % read)
    except (OSError, ValueError):
        require(text is None, "%r was not read as %s", raw, read)
    os.unlink(fn)
    return len(lines) >= 2


SUBS = [Sub("sources", g, c, weight=3), Sub("encodings", g_enc, c_enc)]
RULE = "Random configuration written as list, tuple, LF/CRLF file in an encoding, then saved and re-parsed; non-trivial = two lines or more."
