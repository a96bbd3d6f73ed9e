"""P18: hierarchical diffs account for every line on both sides."""
import os

from .. import env, gen
from ..ccp import *
from ..core import Reject, Sub
from ..model import Tree, is_blank
from ciscoconfparse.ciscoconfparse import HDiff

RULE = "both configurations have lines, at least one line is kept and at least one is added or removed"
ASSUME = ["paths are compared as sets: a line repeated with the same ancestors counts once",
          "comments stand alone: their path is the comment itself",
          "the counts of the unified header are those of configurations without repeated lines"]


def entries(lines, ignore):
    """[(path, indent, is_comment)] of the distinct lines, in order; path = normalised texts, oldest first"""
    src = [x for x in lines if not (ignore and is_blank(x))]
    full = Tree(lines)
    keep = [i for i, x in enumerate(full.lines) if not (ignore and is_blank(x))]
    norm = [" " * full.indent[i] + " ".join(full.lines[i].split()) for i in range(len(full.lines))]
    out, seen = [], set()
    for i in keep:
        anc = [] if full.comment[i] else full.ancestors(i)
        path = tuple([norm[j] for j in reversed(anc)] + [norm[i]])
        out.append((path, full.indent[i], i))
    return out


def g_edit(d, lines):
    """A variant of a configuration: lines dropped, changed, moved, inserted, re-spaced."""
    out = []
    for x in lines:
        k = d.draw(100)
        if k < 70:
            out.append(x)
        elif k < 78:
            pass
        elif k < 84:
            out.append(x[:len(x) - len(x.lstrip())] + gen.text(d, 1 if x[:1] == " " else 0))
        elif k < 89:
            out.append(x)
            out.append(x[:len(x) - len(x.lstrip())] + d.pick([""] + [" "]) + gen.text(d, 1))
        elif k < 92:
            out.append(x.rstrip() + "  ")
        elif k < 95:
            out.append(x[:len(x) - len(x.lstrip())] + "  ".join(x.split(" ")).strip())
        elif k < 97:
            out.append(" " + x)
        elif k < 99:
            out[d.draw(len(out) + 1):0] = [x]
        else:
            out.append(x)
            out.append(x)
    return out


def g_diff(d):
    syn = d.pick(["ios", "ios", "ios", "nxos"])
    a = gen.config(d, hi=20, avg=d.pick([2, 5, 9]))
    k = d.draw(10)
    if k < 7:
        b = g_edit(d, a)
    elif k < 8:
        b = list(a)
    else:
        b = gen.config(d, hi=12, avg=5)
    if d.chance(0.5):
        a, b = b, a
    return {"a": a, "b": b, "syntax": syn, "ignore": not d.chance(0.15), "objs": d.chance(0.15), "ordered": d.chance(0.1), "as": [g_as(d, a), g_as(d, b)]}


def g_as(d, x):
    how = d.pick(["list", "list", "list", "tuple", "file", "parse"])
    if how == "file" and not (x and x[-1].strip() and all(ord(ch) < 128 and ch not in "\r\n" for t in x for ch in t)):
        how = "list"
    return how


def mk(c, a, b):
    as_a, as_b = ("parse", "parse") if c.get("objs") else c.get("as", ["list", "list"])
    files = []

    def give(x, how, side):
        if how == "parse":
            v = CiscoConfParse(list(x), syntax=c["syntax"], ignore_blank_lines=c["ignore"])
            return v, lambda: snapshot(v)
        if how == "file":
            files.append(os.path.join(env.scratch(), "p18-%s-%d.txt" % (side, os.getpid())))
            with open(files[-1], "w", newline="") as f:
                f.write("".join(t + "\n" for t in x))
            return files[-1], lambda: 0
        v = tuple(x) if how == "tuple" else list(x)
        return v, lambda: list(v)
    (va, sa), (vb, sb) = give(a, as_a, "a"), give(b, as_b, "b")
    before = [sa(), sb()]
    try:
        h = HDiff(va, vb, syntax=c["syntax"], ignore_blank_lines=c["ignore"], ordered_diff=c.get("ordered", False))
    finally:
        for f in files:
            os.unlink(f)
    same([sa(), sb()], before, "configurations after the diff")
    return h


def model(c):
    A, B = entries(c["a"], c["ignore"]), entries(c["b"], c["ignore"])
    pa, pb = {e[0] for e in A}, {e[0] for e in B}
    base, seen = [], set()
    for p, ind, i in A:
        if p not in seen:
            seen.add(p)
            base.append((p, ind, "keep" if p in pb else "remove"))
    adds, seen = [], set()
    for p, ind, i in B:
        if p not in pa and p not in seen:
            seen.add(p)
            adds.append((p, ind))
    return A, B, base, adds


def c_diff(c):
    for x in c["a"] + c["b"]:
        if x.strip().startswith("banner") or "macro name" in x:
            raise Reject()
    A, B, base, adds = model(c)
    h = mk(c, c["a"], c["b"])
    out = h.all_output_dicts
    what = "diff of %r and %r" % (c["a"], c["b"])
    got_base, got_add = [], []
    for e in out:
        same(sorted(e), ["diff_side", "diff_word", "indent", "linenum", "parents", "text"], what + ": keys")
        path = tuple(list(e["parents"]) + [e["text"]])
        if e["diff_word"] == "add":
            same(e["diff_side"], "after", what + ": side of %r" % e["text"])
            got_add.append((path, e["indent"], e["linenum"]))
        else:
            same((e["diff_side"], e["linenum"]), ("before", -1), what + ": side and line number of %r" % e["text"])
            got_base.append((path, e["indent"], e["diff_word"]))
    same(got_base, base, what + ": kept and removed lines in order")
    same(sorted((p, i) for p, i, n in got_add), sorted(adds), what + ": added lines")
    # line numbers of added lines are those of the (first) such line afterwards
    p2 = CiscoConfParse(list(c["b"]), syntax=c["syntax"], ignore_blank_lines=c["ignore"])
    where = {}
    for (p, ind, i), o in zip(B, p2.objs):
        where.setdefault(p, o.linenum)
    for p, i, n in ([] if c["objs"] or c.get("as", [0, 0])[1] == "parse" else got_add):
        same(n, where[p], what + ": line number of added %r" % (p,))
    # an added line which has a parent lies in its parent's block
    paths = [tuple(list(e["parents"]) + [e["text"]]) for e in out]
    for k, e in enumerate(out):
        if e["diff_word"] == "add" and e["parents"]:
            par = tuple(e["parents"])
            if par not in paths:
                raise Violation(what + ": parent of added %r is not listed" % (paths[k],))
            j = paths.index(par)
            require(j < k, what + ": added %r is listed before its parent", paths[k])
            for q, e2 in zip(paths[j + 1:k], out[j + 1:k]):
                require(q[:len(par)] == par and e2["diff_word"] == "add",
                        what + ": added %r is separated from its parent by %r", paths[k], q)
    # the unified form
    sign = {"add": "+", "remove": "-", "keep": " "}
    body = [sign[e["diff_word"]] + e["text"] for e in out]
    same(h.unified_diffs(header=False), body, what + ": unified text")
    full = h.unified_diffs()
    same(full[3:], body, what + ": unified text after the header")
    require(full[0].startswith("--- ") and full[1].startswith("+++ ") and full[2].startswith("@@ "), what + ": header %r", full[:3])
    pa, pb = {e[0] for e in A}, {e[0] for e in B}
    rm, ad = [k for k, e in enumerate(A) if e[0] not in pb], [k for k, e in enumerate(B) if e[0] not in pa]
    if len(pa) == len(A) and len(pb) == len(B):  # the header counts a repeated line as removed
        same(full[2], "@@ -%d,%d +%d,%d @@" % (len(rm), rm[0] + 1 if rm else 0, len(ad), ad[0] + 1 if ad else 0), what + ": header")
    kept = [e for e in base if e[2] == "keep"]
    if kept and (adds or len(kept) < len(base)):
        return "mixed"
    if c["a"] and c["b"]:
        return "same" if not adds and len(kept) == len(base) else "disjoint"
    return None


def c_self(c):
    A = entries(c["a"], c["ignore"])
    respaced = [x.rstrip() + "  " if k % 2 else x[:len(x) - len(x.lstrip())] + "   ".join(x.split()) for k, x in enumerate(c["a"])]
    if any(is_blank(x) for x in c["a"]):
        respaced = c["a"]
    for b in (c["a"], respaced):
        h = mk(c, c["a"], b)
        bad = [e for e in h.all_output_dicts if e["diff_word"] != "keep"]
        same(bad, [], "changes between %r and %r" % (c["a"], b))
        same(len(h.all_output_dicts), len({e[0] for e in A}), "lines in the diff of %r with itself" % c["a"])
    return len(A) > 1


SUBS = [Sub("diff", g_diff, c_diff, RULE, 4),
        Sub("self", g_diff, c_self, "two or more lines", 1)]
