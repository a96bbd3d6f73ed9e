from ..ccp import *
from ..core import Sub
from ..gen import config, typed_safe

SYN = ["ios", "nxos", "iosxr", "asa"]


def g_rel(d):
    syn, fac = d.pick(SYN), d.chance(0.25)
    lines = config(d)
    if fac:
        lines = typed_safe(lines, syn)
    return {"lines": lines, "ignore": not d.chance(0.4), "factory": fac, "syntax": syn}


def c_rel(c):
    p = parse(c["lines"], syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"])
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}

    def idx(seq, what):
        out = []
        for o in seq:
            if id(o) not in pos:
                raise Violation("%s contains an object outside the configuration" % what)
            out.append(pos[id(o)])
        return out

    par = []
    for i, o in enumerate(objs):
        (k,) = idx([o.parent], "parent")
        par.append(None if k == i else k)
        require(k <= i, "parent of line %d is the later line %d", i, k)
    kids = [[] for _ in objs]
    for i, k in enumerate(par):
        if k is not None:
            kids[k].append(i)

    def anc(i):
        out = []
        while par[i] is not None:
            i = par[i]
            out.append(i)
        return out

    def desc(i):
        out = []
        for k in kids[i]:
            out.append(k)
            out.extend(desc(k))
        return sorted(out)

    for i, o in enumerate(objs):
        w = "of line %d %r in %r" % (i, o.text, c["lines"])
        same(idx(o.children, "children"), kids[i], "children " + w)
        D, A = desc(i), sorted(anc(i))
        same(idx(o.all_children, "all_children"), D, "all_children " + w)
        same(idx(o.all_parents, "all_parents"), A, "all_parents " + w)
        same(idx(o.lineage, "lineage"), sorted(A + [i] + D), "lineage " + w)
        same(idx(o.geneology, "geneology"), A + [i], "geneology " + w)
        same(list(o.geneology_text), [objs[k].text for k in A + [i]], "geneology_text " + w)
        same(list(o.ioscfg), [objs[k].text for k in [i] + D], "ioscfg " + w)
        same(o.is_child, par[i] is not None, "is_child " + w)
        same(o.is_parent, bool(kids[i]), "is_parent " + w)
        same(o.has_children, bool(kids[i]), "has_children " + w)
        same(o.family_endpoint, objs[D[-1]].linenum if D else o.linenum, "family_endpoint " + w)
        if par[i] is not None:
            sib = [k for k in kids[par[i]] if objs[k].indent == o.indent]
            same(idx(o.siblings, "siblings"), sib, "siblings " + w)
        same(o.is_config_line, bool(o.text.strip()) and o.text.strip()[0] != "!", "is_config_line " + w)
        same(o.is_comment is True, o.text.strip()[:1] == "!", "is_comment " + w)
        if c["factory"] is False:
            same(len(o), len(o.text), "len() " + w)
        for k in (0, i, len(objs) - 1):
            same(o == objs[k], k == i, "line %d == line %d" % (i, k))
            same(o < objs[k], i < k, "line %d < line %d" % (i, k))
            same(o > objs[k], i > k, "line %d > line %d" % (i, k))
    # hashing distinguishes lines
    same(len(set(objs)), len(objs), "number of distinct line objects")
    # the hash of the descendants depends on all of them
    deep = [i for i in range(len(objs)) if len(desc(i)) > len(kids[i])]
    if deep:
        i = deep[-1]
        k = [x for x in desc(i) if par[x] != i][-1]
        texts = [o.text for o in objs]

        def again(t):
            q = list(parse(t, syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"]).objs)
            return [o.hash_children for o in q], [o.parent.linenum for o in q]
        h, up = again(texts)
        h2, up2 = again(texts)
        same(h2, h, "hash_children of two parses of %r" % texts)
        h3, up3 = again(texts[:k] + [texts[k] + "x"] + texts[k + 1:])
        if up3 == up:
            for x in range(len(h)):
                same(h3[x] != h[x], k in desc(x), "hash_children of line %d of %r tells a changed line %d" % (x, texts, k))
    return len(objs) >= 3 and any(x is not None for x in par)


def g_long(d):
    """Duplicate-heavy text whose leading digits may be confused with line numbers."""
    n = 10 + d.draw(30)
    lines = []
    for _ in range(n):
        lines.append(" " * d.draw(3) + d.pick(["1", "2", "0", "12", "1 a", "a", "2 a", "11 a", "1a"]))
    return {"lines": lines, "ignore": True, "factory": False, "syntax": "ios"}


SUBS = [Sub("relations", g_rel, c_rel, weight=3), Sub("numeric", g_long, c_rel)]
RULE = "Random configurations; every relation of every line recomputed from the parent links; non-trivial = >=3 lines and a parent."
