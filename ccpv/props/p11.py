from ..ccp import *
from ..core import Sub, raises
from ..search import *
from .. import gen


def g_fam(d):
    c = g_config(d)
    c["spec"], c["ws"], c["exact"] = opts(d, c["lines"])
    return c


def c_fam(c):
    p, objs, tree, pos = load(c)
    spec, W, E = c["spec"], c["ws"], c["exact"]
    f = rx(spec, W, E)
    hits = [i for i, t in enumerate(tree.lines) if f(t)]
    kw = {}
    if W:
        kw["ignore_ws"] = True
    if E:
        kw["exactmatch"] = True
    what = "(%r, %r) on %r" % (spec, kw, tree.lines)
    L = tree.lines
    w1 = sorted(set(hits) | {k for i in hits for k in tree.children[i]})
    same(list(p.find_children(spec, **kw)), [L[i] for i in w1], "find_children" + what)
    w2 = sorted(set(hits) | {k for i in hits for k in tree.descendants(i)})
    same(list(p.find_all_children(spec, **kw)), [L[i] for i in w2], "find_all_children" + what)
    blk = set(hits)
    for i in hits:
        blk.update(tree.children[i if tree.parent[i] is None else tree.parent[i]])
    for i in list(blk):
        blk.update(tree.ancestors(i))
    same(list(p.find_blocks(spec, **kw)), [L[i] for i in sorted(blk)], "find_blocks" + what)
    if not W:
        if len(hits) == 1:
            i = hits[0]
            lin = sorted(tree.ancestors(i) + [i] + tree.descendants(i))
            same(list(p.find_lineage(spec, **kw)), [L[k] for k in lin], "find_lineage" + what)
        elif len(hits) > 1:
            raises(lambda: p.find_lineage(spec, **kw), "find_lineage with several matches" + what)
    return bool(hits) and len(w2) > len(hits)


def g_one(d):
    """A unique target, deep families."""
    c = g_config(d, blanks=False)
    c["at"] = d.draw(40)
    return c


def c_one(c):
    lines = list(c["lines"])
    if not lines:
        return False
    at = c["at"] % len(lines)
    if not lines[at].strip() or lines[at].strip()[0] == "!":
        return False
    ind = len(lines[at]) - len(lines[at].lstrip())
    lines[at] = " " * ind + "uniq target"
    c = dict(c, lines=lines, spec="uniq target", ws=False, exact=False)
    return c_fam(c)


SUBS = [Sub("families", g_fam, c_fam, weight=3), Sub("unique", g_one, c_one)]
RULE = "Random configurations x patterns; non-trivial = a match with descendants beyond the matches."
