import re

from ..ccp import *
from ..core import Reject, Sub
from ..edits import *
from ..search import *
from .. import gen


def remaining(tree, hits):
    gone = set(hits)
    for i in hits:
        gone.update(tree.descendants(i))
    return [i for i in range(len(tree.lines)) if i not in gone]


def finish(p, objs, tree, keep, c, what, committed=False):
    """keep: indexes (into the model tree) which must be left, in order."""
    left = list(p.objs)
    want = [tree.lines[i] for i in keep]
    same([o.text for o in left], want, what + ": lines left")
    nums = [o.linenum for o in left]
    require(all(a < b for a, b in zip(nums, nums[1:])), what + ": line numbers %r", nums)
    if len(keep) < len(tree.lines):
        same(nums, list(range(len(keep))), what + ": line numbers after a deletion")
    if not committed:
        for k, i in enumerate(keep):
            require(left[k] is objs[i], what + ": line %d is another object", k)
            q = tree.parent[i]
            if q is not None and q in keep:
                require(left[k].parent is objs[q], what + ": parent of the remaining line %r changed", left[k])
        p.commit()
    t, idx = delivered(want, c["ignore"], c["factory"], c.get("comment", "!"))
    check_tree(p, t, what + " after commit")
    same([o.linenum for o in p.objs], idx, what + ": line numbers after commit")


def g_lines(d):
    c = g_config(d)
    c["spec"], c["ws"], c["exact"] = opts(d, c["lines"])
    c["how"] = d.pick(["lines", "objs", "objs_rev"])
    return c


def c_lines(c):
    p, objs, tree, pos = load(c)
    spec, W, E = c["spec"], c["ws"], c["exact"]
    f = rx(spec, W, E)
    hits = [i for i, t in enumerate(tree.lines) if f(t)]
    kw = {}
    if W:
        kw["ignore_ws"] = True
    if E:
        kw["exactmatch"] = True
    what = "delete_lines(%r, %r) [%s] on %r" % (spec, kw, c["how"], tree.lines)
    if c["how"] == "lines":
        p.delete_lines(spec, **kw)
    else:
        found = p.find_objects(spec, **kw)
        for o in (found if c["how"] == "objs" else reversed(found)):
            o.delete()
    keep = remaining(tree, hits)
    finish(p, objs, tree, keep, c, what)
    hs = set(hits)
    return any(hs & set(tree.ancestors(i)) for i in hits) or (len(hits) > 1 and len(keep) > 1)


def g_objs(d):
    c = g_config(d)
    c["at"] = d.list(lambda: [d.draw(60), d.chance(0.8)], 1, 6, 2)
    return c


def c_objs(c):
    """Lines deleted one after another through their objects, with or without their descendants."""
    p, objs, tree, pos = load(c)
    n = len(objs)
    if not n:
        return False
    gone = set()
    for at, rec in c["at"]:
        i = at % n
        if i in gone:
            continue
        if rec:
            objs[i].delete()
            gone.update([i] + tree.descendants(i))
        else:
            objs[i].delete(recurse=False)
            gone.add(i)
        keep = [k for k in range(n) if k not in gone]
        same([o.text for o in p.objs], [tree.lines[k] for k in keep], "after deleting line %d (recurse=%s) of %r, deleted %r" % (
            i, rec, tree.lines, sorted(gone)))
        same([o.linenum for o in p.objs], list(range(len(keep))), "line numbers after deleting line %d of %r" % (i, tree.lines))
    finish(p, objs, tree, keep, c, "delete %r of %r" % (c["at"], tree.lines))
    return len(gone) > 1 and bool(keep)


def g_kids(d):
    c = g_config(d)
    c["spec"] = gen.pattern(d, c["lines"])
    c["at"] = d.draw(60)
    return c


def c_kids(c):
    p, objs, tree, pos = load(c)
    n = len(objs)
    if not n:
        return False
    i = c["at"] % n
    ps = [k for k in range(n) if tree.children[k]]
    if ps and c["at"] % 4:
        i = ps[c["at"] % len(ps)]
    plain(c["spec"], tree.lines)
    hits = [k for k in tree.children[i] if re.search(c["spec"], tree.lines[k]) and tree.lines[k] != ""]
    what = "delete_children_matching(%r) on line %d of %r" % (c["spec"], i, tree.lines)
    got = objs[i].delete_children_matching(c["spec"])
    same(idx(pos, got, what), hits, what + " returned")
    finish(p, objs, tree, remaining(tree, hits), c, what)
    return bool(hits) and len(hits) < n - 1


def g_item(d):
    c = g_config(d)
    c["at"] = d.draw(60)
    return c


def c_item(c):
    """del parse.ConfigObjs[i] removes line i and reparses."""
    p, objs, tree, pos = load(c)
    n = len(objs)
    if not n:
        return False
    i = c["at"] % n
    del p.ConfigObjs[i]
    want = [t for k, t in enumerate(tree.lines) if k != i]
    t, ix = delivered(want, c["ignore"], c["factory"], c.get("comment", "!"))
    check_tree(p, t, "del ConfigObjs[%d] of %r" % (i, tree.lines))
    same([o.linenum for o in p.objs], ix, "line numbers after del ConfigObjs[%d] of %r" % (i, tree.lines))
    return n > 2


SUBS = [Sub("matching", g_lines, c_lines, weight=3), Sub("objects", g_objs, c_objs, weight=3), Sub("children", g_kids, c_kids, weight=2),
        Sub("item", g_item, c_item)]
RULE = "Random configurations x deletions; non-trivial = nested or several matches with lines left over."
ASSUME = ["banners, macros and brace-delimited syntaxes are not edited"]
