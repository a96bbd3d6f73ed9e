from ..ccp import *
from ..core import Sub
from ..search import *
from .. import gen


def g_child(d):
    c = g_config(d)
    if d.chance(0.15):
        c["parent"], c["child"], c["ws"] = words(d, c["lines"]), words(d, c["lines"]), True
    else:
        c["parent"], c["child"], c["ws"] = gen.pattern(d, c["lines"]), gen.pattern(d, c["lines"]), False
    return c


def c_child(c):
    p, objs, tree, pos = load(c)
    P, C, W = c["parent"], c["child"], c["ws"]
    plain(ws(C) if W else C, tree.lines)
    plain(ws(P) if W else P, tree.lines)
    fp, fc = rx(P, W), rx(C, W)
    direct, anyanc = [], []
    for i, t in enumerate(tree.lines):
        if not fc(t):
            continue
        anc = tree.ancestors(i)
        if anc and fp(tree.lines[anc[0]]):
            direct.append(i)
        if any(fp(tree.lines[k]) for k in anc):
            anyanc.append(i)
    kw = {"ignore_ws": True} if W else {}
    what = "(%r, %r, %r) on %r" % (P, C, kw, tree.lines)
    same(idx(pos, p.find_child_objects(P, C, **kw), "find_child_objects"), direct, "find_child_objects" + what)
    same(idx(pos, p.find_objects_w_parents(P, C, **kw), "find_objects_w_parents"), direct, "find_objects_w_parents" + what)
    same(idx(pos, p.find_child_objects(P, C, recurse=True, **kw), "find_child_objects"), anyanc, "find_child_objects recurse" + what)
    same(idx(pos, p.find_child_objects([P, C], **kw), "find_child_objects"), direct, "find_child_objects with a list" + what)
    same(list(p.find_children_w_parents(P, C, **kw)), [tree.lines[i] for i in anyanc], "find_children_w_parents" + what)
    if not W:
        for i in [i for i, t in enumerate(tree.lines) if fp(t)][:4]:
            for rec in (False, True):
                ks = [k for k in (tree.descendants(i) if rec else tree.children[i]) if fc(tree.lines[k]) and tree.lines[k]]
                same(idx(pos, objs[i].re_search_children(C, recurse=rec), "re_search_children"), ks,
                     "re_search_children(%r, %r) of line %d of %r" % (C, rec, i, tree.lines))
    return bool(anyanc) and len(anyanc) < sum(1 for t in tree.lines if fc(t))


def g_lit(d):
    c = g_config(d)
    c["parent"], c["child"], c["recurse"] = gen.literal(d, c["lines"]), gen.literal(d, c["lines"]), d.chance(0.5)
    return c


def c_lit(c):
    p, objs, tree, pos = load(c)
    R = c["recurse"]

    def want(P, C):
        return [i for i, t in enumerate(tree.lines) if C in t and any(
            P in tree.lines[k] for k in (tree.ancestors(i) if R else tree.ancestors(i)[:1]))]
    P, C = c["parent"], c["child"]
    w = want(P, C)
    same(idx(pos, p.find_child_objects(P, C, recurse=R, escape_chars=True), "find_child_objects"), w,
         "find_child_objects(%r, %r, recurse=%r, escaped) on %r" % (P, C, R, tree.lines))
    pairs = [(i, k) for i in range(len(objs)) for k in tree.children[i]][:3]
    for i, k in pairs:
        PT, CT = tree.lines[i], tree.lines[k]
        same(idx(pos, p.find_child_objects(objs[i], objs[k], recurse=R, escape_chars=True), "find_child_objects"), want(PT, CT),
             "find_child_objects given line objects %r, %r on %r" % (PT, CT, tree.lines))
    return bool(w)


SUBS = [Sub("children", g_child, c_child, weight=2), Sub("literal", g_lit, c_lit)]
RULE = "Random configurations x pairs of patterns; non-trivial = some but not all lines that match the child pattern qualify."
