import re

from ..ccp import *
from ..core import Sub
from ..search import *
from .. import gen


def g_par(d):
    c = g_config(d)
    if d.chance(0.15):
        c["parent"], c["child"], c["ws"] = words(d, c["lines"]), words(d, c["lines"]), True
    else:
        c["parent"], c["child"], c["ws"] = gen.pattern(d, c["lines"]), gen.pattern(d, c["lines"]), False
    c["recurse"] = d.chance(0.5)
    return c


def c_par(c):
    p, objs, tree, pos = load(c)
    P, C, W, R = c["parent"], c["child"], c["ws"], c["recurse"]
    plain(ws(C) if W else C, tree.lines)
    fp, fc = rx(P, W), rx(C, W)

    def has(i, rec):
        return any(fc(tree.lines[k]) for k in (tree.descendants(i) if rec else tree.children[i]))
    cand = [i for i, t in enumerate(tree.lines) if fp(t)]
    w = [i for i in cand if has(i, R)]
    wo = [i for i in cand if not has(i, R)]
    kw = {"ignore_ws": True} if W else {}
    kr = dict(kw, recurse=R)
    what = "(%r, %r, %r) on %r" % (P, C, kr, tree.lines)
    same(idx(pos, p.find_parent_objects(P, C, **kr), "find_parent_objects"), w, "find_parent_objects" + what)
    same(idx(pos, p.find_objects_w_child(P, C, **kr), "find_objects_w_child"), w, "find_objects_w_child" + what)
    same(idx(pos, p.find_parent_objects([P, C], **kr), "find_parent_objects"), w, "find_parent_objects with a list" + what)
    same(idx(pos, p.find_parent_objects_wo_child(P, C, **kr), "find_parent_objects_wo_child"), wo, "find_parent_objects_wo_child" + what)
    same(idx(pos, p.find_objects_wo_child(P, C, **kr), "find_objects_wo_child"), wo, "find_objects_wo_child" + what)
    d1 = [tree.lines[i] for i in cand if has(i, False)]
    d0 = [tree.lines[i] for i in cand if not has(i, False)]
    same(list(p.find_parents_w_child(P, C, **kw)), d1, "find_parents_w_child" + what)
    same(list(p.find_parents_wo_child(P, C, **kw)), d0, "find_parents_wo_child" + what)
    if not W:
        for i in cand[:4]:
            same(bool(objs[i].has_child_with(C)), has(i, False), "has_child_with(%r) of line %d of %r" % (C, i, tree.lines))
            same(bool(objs[i].has_child_with(C, all_children=True)), has(i, True), "has_child_with(%r, all_children) of line %d of %r" % (
                C, i, tree.lines))
    return bool(w) and bool(wo)


def g_multi(d):
    c = g_config(d)
    if d.chance(0.15):
        c["parent"], c["children"], c["ws"] = words(d, c["lines"]), d.list(lambda: words(d, c["lines"]), 1, 4, 2), True
    else:
        c["parent"], c["children"], c["ws"] = gen.pattern(d, c["lines"]), d.list(lambda: gen.pattern(d, c["lines"]), 1, 4, 2), False
    c["recurse"] = d.chance(0.5)
    return c


def c_multi(c):
    p, objs, tree, pos = load(c)
    P, CH, W, R = c["parent"], c["children"], c["ws"], c["recurse"]
    for C in CH:
        plain(ws(C) if W else C, tree.lines)
    fp, fcs = rx(P, W), [rx(C, W) for C in CH]

    def allof(i, rec):
        ks = tree.descendants(i) if rec else tree.children[i]
        return all(any(fc(tree.lines[k]) for k in ks) for fc in fcs)
    cand = [i for i, t in enumerate(tree.lines) if fp(t)]
    kw = {"ignore_ws": True} if W else {}
    what = "(%r, %r, %r) on %r" % (P, CH, R, tree.lines)
    w = [i for i in cand if allof(i, R)]
    same(idx(pos, p.find_objects_w_all_children(P, list(CH), recurse=R, **kw), "find_objects_w_all_children"), w,
         "find_objects_w_all_children" + what)
    m = [i for i in cand if not allof(i, False)]
    same(idx(pos, p.find_objects_w_missing_children(P, list(CH), **kw), "find_objects_w_missing_children"), m,
         "find_objects_w_missing_children" + what)
    return bool(w) and bool(m)


def g_lit(d):
    c = g_config(d)
    c["parent"], c["child"], c["recurse"] = gen.literal(d, c["lines"]), gen.literal(d, c["lines"]), d.chance(0.5)
    return c


def c_lit(c):
    """Literal (escaped) texts, and parents / children given as line objects."""
    p, objs, tree, pos = load(c)
    P, C, R = c["parent"], c["child"], c["recurse"]

    def has(i, s):
        return any(s in tree.lines[k] for k in (tree.descendants(i) if R else tree.children[i]))
    cand = [i for i, t in enumerate(tree.lines) if P in t]
    w = [i for i in cand if has(i, C)]
    wo = [i for i in cand if not has(i, C)]
    what = "(%r, %r, recurse=%r, escaped) on %r" % (P, C, R, tree.lines)
    same(idx(pos, p.find_parent_objects(P, C, recurse=R, escape_chars=True), "find_parent_objects"), w, "find_parent_objects" + what)
    same(idx(pos, p.find_parent_objects_wo_child(P, C, recurse=R, escape_chars=True), "find_parent_objects_wo_child"), wo,
         "find_parent_objects_wo_child" + what)
    pairs = [(i, k) for i in cand for k in tree.children[i]][:3]
    for i, k in pairs:
        PT, CT = tree.lines[i], tree.lines[k]
        cand2 = [x for x, t in enumerate(tree.lines) if PT in t]
        w2 = [x for x in cand2 if has(x, CT)]
        wo2 = [x for x in cand2 if not has(x, CT)]
        same(idx(pos, p.find_parent_objects(objs[i], objs[k], recurse=R, escape_chars=True), "find_parent_objects"), w2,
             "find_parent_objects given line objects %r, %r on %r" % (PT, CT, tree.lines))
        same(idx(pos, p.find_parent_objects_wo_child(objs[i], objs[k], recurse=R, escape_chars=True), "wo"), wo2,
             "find_parent_objects_wo_child given line objects %r, %r on %r" % (PT, CT, tree.lines))
    return bool(w) and bool(wo)


SUBS = [Sub("one_child", g_par, c_par, weight=2), Sub("several", g_multi, c_multi), Sub("literal", g_lit, c_lit)]
RULE = "Random configurations x pairs of patterns; non-trivial = some candidate parents qualify and some do not."
