"""Thin helpers around the public API of the code under test."""
from . import env  # noqa: F401
from ciscoconfparse import CiscoConfParse
from .core import Violation, require, same  # noqa: F401
from .model import Tree, delivered  # noqa: F401


def parse(lines, **kw):
    return CiscoConfParse(list(lines), **kw)


def texts(objs):
    return [o.text for o in objs]


def snapshot(p):
    """Everything observable about the tree, positions instead of objects."""
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    out = []
    for o in objs:
        par = o.parent
        out.append([o.text, o.linenum, o.indent, pos.get(id(par), "detached"), [pos.get(id(c), "detached") for c in o.children]])
    return out


def check_tree(p, tree, what):
    """Texts, parents and children of a parse are those of the model tree."""
    objs = list(p.objs)
    same([o.text for o in objs], tree.lines, what + ": lines")
    pos = {id(o): i for i, o in enumerate(objs)}
    for i, o in enumerate(objs):
        want = tree.parent[i]
        got = pos.get(id(o.parent), "an object outside the configuration")
        if got != (i if want is None else want):
            raise Violation("%s: parent of line %d %r is %r, expected %r (lines %r)" % (
                what, i, o.text, got, "itself" if want is None else want, tree.lines))
        gotc = [pos.get(id(c), "outside") for c in o.children]
        if gotc != tree.children[i]:
            raise Violation("%s: children of line %d %r are %r, expected %r (lines %r)" % (
                what, i, o.text, gotc, tree.children[i], tree.lines))
