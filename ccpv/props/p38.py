"""The list of configuration lines is a sequence: everything a list of the line objects answers, it answers alike."""
import copy
import pickle
import re

from ..ccp import *
from ..core import Sub, Violation
from .. import gen
from ciscoconfparse.ccp_util import as_text_list

SYN = ["ios", "nxos", "iosxr", "asa"]


def g(d):
    syn = d.pick(SYN)
    comment = d.weighted([(6, "!"), (1, "#"), (1, "!#")])
    lines = gen.config(d, comment=comment)
    fac = d.chance(0.15)
    if fac:
        lines = gen.typed_safe(lines, syn)
    n = len(lines) + 3

    def ix():
        return d.int(-n, n) if d.chance(0.85) else None
    return {"lines": lines, "comment": comment, "syntax": syn, "factory": fac, "ignore": not d.chance(0.25),
            "idx": [d.int(-n, n) for _ in range(4)], "sl": [[ix(), ix(), d.pick([None, 1, 1, -1, 2, -2, 3])] for _ in range(5)],
            "mul": d.draw(4), "begin": d.draw(n), "pat": gen.pattern(d, lines), "ins": [[d.int(-n, n), "new %d" % i] for i in range(d.draw(3))],
            "ops": [[d.pick(["pop", "remove", "reverse", "extend", "iadd", "imul", "set", "append", "sort", "sort", "clear"]), d.int(0, n)] for _ in range(d.draw(6))]}


def out(fn):
    try:
        r = fn()
    except (IndexError, ValueError) as e:
        return type(e).__name__
    return [id(x) for x in r] if isinstance(r, (list, tuple)) else id(r)


def alike(what, a, b, c):
    x, y = out(a), out(b)
    if x != y:
        raise Violation("%s differs from that of a plain list of the same lines: %r instead of %r, for %r" % (what, x, y, c["lines"]))


def outcome(f):
    try:
        return f()
    except TypeError:
        return "TypeError"


def pos_of(seq, x, i, j):
    try:
        return seq.index(x, i), seq.index(x, i, j)
    except ValueError:
        return None


def c_(c):
    p = parse(c["lines"], syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"], comment=c.get("comment", "!"))
    o = p.objs
    tree, _ = delivered(c["lines"], c["ignore"], c["factory"], c.get("comment", "!"))
    L = [x for x in o]
    same([x.text for x in L], tree.lines, "iteration")
    same(len(o), len(L), "length")
    same(o.last_index, len(L) - 1, "last index")
    require(p.ConfigObjs is o, "objs is not ConfigObjs")
    same(bool(o), bool(L), "truth value")
    for i in c["idx"]:
        alike("index %d" % i, lambda: o[i], lambda: L[i], c)
    for a, b, s in c["sl"]:
        alike("slice %r:%r:%r" % (a, b, s), lambda: list(o[a:b:s]), lambda: L[a:b:s], c)
        q = o[a:b:s]
        q.append(None)
        q.reverse()
        alike("list after changing its slice %r:%r:%r" % (a, b, s), lambda: list(o), lambda: L, c)
    q = o[:]
    require(q is not o and q == o and list(q) == L, "a full slice is the same list or unequal")
    q.clear()
    alike("list after clearing its full slice", lambda: list(o), lambda: L, c)
    alike("reversed()", lambda: list(reversed(o)), lambda: L[::-1], c)
    other = parse(["x", " y"], syntax=c["syntax"])
    X = list(other.objs)
    alike("sum", lambda: list(o + o), lambda: L + L, c)
    alike("sum with a list", lambda: list(o + X), lambda: L + X, c)
    alike("sum with a tuple", lambda: list(o + tuple(X)), lambda: L + X, c)
    alike("sum of two configurations", lambda: list(o + other.objs), lambda: L + X, c)
    alike("list + lines", lambda: list(X + o), lambda: X + L, c)
    alike("multiple", lambda: list(o * c["mul"]), lambda: L * c["mul"], c)
    alike("multiple from the left", lambda: list(c["mul"] * o), lambda: L * c["mul"], c)
    for k in (lambda: o.copy(), lambda: copy.copy(o)):
        q = k()
        alike("copy", lambda: list(q), lambda: L, c)
        require(q is not o and q == o, "a copy is the same list or unequal")
        q.clear()
        same(len(q), 0, "length of a cleared copy")
        alike("original after clearing its copy", lambda: list(o), lambda: L, c)
    for x in L[:4] + L[-1:]:
        require(x in o, "line %r is not in its own list", x.text)
        same(o.count(x), L.count(x), "count of %r" % x.text)
        same(o.index(x), L.index(x), "index of %r" % x.text)
    for i, j in zip(c["idx"], c["idx"][::-1]):
        for x in L[-2:] + X[:1]:
            same(pos_of(o, x, i, j), pos_of(L, x, i, j), "index of %r from %d to %d" % (x.text, i, j))
    for x in X:
        same(x in o, x in L, "membership of a foreign line")
        same(o.count(x), L.count(x), "count of a foreign line")
    require(o == L and o == o and not (o != L) and not (o == X + L + X), "equality with a list")
    require(o <= o and o >= o and not o < o and not o > o, "order of the list against itself")
    for W in (X, other.objs, L[1:], L[:2], L + X, L[1:3] + L[:1]):
        for what, f in (("<", lambda v, w: v < w), (">", lambda v, w: v > w), ("<=", lambda v, w: v <= w), (">=", lambda v, w: v >= w), ("==", lambda v, w: v == w)):
            same(outcome(lambda: f(o, W)), outcome(lambda: f(L, list(W))), "order (%s) of the list against %r" % (what, W))
    comm = [x for x in L if not x.is_comment]
    alike("iteration without comments", lambda: list(o.iter_no_comments(c["begin"])), lambda: [x for x in L[c["begin"]:] if not x.is_comment], c)
    alike("iteration with comments", lambda: list(o.iter_with_comments(c["begin"])), lambda: L[c["begin"]:], c)
    alike("all parents", lambda: list(o.all_parents), lambda: [x for i, x in enumerate(L) if tree.children[i]], c)
    top = [x for x in comm if x.text[:1].strip()]
    pos = {id(x): i for i, x in enumerate(L)}
    h = o.config_hierarchy()
    alike("top-level lines with children", lambda: list(h[0]), lambda: [x for x in top if tree.children[pos[id(x)]]], c)
    alike("top-level lines without children", lambda: list(h[1]), lambda: [x for x in top if not tree.children[pos[id(x)]]], c)
    same(o.has_line_with(c["pat"]), any(re.search(c["pat"], t) for t in tree.lines), "has_line_with(%r)" % c["pat"])
    same(as_text_list(L), tree.lines, "texts of a list of lines")
    same(as_text_list(o), tree.lines, "texts of the list of lines")
    same(list(p.ioscfg), tree.lines, "ioscfg")
    for k in (copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v))) if len(L) < 15 else ():
        q = k(p)
        check_tree(q, tree, "a copy of the configuration")
        q.append_line("added to the copy")
        if len(L):
            q.objs[0].delete()
        q.commit()
        check_tree(p, tree, "the configuration after copying it")
    # inserting by position
    T = list(tree.lines)
    if not c["ins"]:
        pass
    for i, t in c["ins"]:
        o.insert(i, t)
        T.insert(i, t)
        same([x.text for x in o], T, "lines after insert(%d)" % i)
        same([x.linenum for x in o], list(range(len(T))), "line numbers after insert(%d)" % i)
    # list operations on a detached copy
    q = o.copy()
    M = list(o)
    for op, n in c["ops"]:
        if op == "pop" and M:
            alike("pop", lambda: q.pop(n % len(M)), lambda: M[n % len(M)], c)
            del M[n % len(M)]
        elif op == "remove" and M:
            x = M[n % len(M)]
            q.remove(x)
            M.remove(x)
        elif op == "reverse":
            q.reverse()
            M.reverse()
        elif op == "sort":
            kw = [{}, {"reverse": True}, {"key": lambda x: x.text}, {"key": lambda x: (len(x.text), x.text), "reverse": True}][n % 4]
            q.sort(**kw)
            M.sort(**kw)
        elif op == "extend":
            q.extend(X if n % 2 else other.objs)
            M.extend(X)
        elif op == "append":
            q.append(X[0])
            M.append(X[0])
        elif op == "iadd":
            q += [X, other.objs, tuple(X)][n % 3]
            M += X
        elif op == "imul" and len(M) < 100:
            q *= n % 3
            M *= n % 3
        elif op == "set" and M:
            q[n % len(M)] = X[1]
            M[n % len(M)] = X[1]
        elif op == "clear":
            q.clear()
            M.clear()
        alike("list after %s" % op, lambda: list(q), lambda: M, c)
    same([x.text for x in o], T, "lines after changing a copy of the list")
    return len(L) > 2


SUBS = [Sub("sequence", g, c_)]
RULE = "A generated configuration with random indices, slices and list operations; non-trivial = more than two lines."
ASSUME = "Changing the list in place is checked on a copy (the editing properties cover edits of a configuration)."
