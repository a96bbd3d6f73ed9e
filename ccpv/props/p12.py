import re

from ..ccp import *
from ..core import Sub, raises
from ..search import *
from .. import gen


def g_br(d):
    c = g_config(d)
    c["spec"] = d.list(lambda: gen.pattern(d, c["lines"]) if d.chance(0.6) else d.pick(
        [".", r"\S", "a", "b", r"^\s*\S", "(a|b)", r"(\S+)$", r"\s(\S+)", r"(\w)(\w*)",
         r"(no\s)?(\S+)", r"(\d+)?$", r"^(\s)?(\s)?(\S)", "(a)|(b)"]), 1, 5, 2)
    c["flags"] = d.pick([0, 0, 0, int(re.I)])
    c["groups"] = d.chance(0.5)
    if c["flags"]:
        c["spec"] = [s.swapcase() if s.isalpha() else s for s in c["spec"]]
    return c


def c_br(c):
    p, objs, tree, pos = load(c)
    spec, fl = c["spec"], c["flags"]
    rs = [re.compile(s, fl) for s in spec]
    first = [i for i, t in enumerate(tree.lines) if rs[0].search(t)]
    br = [[i] for i in first] or [[None]]
    for r in rs[1:]:
        nb = []
        for b in br:
            ks = [] if b[-1] is None else [k for k in tree.children[b[-1]] if r.search(tree.lines[k])]
            nb.extend([b + [k] for k in ks] or [b + [None]])
        br = nb
    if len(br) > 3000:
        raise Reject()
    kw = {"regex_flags": fl} if fl else {}
    what = "find_object_branches(%r, %r) on %r" % (spec, kw, tree.lines)
    got = p.find_object_branches(tuple(spec), **kw)
    same([[None if o is None else idx(pos, [o], "branch")[0] for o in b] for b in got], br, what)
    got = p.find_object_branches(tuple(spec), allow_none=False, **kw)
    same([[None if o is None else idx(pos, [o], "branch")[0] for o in b] for b in got], br, what + " with the obsolete allow_none=False")
    if c["groups"]:
        want = []
        for b in br:
            row = []
            for r, i in zip(rs, b):
                if i is None:
                    row.append((None,))
                else:
                    g = r.search(tree.lines[i]).groups()
                    row.append(g if g else (tree.lines[i],))
            want.append(row)
        got = p.find_object_branches(tuple(spec), regex_groups=True, **kw)
        same([[tuple(x) for x in b] for b in got], want, what + " groups")
    return len(br) > 1 and any(b[-1] is not None for b in br)


def g_bad(d):
    return {"lines": gen.config(d, hi=8, avg=3), "bad": d.pick(["empty", "list", "str"])}


def c_bad(c):
    p = parse(c["lines"])
    arg = {"empty": (), "list": ["a"], "str": "a"}[c["bad"]]
    raises(lambda: p.find_object_branches(arg), "find_object_branches(%r)" % (arg,))
    return True


SUBS = [Sub("branches", g_br, c_br, weight=9), Sub("badspec", g_bad, c_bad)]
RULE = "Random configurations x sequences of patterns; non-trivial = several branches, at least one complete."
