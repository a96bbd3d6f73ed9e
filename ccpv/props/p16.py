import re

from ..ccp import *
from ..core import Reject, Sub
from ..edits import *
from ..search import *
from .. import gen

REPL = ["X", "foo", "", "a b", r"\g<0>x", "no shutdown", "1", "!c", "zz zz", r"[\g<0>]", "a", " ", "new-text 1"]


def g_rep(d):
    c = g_config(d)
    c["op"] = d.pick(["lines", "lines", "children", "all"])
    c["parent"] = gen.pattern(d, c["lines"])
    c["spec"] = gen.pattern(d, c["lines"])
    c["repl"] = d.pick(REPL)
    if d.chance(0.2):
        c["spec"] = d.pick([r"(\w+) (\w+)", r"(\d+)", r"^(\s*)(\S+)", r"(a)(b)?", r"(\S)$"])
        c["repl"] = d.pick([r"\1", r"x\1x", r"\1\1"])
    if c["factory"]:
        c["factory"] = False
    c["ex"] = gen.pattern(d, c["lines"]) if d.chance(0.35) else None
    c["exact"] = d.chance(0.15)
    c["atomic"] = d.chance(0.5)
    return c


def c_rep(c):
    p, objs, tree, pos = load(c)
    L = list(tree.lines)
    spec, repl, E = c["spec"], c["repl"], c["exact"]
    if E and ("(?" in (spec if c["op"] == "lines" else c["parent"])):
        raise Reject()
    r = re.compile(spec)
    x = re.compile(c["ex"]) if c["ex"] else None

    def skip(i):
        return bool(x and x.search(L[i]))

    if c["op"] == "lines":
        f = rx(spec, exact=E)
        scope = [i for i in range(len(L)) if f(L[i]) and not skip(i)]
        order = scope
    else:
        f = rx(c["parent"], exact=E)
        scope, seen = [], set()
        for i in range(len(L)):
            if f(L[i]) and not skip(i):
                for k in (tree.children[i] if c["op"] == "children" else tree.descendants(i)):
                    if k not in seen and r.search(L[k]) and not skip(k):
                        scope.append(k)
                    seen.add(k)
        order = scope
    what = "replace_%s %r on %r" % (c["op"], {k: c[k] for k in ("parent", "spec", "repl", "ex", "exact", "atomic")}, L)
    new = list(L)
    gone = set()
    emptied = False
    for i in order:
        t = r.sub(repl, L[i])
        if t.strip() == "":
            emptied = True
            gone.add(i)
            gone.update(tree.descendants(i))
        else:
            new[i] = t
        if x and x.search(t):
            raise Reject()  # the rewritten text is itself excluded: depends on when it is looked at
    kw = {"excludespec": c["ex"], "exactmatch": E, "atomic": c["atomic"]}
    if c["op"] == "lines":
        got = p.replace_lines(spec, repl, **kw)
    elif c["op"] == "children":
        got = p.replace_children(c["parent"], spec, repl, **kw)
    else:
        got = p.replace_all_children(c["parent"], spec, repl, **kw)
    if not emptied:
        same(list(got), [new[i] for i in order], what + " returned")
    keep = [i for i in range(len(L)) if i not in gone]
    if not c["atomic"]:
        same([o.text for o in p.objs], [new[i] for i in keep], what + ": lines")
        for k, i in enumerate(keep):
            require(p.objs[k] is objs[i], what + ": line %d is another object", k)
        p.commit()
    t, ix = delivered([new[i] for i in keep], c["ignore"], c["factory"], c.get("comment", "!"))
    check_tree(p, t, what + " after commit")
    same([o.linenum for o in p.objs], ix, what + ": line numbers after commit")
    return bool(scope) and len(scope) < len(L) and c["op"] != "lines" or len(scope) > 1


def g_one(d):
    c = g_config(d)
    c["factory"] = False
    c["spec"] = gen.pattern(d, c["lines"])
    c["repl"] = d.pick(REPL)
    c["ex"] = gen.pattern(d, c["lines"]) if d.chance(0.35) else None
    c["at"] = d.draw(60)
    c["m"] = d.pick(["re_sub", "replace"])
    return c


def c_one(c):
    p, objs, tree, pos = load(c)
    L = list(tree.lines)
    if not L:
        return False
    i = c["at"] % len(L)
    skipped = bool(c["ex"] and re.search(c["ex"], L[i]))
    t = L[i] if skipped else re.sub(c["spec"], c["repl"], L[i])
    what = "%s(%r, %r, %r) on line %d of %r" % (c["m"], c["spec"], c["repl"], c["ex"], i, L)
    got = getattr(objs[i], c["m"])(c["spec"], c["repl"], c["ex"])
    if t.strip() == "" and not skipped:
        gone = {i} | set(tree.descendants(i))
        want = [s for k, s in enumerate(L) if k not in gone]
    else:
        same(got, t, what + " returned")
        want = L[:i] + [t] + L[i + 1:]
        same(objs[i].text, t, what)
        same(objs[i].is_comment, bool(t.strip()) and t.lstrip()[0] in c.get("comment", "!"), what + ": is_comment")
    same([o.text for o in p.objs], want, what + ": lines")
    p.commit()
    tr, ix = delivered(want, c["ignore"], False, c.get("comment", "!"))
    check_tree(p, tr, what + " after commit")
    return t != L[i]


SUBS = [Sub("scoped", g_rep, c_rep, weight=3), Sub("line", g_one, c_one, weight=2)]
RULE = "Random configurations x patterns x replacements; non-trivial = something rewritten within a scope smaller than the configuration, or several lines."
ASSUME = ["a rewritten text which is itself matched by the exclusion is outside the domain",
          "a line which becomes blank is deleted with its descendants (documented)"]
