from ..ccp import *
from ..core import Reject, Sub, raises
from ..edits import *
from ..search import *
from .. import gen


def g_ins(d):
    c = g_config(d)
    c["op"] = d.pick(["p_before", "p_after", "p_before", "p_after", "l_before", "l_after", "o_before", "o_after", "l_obj_before",
                      "l_obj_after"])
    c["new"] = new_text(d, c["lines"], c["syntax"], c["factory"])
    c["spec"], c["ws"], c["exact"] = opts(d, c["lines"])
    c["indent"] = d.pick([-1, -1, 0, 1, 3])
    c["atomic"] = d.chance(0.4)
    c["at"] = d.draw(40)
    c["asobj"] = d.chance(0.1)
    c["line"] = d.chance(0.15)
    return c


def c_ins(c):
    p, objs, tree, pos = load(c)
    L = list(tree.lines)
    op, new = c["op"], c["new"]
    spec, W, E = c["spec"], c["ws"], c["exact"]
    what = "%s(%r) of %r in %r" % (op, {k: c[k] for k in ("spec", "ws", "exact", "indent", "atomic", "at")}, new, L)
    atomic = c["atomic"]
    if op[0] == "p":
        if spec == "":
            raise Reject()
        f = rx(spec, W, E)
        hits = [i for i, t in enumerate(L) if f(t)]
        kw = {"atomic": atomic}
        if W:
            kw["ignore_ws"] = True
        if E:
            kw["exactmatch"] = True
        if c["indent"] >= 0:
            kw["new_val_indent"] = c["indent"]
            new = " " * c["indent"] + new.lstrip()
        m = p.insert_before if op == "p_before" else p.insert_after
        got = m(spec, c["new"], **kw)
        same(list(got), [L[i] for i in hits], what + " returned")
    elif op in ("l_before", "l_after"):
        if spec == "":
            raise Reject()
        f = rx(spec)
        hits = [i for i, t in enumerate(L) if f(t)]
        m = p.ConfigObjs.insert_before if op == "l_before" else p.ConfigObjs.insert_after
        m(spec, new, atomic=atomic)
    else:
        if not L:
            return False
        i = c["at"] % len(L)
        hits = [i]
        if op[0] == "l":
            m = p.ConfigObjs.insert_before if op == "l_obj_before" else p.ConfigObjs.insert_after
            m(objs[i], parse([new], syntax=c["syntax"]).objs[0] if c["line"] and new.strip() else new, atomic=atomic)
        else:
            atomic = False
            m = objs[i].insert_before if op == "o_before" else objs[i].insert_after
            m(parse([new], syntax=c["syntax"]).objs[0] if c["line"] and new.strip() else new)
    after = op.endswith("after")
    want = []
    hs = set(hits)
    for i, t in enumerate(L):
        if i in hs and not after:
            want.append(new.rstrip())
        want.append(t)
        if i in hs and after:
            want.append(new.rstrip())
    check_edit(p, want, c, atomic, what, want != L)
    return len(set(L)) < len(L) and bool(hits) or len(hits) > 1


def g_fam(d):
    c = g_config(d)
    c["new"] = new_text(d, c["lines"], c["syntax"], c["factory"])
    c["at"] = d.draw(40)
    c["mode"] = d.pick(["auto", "auto", "auto2", "indent", "raw", "nothing"])
    c["k"] = 1 + d.draw(3)
    return c


def c_fam(c):
    p, objs, tree, pos = load(c)
    L = list(tree.lines)
    if not L:
        return False
    i = c["at"] % len(L)
    o = objs[i]
    if not tree.cfg[i]:
        raise Reject()
    new = c["new"]
    kw = {}
    if c["mode"] == "auto":
        kw = {"auto_indent": True}
        text = " " * (tree.indent[i] + 1) + new.strip()
    elif c["mode"] == "auto2":
        kw = {"auto_indent": True, "auto_indent_width": c["k"]}
        text = " " * (tree.indent[i] + c["k"]) + new.strip()
    elif c["mode"] == "indent":
        kw = {"indent": c["k"]}
        text = " " * (tree.indent[i] + c["k"]) + new.strip()
    else:
        kw = {"indent": -(c["k"] % 2)} if c["mode"] == "nothing" else {}  # only positive values are applied
        text = new.rstrip()
    o.append_to_family(new, **kw)
    ds = tree.descendants(i)
    at = (ds[-1] if ds else i) + 1
    want = L[:at] + [text] + L[at:]
    what = "append_to_family(%r, %r) on line %d of %r" % (new, kw, i, L)
    t2 = check_edit(p, want, c, False, what)
    if c["mode"] == "auto" and text.lstrip()[0] not in c.get("comment", "!") and t2.lines == want and not any("{" in x or "}" in x for x in want):
        # a command with the auto-indent is a child of the line it was appended to
        same(t2.parent[at], i, what + ": parent after commit")
        require(p.objs[at].parent is p.objs[i], what + ": parent object after commit")
    return bool(ds) and len(ds) > len(tree.children[i]) or L.count(L[i]) > 1


def g_ends(d):
    c = g_config(d)
    c["ops"] = d.list(lambda: {"op": d.pick(["append", "prepend", "insert", "child"]),
                               "new": new_text(d, c["lines"], c["syntax"], c["factory"]),
                               "at": d.draw(40), "p": gen.pattern(d, c["lines"]), "c": gen.pattern(d, c["lines"]),
                               "ex": d.pick([None, None, None, "a", "foo", "1"]), "exact": d.chance(0.15),
                               "atomic": d.chance(0.5)}, 1, 4, 2)
    return c


def c_ends(c):
    p, objs, tree, pos = load(c)
    L = list(tree.lines)
    t = tree
    nt = False
    for e in c["ops"]:
        if e["exact"] and e["p"].startswith("(?"):
            raise Reject()
        new = e["new"]
        what = "%r on %r" % (e, L)
        atomic = False
        L0 = L
        if e["op"] == "append":
            r = p.append_line(new)
            L = L + [new.rstrip()]
            atomic = True
            same(r.text, new.rstrip(), what + " returned")
        elif e["op"] == "prepend":
            r = p.prepend_line(new)
            L = [new.rstrip()] + L
            same(r.text, new.rstrip(), what + " returned")
        elif e["op"] == "insert":
            i = e["at"] % (len(L) + 1)
            p.ConfigObjs.insert(i, new)
            L = L[:i] + [new.rstrip()] + L[i:]
        else:
            import re
            f, g = rx(e["p"], exact=e["exact"]), rx(e["c"])
            x = re.compile(e["ex"]) if e["ex"] else None
            ins = set()
            for i, s in enumerate(L):
                if f(s) and not (x and x.search(s)):
                    for k in t.children[i]:
                        if g(L[k]) and not (x and x.search(L[k])):
                            ins.add(k)
            p.insert_after_child(e["p"], e["c"], new, exactmatch=e["exact"], excludespec=e["ex"], atomic=e["atomic"])
            atomic = e["atomic"]
            L = [y for k, s in enumerate(L) for y in ([s, new.rstrip()] if k in ins else [s])]
            nt = nt or len(ins) > 0
        t = check_edit(p, L, c, atomic, what, L != L0)
        L = list(t.lines)
    return nt or len(c["ops"]) > 2


def g_blank(d):
    c = g_config(d)
    c["op"] = d.pick(["before", "after", "append"])
    c["new"] = d.pick(["", " ", "  "])
    return c


def c_blank(c):
    """With blank lines ignored, inserting one is refused and nothing changes."""
    p, objs, tree, pos = load(dict(c, ignore=True))
    if not objs:
        return False
    f = {"before": lambda: p.ConfigObjs.insert_before(objs[0], c["new"]),
         "after": lambda: p.ConfigObjs.insert_after(objs[0], c["new"]), "append": lambda: p.append_line(c["new"])}[c["op"]]
    raises(f, "inserting a blank line")
    same([o.text for o in p.objs], tree.lines, "lines after the refused insertion")
    return True


SUBS = [Sub("insert", g_ins, c_ins, weight=4), Sub("family", g_fam, c_fam, weight=2), Sub("ends", g_ends, c_ends, weight=2),
        Sub("blank", g_blank, c_blank, weight=1)]
RULE = "Random configurations x insertion operations; non-trivial = several targets, duplicated lines or nested families."
ASSUME = ["banners, macros and brace-delimited syntaxes are not edited", "inserted text is one command or comment line"]
