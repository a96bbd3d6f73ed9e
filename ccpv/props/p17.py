import re

from ..ccp import *
from ..core import Reject, Sub
from ..edits import *
from ..search import *
from .. import gen
from ..model import indent_of
from . import p36

REPL = ["X", "foo", "a b", r"\g<0>x", "no shutdown", "", "!c", "  a", "b"]


def g_ops(d, lines, syntax, factory, hi=10, avg=5, banner=False):
    def op():
        kinds = ["ins", "ins", "oins", "oins", "del", "del", "del0", "commit", "commit", "append", "prepend", "insert", "search",
                 "fam", "fam", "dell", "delk", "repl", "resub", "replk", "repla", "insc", "text", "ldel", "lslice", "pop", "remove"]
        if banner:
            kinds = ["ins", "oins", "oins", "del0", "commit", "commit", "append", "prepend", "insert", "resub", "repl", "text", "ldel"]
        k = d.pick(kinds)
        if factory and k in ("repl", "resub", "replk", "repla", "text"):
            k = "oins"
        return {"op": k, "at": d.draw(60), "new": new_text(d, lines, syntax, factory), "p": gen.pattern(d, lines),
                "q": gen.pattern(d, lines), "after": d.chance(0.5), "r": d.pick(REPL), "atomic": d.chance(0.3),
                "k": d.draw(4)}
    return d.list(op, 1, hi, avg)


def g_hist(d):
    c = g_config(d, hi=14, avg=6)
    c["ops"] = g_ops(d, c["lines"], c["syntax"], c["factory"])
    return c


class M:
    """rows: [text, index into the objects of the last parse, or None for a line inserted since]."""

    def __init__(self, p, tree, c):
        self.p, self.c = p, c
        self.load(tree)

    def load(self, tree):
        self.tree = tree
        self.objs = list(self.p.objs)
        self.rows = [[t, i] for i, t in enumerate(tree.lines)]
        self.dirty = False

    def texts(self):
        return [r[0] for r in self.rows]

    def commit(self, what):
        t, ix = delivered(self.texts(), self.c["ignore"], self.c["factory"], self.c.get("comment", "!"))
        check_tree(self.p, t, what)
        same([o.linenum for o in self.p.objs], ix, what + ": line numbers")
        same([o.is_comment for o in self.p.objs], t.comment, what + ": comment lines")
        if self.c["factory"]:
            fresh = parse(self.texts(), syntax=self.c["syntax"], factory=True, ignore_blank_lines=self.c["ignore"], comment=self.c.get("comment", "!"))
            same([type(o).__name__ for o in self.p.objs], [type(o).__name__ for o in fresh.objs], what + ": types of the lines")
        self.load(t)

    def drop(self, hits, rec=True):
        """positions of rows to drop, with the descendants they had in the last parse"""
        gone = set()
        ks = set()
        for h in hits:
            gone.add(h)
            k = self.rows[h][1]
            if rec and k is not None:
                ks.update(self.tree.descendants(k))
        self.rows = [r for h, r in enumerate(self.rows) if h not in gone and not (r[1] is not None and r[1] in ks)]

    def insert(self, hits, text, after):
        out = []
        hs = set(hits)
        for h, r in enumerate(self.rows):
            if h in hs and not after:
                out.append([text, None])
            out.append(r)
            if h in hs and after:
                out.append([text, None])
        self.rows = out


def c_hist(c):
    p, objs, tree, pos = load(c)
    m = M(p, tree, c)
    done = 0
    log = []
    for e in c["ops"]:
        log.append(e)
        op, new = e["op"], e["new"]
        what = "after %s" % ("; ".join("%s" % {k: v for k, v in x.items()} for x in log[-3:]))
        what += " [%d operations] starting from %r" % (len(log), c["lines"])
        n = len(m.rows)
        cand = [h for h, r in enumerate(m.rows) if r[1] is not None]
        clean = not m.dirty
        changed = True
        if op == "commit":
            p.commit()
            m.commit(what)
            continue
        if op == "search":
            if not clean:
                p.commit()
                m.commit(what)
            f, g = rx(e["p"]), rx(e["q"])
            T = m.tree
            pp = {id(o): i for i, o in enumerate(p.objs)}
            same(idx(pp, p.find_objects(e["p"]), "find_objects"), [i for i, t in enumerate(T.lines) if f(t)],
                 "find_objects(%r) " % e["p"] + what)
            if "(?" not in e["p"] + e["q"]:
                plain(e["q"], T.lines)
                same(idx(pp, p.find_parent_objects(e["p"], e["q"]), "find_parent_objects"),
                     [i for i, t in enumerate(T.lines) if f(t) and any(g(T.lines[k]) and T.lines[k] for k in T.children[i])],
                     "find_parent_objects(%r, %r) " % (e["p"], e["q"]) + what)
            continue
        if op == "ins":
            f = rx(e["p"])
            hits = [h for h in range(n) if f(m.rows[h][0])]
            now = list(p.objs)
            if any(indent_(m.rows[h][0]) != now[h].indent for h in hits):
                raise Reject()  # indentation rewritten and not committed yet: refused by design
            (p.insert_after if e["after"] else p.insert_before)(e["p"], new, atomic=e["atomic"])
            m.insert(hits, new.rstrip(), e["after"])
            m.dirty = True
            if e["atomic"]:
                m.commit(what)
            changed = bool(hits)
        elif op == "oins":
            if not cand:
                continue
            h = cand[e["at"] % len(cand)]
            o = m.objs[m.rows[h][1]]
            (o.insert_after if e["after"] else o.insert_before)(new)
            m.insert([h], new.rstrip(), e["after"])
        elif op in ("del", "del0"):
            if not cand:
                continue
            h = cand[e["at"] % len(cand)]
            m.objs[m.rows[h][1]].delete(recurse=(op == "del"))
            m.drop([h], op == "del")
        elif op == "append":
            p.append_line(new)
            m.rows.append([new.rstrip(), None])
            m.commit(what)
            done += 1
            continue
        elif op == "prepend":
            p.prepend_line(new)
            m.rows.insert(0, [new.rstrip(), None])
        elif op == "insert":
            i = e["at"] % (n + 1)
            p.ConfigObjs.insert(i, new)
            m.rows.insert(i, [new.rstrip(), None])
        elif op == "text":
            if not cand:
                continue
            h = cand[e["at"] % len(cand)]
            m.objs[m.rows[h][1]].text = new
            m.rows[h][0] = new.rstrip()
            changed = False
        elif op in ("ldel", "lslice"):
            # deleting from the list of lines parses the configuration again
            i = e["at"] % (n + 1)
            if op == "ldel":
                if not n:
                    continue
                i = i % n - (n if e["after"] else 0)
                del p.ConfigObjs[i]
                del m.rows[i]
            else:
                del p.ConfigObjs[i:i + e["k"]]
                del m.rows[i:i + e["k"]]
            for row in m.rows:
                row[0] = row[0].rstrip()
            m.commit(what)
            done += 1
            continue
        elif op in ("pop", "remove"):
            if not n:
                continue
            i = e["at"] % n
            o = list(p.objs)[i]
            require((p.ConfigObjs.pop(i) if op == "pop" else p.ConfigObjs.remove(o) or o) is o, "popped another line " + what)
            del m.rows[i]
            changed = False
        elif op == "dell":
            f = rx(e["p"])
            hits = [h for h in range(n) if f(m.rows[h][0])]
            p.delete_lines(e["p"])
            m.drop(hits)
            changed = bool(hits)
        elif op == "repl":
            r = re.compile(e["p"])
            hits = [h for h in range(n) if r.search(m.rows[h][0])]
            p.replace_lines(e["p"], e["r"], atomic=e["atomic"])
            emptied = []
            for h in hits:
                m.rows[h][0] = r.sub(e["r"], m.rows[h][0])
                if not m.rows[h][0].strip():
                    emptied.append(h)
            m.drop(emptied)
            m.dirty = True
            if e["atomic"]:
                for row in m.rows:
                    row[0] = row[0].rstrip()
                m.commit(what)
            changed = bool(emptied)
        elif op == "resub":
            if not cand:
                continue
            h = cand[e["at"] % len(cand)]
            m.objs[m.rows[h][1]].re_sub(e["p"], e["r"])
            t = re.sub(e["p"], e["r"], m.rows[h][0])
            m.rows[h][0] = t
            changed = False
            if not t.strip():
                m.drop([h])
                changed = True
        else:
            if not clean:
                p.commit()
                m.commit(what)
                cand = list(range(len(m.rows)))
            T = m.tree
            if op == "fam":
                cand = [i for i in range(len(T.lines)) if T.cfg[i]]
                if not cand:
                    continue
                i = cand[e["at"] % len(cand)]
                m.objs[i].append_to_family(new, auto_indent=True)
                ds = T.descendants(i)
                at = (ds[-1] if ds else i) + 1
                m.rows.insert(at, [" " * (T.indent[i] + 1) + new.strip(), None])
            elif op == "delk":
                plain(e["p"], T.lines)
                cand = [i for i in range(len(T.lines)) if T.children[i]]
                if not cand:
                    continue
                i = cand[e["at"] % len(cand)]
                m.objs[i].delete_children_matching(e["p"])
                hits = [k for k in T.children[i] if re.search(e["p"], T.lines[k]) and T.lines[k]]
                m.drop(hits)
                changed = bool(hits)
            elif op in ("replk", "repla"):
                f, r = rx(e["p"]), re.compile(e["q"])
                scope = []
                for i in range(len(T.lines)):
                    if f(T.lines[i]):
                        for k in (T.children[i] if op == "replk" else T.descendants(i)):
                            if k not in scope and r.search(T.lines[k]):
                                scope.append(k)
                (p.replace_children if op == "replk" else p.replace_all_children)(e["p"], e["q"], e["r"])
                em = []
                for k in scope:
                    m.rows[k][0] = r.sub(e["r"], m.rows[k][0])
                    if not m.rows[k][0].strip():
                        em.append(k)
                m.drop(em)
                changed = bool(em)
            else:
                f, g = rx(e["p"]), rx(e["q"])
                hits = {k for i in range(len(T.lines)) if f(T.lines[i]) for k in T.children[i] if g(T.lines[k])}
                p.insert_after_child(e["p"], e["q"], new, atomic=False)
                m.insert(hits, new.rstrip(), True)
                changed = bool(hits)
        done += 1
        if not (op in ("ins", "repl") and e["atomic"]):
            m.dirty = True
            same([o.text for o in p.objs], m.texts(), "lines " + what)
            nums = [o.linenum for o in p.objs]
            require(all(a < b for a, b in zip(nums, nums[1:])), "line numbers " + what + ": %r", nums)
            if changed:
                same(nums, list(range(len(nums))), "line numbers " + what)
    p.commit()
    for r in m.rows:
        r[0] = r[0].rstrip()
    m.commit("final commit, %d operations from %r: %r" % (len(log), c["lines"], log))
    # committing again changes nothing
    a = snapshot(p)
    p.commit()
    same(snapshot(p), a, "a second commit changed the configuration")
    return done >= 3 and len(m.rows) > 1


def indent_(t):
    return len(t) - len(t.lstrip())


def g_ban(d):
    pre = gen.config(d, hi=6, avg=3, blanks=False)
    post = gen.config(d, hi=5, avg=2, blanks=False)
    post = [x.strip() if i == 0 else x for i, x in enumerate(post)]
    b = gen.banner(d)
    m = gen.macro(d)["lines"] if d.chance(0.25) else []
    lines = pre + b["lines"] + post + m
    ign = not d.chance(0.4)
    if ign:
        # an untyped parse which ignores blank lines drops empty lines even in banners
        lines = [x for x in lines if x.strip()]
    return {"lines": lines, "ignore": ign, "ops": g_ops(d, pre + post, "ios", False, 8, 4, banner=True)}


def c_ban(c):
    """Configurations with banners and macros: the committed configuration is a fresh parse of the edited text."""
    p = parse(c["lines"], ignore_blank_lines=c["ignore"])
    rows = [[o.text, o] for o in p.objs]
    done = 0

    def commit(what):
        fresh = parse([r[0] for r in rows], ignore_blank_lines=c["ignore"])
        same(snapshot(p), snapshot(fresh), what)
        rows[:] = [[o.text, o] for o in p.objs]

    for e in c["ops"]:
        what = "%r on %r" % (e, [r[0] for r in rows])
        op, new = e["op"], e["new"]
        n = len(rows)
        cand = [h for h in range(n) if rows[h][1] is not None]
        if op == "commit":
            p.commit()
            commit(what)
            continue
        if op == "append":
            p.append_line(new)
            rows.append([new.rstrip(), None])
            commit(what)
            continue
        if op == "prepend":
            p.prepend_line(new)
            rows.insert(0, [new.rstrip(), None])
        elif op == "insert":
            i = e["at"] % (n + 1)
            p.ConfigObjs.insert(i, new)
            rows.insert(i, [new.rstrip(), None])
        elif op == "ins":
            hits = [h for h in range(n) if re.search(e["p"], rows[h][0])]
            now = list(p.objs)
            if any(indent_(rows[h][0]) != now[h].indent for h in hits):
                raise Reject()  # indentation rewritten and not committed yet: refused by design
            (p.insert_after if e["after"] else p.insert_before)(e["p"], new)
            for h in reversed(hits):
                rows.insert(h + 1 if e["after"] else h, [new.rstrip(), None])
        elif not cand:
            continue
        elif op == "oins":
            h = cand[e["at"] % len(cand)]
            (rows[h][1].insert_after if e["after"] else rows[h][1].insert_before)(new)
            rows.insert(h + 1 if e["after"] else h, [new.rstrip(), None])
        elif op == "del0":
            h = cand[e["at"] % len(cand)]
            rows[h][1].delete(recurse=False)
            del rows[h]
        elif op == "text":
            h = cand[e["at"] % len(cand)]
            rows[h][1].text = new
            rows[h][0] = new.rstrip()
        elif op == "ldel":
            h = cand[e["at"] % len(cand)]
            del p.ConfigObjs[h]
            del rows[h]
            commit(what)
        elif op == "resub":
            h = cand[e["at"] % len(cand)]
            t = re.sub(e["p"], e["r"], rows[h][0])
            if not t.strip():
                raise Reject()
            rows[h][1].re_sub(e["p"], e["r"])
            rows[h][0] = t
        elif op == "repl":
            hits = [h for h in range(n) if re.search(e["p"], rows[h][0])]
            new_t = [re.sub(e["p"], e["r"], rows[h][0]) for h in hits]
            if any(not t.strip() for t in new_t):
                raise Reject()
            p.replace_lines(e["p"], e["r"])
            for h, t in zip(hits, new_t):
                rows[h][0] = t
        done += 1
        same([o.text for o in p.objs], [r[0] for r in rows], "lines after " + what)
    p.commit()
    commit("final commit of %r with %r" % (c["lines"], c["ops"]))
    return done >= 2


def g_facts(d):
    syntax = d.pick(["ios", "ios", "nxos", "iosxr", "asa"])
    lines = [x for x in p36.g_lines(d, syntax, True, 3) if x.strip()]
    pool = [x for x in p36.g_lines(d, syntax, True, 2) if x.strip()] + lines
    ops = d.list(lambda: [d.pick(["ask", "text", "text", "resub", "del", "ins", "commit"]), d.draw(60), d.draw(60)], 1, 8, 4)
    return {"lines": lines, "pool": pool, "syntax": syntax, "ops": ops}


def c_facts(c):
    """The facts of the lines are those of the edited lines."""
    p = parse(c["lines"], syntax=c["syntax"], factory=True)
    if not list(p.objs):
        return False
    done = 0
    log = []
    for op, a, b in c["ops"]:
        rows = [o.text for o in p.objs]
        if not rows:
            break
        i = a % len(rows)
        o = p.objs[i]
        log.append("%s %d %d" % (op, i, b))
        like = [x.rstrip() for x in c["pool"] if indent_of(x) == o.indent]
        new = like[b % len(like)] if like else o.text
        special = re.compile(r"[{}!]|^\s*(banner|macro)|^\s*set banner")
        kinds = [type(x).__name__ for x in p.objs]
        up = [x.parent.linenum for x in p.objs]
        if op in ("text", "resub"):
            if special.search(new) or special.search(o.text) or any(special.search(x) and "banner" in x for x in rows):
                continue
            if op == "text":
                o.text = new
            else:
                o.re_sub("^.*$", new.replace("\\", "\\\\"))
            rows[i] = new
        elif op == "del":
            o.delete()
            rows = [x.text for x in p.objs]
        elif op == "ins":
            p.insert_after(re.escape(o.text), new, exactmatch=True)
            rows = [x.text for x in p.objs]
        what = "%s on %r: " % ("; ".join(log), c["lines"])
        fresh = parse(rows, syntax=c["syntax"], factory=True)
        same([x.text for x in p.objs], [x.text for x in fresh.objs], what + "lines")
        if op in ("del", "ins", "commit") or [type(x).__name__ for x in fresh.objs] != kinds or [x.parent.linenum for x in fresh.objs] != up or not kinds[i].endswith("CfgLine"):
            p.commit()
        same([type(x).__name__ for x in p.objs], [type(x).__name__ for x in fresh.objs], what + "types")
        done += 1
        if not rows:
            break
        i = min(i, len(rows) - 1)
        for k in sorted({i, up[i] if up[i] < len(rows) else i, b % len(rows), 0} & set(range(len(rows)))):
            got, want = p36.run(p, ["props", k]), p36.run(fresh, ["props", k])
            bad = [[x, y] for x, y in zip(got, want) if x != y]
            require(got == want, "%sfacts of line %d %r: got and expected %r", what, k, rows[k], bad[:3])
            x, y = p.objs[k], fresh.objs[k]
            for w in sorted({re.escape(t[0]) for t in (new.split(), rows[i].split(), c["pool"][0].split()) if t}):
                for deep in (False, True):
                    same(x.has_child_with(w, all_children=deep), y.has_child_with(w, all_children=deep), what + "has_child_with %r on line %d" % (w, k))
                    same([t.text for t in x.re_search_children(w, recurse=deep)], [t.text for t in y.re_search_children(w, recurse=deep)], what + "re_search_children %r on line %d" % (w, k))
                    same(x.re_match_iter_typed("(%s.*)" % w, recurse=deep, default="-"), y.re_match_iter_typed("(%s.*)" % w, recurse=deep, default="-"), what + "re_match_iter_typed %r on line %d" % (w, k))
        for n in ("names", "groups") if c["syntax"] == "asa" else ():
            same(p36.run(p, ["fact", n]), p36.run(fresh, ["fact", n]), what + n)
    return done >= 2


QUICK_S = 24  # slow cases
SUBS = [Sub("history", g_hist, c_hist, weight=3), Sub("banners", g_ban, c_ban, weight=2), Sub("facts", g_facts, c_facts)]
RULE = "Random configurations x random histories of edits and commits; non-trivial = at least three edits (two with banners)."
ASSUME = ["between commits only lines of the last commit are edited through their objects (documented usage)"]
