"""P19: the commands of a configuration diff turn the old configuration into the new one."""
import os
import re
import tempfile
import warnings
from collections import Counter

from .. import gen
from ..ccp import *
from ..core import Reject, Sub, raises
from ..model import Tree, delivered, indent_of, is_blank
from ..search import plain, rx
from .p18 import entries, g_edit
from ciscoconfparse.ciscoconfparse import Diff

warnings.simplefilter("ignore")

RULE = "the diff has at least one removal or addition"
ASSUME = ["Diff: ordinary commands without braces or line separators inside; lines which already start with 'no', access-list sections, banners and "
          "VLAN names get special treatment by the diff backend and are not generated",
          "Diff: an interface's description or ip address is replaced, not removed and added",
          "required-configuration diffs: the required lines match the line filter, and the removal filter matches every "
          "line to be removed"]

_SPECIAL = re.compile(r"^(no\b|default\b|version|end$|ntp clock-period|exit|ip access-list|ipv6 access-list|ipv6 unreach|name\b|"
                      r"address-family|template|banner|macro|logging event|crypto key|Building|Current|remark|vlan filter|[#!])")
_ONE = re.compile(r"^(description|ip address)")


# ---- Diff -------------------------------------------------------------------------------
def g_cfg(d):
    lines = gen.config(d, hi=20, avg=d.pick([3, 6, 10]), irregular=False)
    out = []
    for x in lines:
        t = x.strip()
        if t and t[0] != "!" and _SPECIAL.search(t):
            x = x[:indent_of(x)] + "k" + str(d.draw(5))
        out.append(x)
    return out


def tree_of(lines):
    """nested dict {text: subtree} of the commands; None when outside the domain"""
    t = Tree([x for x in lines if not is_blank(x) and x.strip()[0] not in "!#"])
    root = {}
    node = {None: root}
    for i, x in enumerate(t.lines):
        p = t.parent[i]
        here = node[p]
        k = " ".join(x.split())
        if t.parent[i] is not None and t.parent[p] is None and t.lines[p].strip().startswith("interface") and _ONE.search(k):
            if any(q != k and _ONE.search(q) and q.split()[0] == k.split()[0] for q in here):
                raise Reject()
        node[i] = here.setdefault(k, {})
    return root


def g_diff(d):
    a = g_cfg(d)
    b = g_edit(d, a) if d.chance(0.75) else g_cfg(d)
    return {"a": a, "b": b, "form": d.pick(["list", "list", "str", "tuple", "file", "file2"])}


def check_domain(lines):
    for x in lines:
        if len(x.splitlines()) > 1:
            raise Reject()  # the hier_config library splits its text at these characters
        t = x.strip()
        if t.endswith("{") or t.startswith("}"):
            raise Reject()  # hier_config knows indentation only
        if t and t[0] not in "!#" and _SPECIAL.search(t):
            raise Reject()


def give(lines, form, tmp, name):
    if form == "list":
        return list(lines)
    if form == "tuple":
        return tuple(lines)
    if form == "str":
        return "\n".join(lines)
    if not lines and form == "file2":
        return None
    f = os.path.join(tmp, name)
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return f


def cmd_tree(cmds, what):
    root = {}
    stack = [(-1, root)]
    for x in cmds:
        ind = indent_of(x)
        while stack[-1][0] >= ind:
            stack.pop()
        require(ind == 2 * (len(stack) - 1), what + ": command %r is not indented below its parent in %r", x, cmds)
        k = x.strip()
        sub = stack[-1][1].setdefault(k, {})
        stack.append((ind, sub))
    return root


def want(a, b, depth=0, intf=False):
    """The exact command tree."""
    out = {}
    for k in a:
        if k in b:
            continue
        if intf and depth == 1 and _ONE.search(k) and any(_ONE.search(q) and q.startswith(_ONE.search(k).group(1)) for q in b):
            continue
        out["no " + k] = {}
    for k, sub in b.items():
        if k not in a:
            out[k] = sub
        else:
            s = want(a[k], sub, depth + 1, depth == 0 and k.startswith("interface"))
            if s:
                out[k] = s
    return out


def execute(a, cmds, depth=0, intf=False):
    new = {k: v for k, v in a.items()}
    for k, sub in cmds.items():
        if k.startswith("no ") and k[3:] in new:
            del new[k[3:]]
            continue
        if intf and depth == 1 and _ONE.search(k):
            w = _ONE.search(k).group(1)
            for q in [q for q in new if q.startswith(w) and q != k]:
                del new[q]
        new[k] = execute(new.get(k, {}), sub, depth + 1, depth == 0 and k.startswith("interface"))
    return new


def c_diff(c):
    check_domain(c["a"] + c["b"])
    A, B = tree_of(c["a"]), tree_of(c["b"])
    what = "Diff(%r, %r)" % (c["a"], c["b"])
    with tempfile.TemporaryDirectory(prefix="ccpv") as tmp:
        d = Diff(old_config=give(c["a"], c["form"], tmp, "a"), new_config=give(c["b"], c["form"], tmp, "b"))
    for syn in ("nxos", "junos", ""):
        raises(lambda: Diff(old_config=list(c["a"]), new_config=list(c["b"]), syntax=syn), "Diff(..., syntax=%r)" % syn)
    n = 0
    for name, fn, x, y in (("diff", d.diff, A, B), ("rollback", d.rollback, B, A)):
        cmds = fn()
        same(fn(), cmds, what + ": %s() repeated" % name)
        t = cmd_tree(cmds, what)
        same(len(cmds), sum(1 for _ in walk(t)), what + ": repeated commands in %s %r" % (name, cmds))
        w = want(x, y)
        same(t, w, what + ": commands of %s()" % name)
        same(execute(x, t), y, what + ": configuration after executing %s() commands %r" % (name, cmds))
        n += len(cmds)
    return n > 0


def walk(t):
    for k, v in t.items():
        yield k
        yield from walk(v)


# ---- required-configuration diffs -----------------------------------------------------------
def g_req(d):
    lines = gen.config(d, hi=18, avg=7)
    pool = [x for x in lines if x.strip()]

    def one():
        if pool and d.chance(0.6):
            t = d.pick(pool)
            k = d.draw(4)
            return [t, t.strip(), t.strip(), "  ".join(t.split(" "))][k]
        return gen.text(d, d.draw(2))
    req = d.list(one, 0, 6, 3)
    return {"lines": lines, "req": req, "ws": d.chance(0.5)}


def c_all(c):
    p = parse(c["lines"])
    what = "req_cfgspec_all_diff(%r, ignore_ws=%r) on %r" % (c["req"], c["ws"], c["lines"])
    norm = (lambda t: tuple(t.split())) if c["ws"] else (lambda t: t.strip())
    for r in c["req"]:
        if not re.search("[a-zA-Z]", r):
            raise Reject()
    have = {norm(x) for x in c["lines"]}
    snap = snapshot(p)
    got = p.req_cfgspec_all_diff(list(c["req"]), ignore_ws=c["ws"])
    same(got, [r for r in c["req"] if norm(r) not in have], what)
    same(snapshot(p), snap, what + ": configuration")
    return bool(got) and len(got) < len(c["req"])


def g_excl(d):
    c = g_req(d)
    c["line"] = d.pick([".", "a", "foo", "interface", "ip", "^a", "no ", r"^\s+", gen.pattern(d, c["lines"])])
    k = d.draw(4)
    c["unc"] = [".*", r"\S.*", r"\S+( \S+)?", c["line"] + ".*"][k]
    c["rm"] = d.chance(0.8)
    return c


def negate(t):
    t = t.strip()
    return re.sub(r"^no\s+", "", t) if re.match(r"no\s+\S", t) else "no " + t


def c_excl(c):
    f = rx(c["line"])
    lines = [x.rstrip() for x in c["lines"] if x.strip()]
    plain(c["line"], lines)
    p = parse(c["lines"])
    t = delivered(c["lines"], True, False)[0]  # (a line of spaces, though not kept, can stand between a comment and the line above it)
    what = "req_cfgspec_excl_diff(%r, %r, %r) on %r" % (c["line"], c["unc"], c["req"], c["lines"])
    reqs = [r.strip() for r in c["req"]]
    hit = [i for i, x in enumerate(t.lines) if f(x)]
    viol = [i for i in hit if t.lines[i].strip() not in reqs]
    for i, x in enumerate(t.lines):
        if x.strip() in reqs and i not in hit:
            raise Reject()
    out = {}
    for i in viol:
        m = re.search(c["unc"], t.lines[i])
        if not m or not m.group(0).strip() or m.group(0).strip() == "no":
            raise Reject()
        out[i] = " " * t.indent[i] + negate(m.group(0))
        for j in t.ancestors(i):
            out.setdefault(j, None)
    exp = [t.lines[i] if out[i] is None else out[i] for i in sorted(out)]
    have = {t.lines[i].strip() for i in hit}
    exp += [r for r in c["req"] if r.strip() not in have]
    same(p.req_cfgspec_excl_diff(c["line"], c["unc"], list(c["req"])), exp, what)
    return bool(viol)


def neg_sync(t):
    t = "no " + t.strip()
    while re.match(r"no\s+no\s+\S", t):
        t = re.sub(r"^no\s+no\s+", "", t)
    return t


def g_sync(d):
    c = g_excl(d)
    if d.chance(0.6):
        c["req"] = g_edit(d, c["lines"])
    c["line"] = d.pick([c["line"], ""])
    c["kw"] = {k: v for k, v in (("syntax", d.pick(["", "ios", "nxos"])), ("ignore_order", d.chance(0.5))) if d.chance(0.4)}
    c["psyn"] = d.pick(["ios", "ios", "nxos"])
    c["tuple"] = d.chance(0.2)
    return c


def c_sync(c):
    f = re.compile(c["line"]).search
    p = CiscoConfParse(list(c["lines"]), syntax=c.get("psyn", "ios"))
    kw = c.get("kw", {})
    what = "sync_diff(%r, %r, %r, remove_lines=%r, %r) on %r" % (c["req"], c["line"], c["unc"], c["rm"], kw, c["lines"])
    A, B = entries(c["lines"], True), entries(c["req"], True)
    pa, pb = {e[0] for e in A}, {e[0] for e in B}
    exp, seen = Counter(), set()
    removed, added = [], []
    for path, ind, _ in A:
        if path in pb or path in seen or not f(path[-1]):
            continue
        seen.add(path)
        if c["rm"]:
            m = re.search(c["unc"], path[-1])
            if not m or not m.group(0).strip():
                raise Reject()
            removed.append(" " * ind + neg_sync(m.group(0)))
    for path, ind, _ in B:
        if path in pa or path in seen or not f(path[-1]):
            continue
        seen.add(path)
        added.append(path)
    exp.update(removed)
    for path in added:
        exp.update(path)
    snap = snapshot(p)
    got = p.sync_diff((tuple if c.get("tuple") else list)(c["req"]), c["line"], c["unc"], remove_lines=c["rm"], **kw)
    same(Counter(got), exp, what)
    # removals in the order of the configuration
    it = iter(got)
    for r in removed:
        require(any(r == g for g in it), what + ": removals out of order in %r", got)
    # every added line directly follows its parents
    todo = Counter(added)
    for k, g in enumerate(got):
        for path in list(todo):
            if path[-1] == g and tuple(got[max(0, k - len(path) + 1):k + 1]) == path:
                del todo[path]
    same(sorted(todo), [], what + ": added lines which do not follow their parents in %r" % got)
    same(snapshot(p), snap, what + ": configuration")
    return bool(removed) and bool(added)


SUBS = [Sub("diff", g_diff, c_diff, RULE, 3),
        Sub("all", g_req, c_all, "some required lines are present and some are missing", 1),
        Sub("excl", g_excl, c_excl, "at least one line is to be removed", 1),
        Sub("sync", g_sync, c_sync, "at least one line is to be removed and one to be added", 2)]
