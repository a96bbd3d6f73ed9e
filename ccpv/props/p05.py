from ..ccp import *
from ..core import Sub
from .. import gen

SYN = ["ios", "nxos", "iosxr"]


def col0(lines):
    """The first command of a text starts at column zero, as does any comment above it."""
    lines = list(lines)
    for i, x in enumerate(lines):
        lines[i] = x.lstrip()
        if x.strip() and x.strip()[0] != "!":
            break
    return lines


def g(kind):
    def gg(d):
        syn = "ios" if kind == "macro" else d.pick(SYN)
        b = gen.banner(d) if kind == "banner" else gen.macro(d)
        fac = d.chance(0.25)
        ignore = not d.chance(0.35)
        before = gen.config(d, hi=12, avg=4)
        after = col0(gen.config(d, hi=12, avg=4))
        mid = b["lines"]
        if d.chance(0.1):  # braces around and in the text
            for x in (before, after):
                for _ in range(d.draw(3)):
                    x.insert(d.draw(len(x) + 1), d.pick(["if {", "a {", "}", "} else {", "} b"]))
            for _ in range(d.draw(3) if len(mid) > 1 else 0):
                x = d.pick(["}", " }", "a {", "b{", "} else {"])
                if b.get("delim", "@") not in x:
                    mid.insert(d.int(1, len(mid) - 1), x)
        second = None
        if d.chance(0.25):
            second = (gen.banner(d) if kind == "banner" or d.chance(0.5) else gen.macro(d))["lines"]
        if fac:
            before, after = gen.typed_safe(before, syn), gen.typed_safe(after, syn)
        return {"before": before, "body": mid, "after": after, "second": second, "syntax": syn, "factory": fac, "ignore": ignore}
    return gg


def c(case):
    before, body, after = case["before"], case["body"], case["after"]
    second = case["second"] or []
    fac, ign, syn = case["factory"], case["ignore"], case["syntax"]
    blocks = [before, body, after, second]
    zero = ign and not fac  # zero-length input lines are removed up front
    if zero:
        blocks = [[x for x in bl if len(x)] for bl in blocks]
    p = parse(before + body + after + second, syntax=syn, factory=fac, ignore_blank_lines=ign)
    b_, body_, a_, s_ = blocks

    def drop(bl):
        return [x for x in bl if x.strip() or not ign]

    # body lines are kept, blank ones included
    want = [x.rstrip() for x in drop(b_) + body_ + drop(a_) + s_]
    same([o.text for o in p.objs], want, "lines of a configuration with a banner/macro")
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    nb = len(drop(b_))

    def check_block(start, n, what):
        op = objs[start]
        got = [pos.get(id(k), "outside") for k in op.children]
        same(got, list(range(start + 1, start + n)), "children of the %s line %r (text %r)" % (what, op.text, want))
        same([pos.get(id(k), "outside") for k in op.all_children], list(range(start + 1, start + n)), "all children of the %s line" % what)
        for k in objs[start + 1:start + n]:
            require(k.parent is op, "parent of body line %r is %r, not %r", k.text, k.parent.text, op.text)
            same([pos.get(id(x)) for x in k.children], [], "children of the body line %r" % k.text)
        if n == 1:
            same(list(op.children), [], "children of a one-line banner")

    check_block(nb, len(body_), "opening")
    if s_:
        check_block(nb + len(body_) + len(drop(a_)), len(s_), "second opening")
    # the rest is parsed as if the body were not there
    rest = [o for i, o in enumerate(objs) if not (nb < i < nb + len(body_)) and i < nb + len(body_) + len(drop(a_))]
    q = parse(b_ + ["zz marker"] + a_, syntax=syn, factory=fac, ignore_blank_lines=ign)
    rpos = {id(o): i for i, o in enumerate(rest)}
    qobjs = list(q.objs)
    qpos = {id(o): i for i, o in enumerate(qobjs)}
    same(len(qobjs), len(rest), "number of lines around the body")
    for i, (o, r) in enumerate(zip(rest, qobjs)):
        same(rpos.get(id(o.parent), "in the body"), qpos[id(r.parent)], "parent of %r around the body (text %r)" % (o.text, want))
        if i != nb:
            same([rpos.get(id(x)) for x in o.children], [qpos[id(x)] for x in r.children], "children of %r" % o.text)
    return len(body_) > 1


SUBS = [Sub("banner", g("banner"), c, weight=2), Sub("macro", g("macro"), c)]
RULE = "Banner or macro of random type, delimiter and body between two random configurations; non-trivial = a body line exists."
