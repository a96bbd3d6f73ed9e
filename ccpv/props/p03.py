from ..ccp import *
from ..core import Sub
from ..gen import config, typed_safe

SYN = ["ios", "nxos", "iosxr", "asa"]


def g_tree(d):
    comment = d.weighted([(6, "!"), (1, "#"), (1, "!#")])
    syn, fac = d.pick(SYN), d.chance(0.2)
    lines = config(d, comment=comment)
    if fac:
        lines = typed_safe(lines, syn)
    if syn == "asa" and d.chance(0.3):  # ASA banners have no delimiter: one command a line
        for _ in range(1 + d.draw(3)):
            lines.insert(d.draw(len(lines) + 1), "banner %s %s" % (d.pick(["motd", "login", "exec", "asdm"]), d.pick(["Authorized only", "*****", "x", "^C", "", "interface a"])))
    return {"lines": lines, "comment": comment, "ignore": not d.chance(0.4), "factory": fac, "syntax": syn}


def c_tree(c):
    p = parse(c["lines"], comment=c["comment"], syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"])
    tree, idx = delivered(c["lines"], c["ignore"], c["factory"], c["comment"])
    check_tree(p, tree, "parse")
    return any(x is not None for x in tree.parent)


def g_insert_noise(d):
    return {"lines": config(d, blanks=False, comments=False, trailing=False),
            "noise": d.list(lambda: [d.draw(40), d.draw(5), d.pick(["!", "", "! x", "!interface a"])], 1, 8, 3)}


def c_insert_noise(c):
    """Metamorphic: blank and comment lines between commands change no command's parent."""
    lines = c["lines"]
    t = Tree(lines)
    noisy = [(x, i) for i, x in enumerate(lines)]
    for at, ind, txt in c["noise"]:
        noisy.insert(min(at, len(noisy)), (" " * ind + txt if txt else "", None))
    p = parse([x for x, _ in noisy], ignore_blank_lines=False)
    objs = list(p.objs)
    require(len(objs) == len(noisy), "number of lines %d, expected %d", len(objs), len(noisy))
    src = {id(o): k for o, (_, k) in zip(objs, noisy)}
    for o, (x, k) in zip(objs, noisy):
        if k is None:
            require(all(id(q.parent) != id(o) or q is o for q in objs), "a blank or comment line is a parent: %r", o.text)
            same(list(o.children), [], "children of blank/comment line")
            continue
        want = k if t.parent[k] is None else t.parent[k]
        same(src.get(id(o.parent)), want, "parent of %r with comments/blanks inserted in %r" % (o.text, [x for x, _ in noisy]))
    return any(x is not None for x in t.parent)


SUBS = [Sub("tree", g_tree, c_tree, weight=3), Sub("noise", g_insert_noise, c_insert_noise)]
RULE = "Random configurations with irregular indentation; non-trivial = at least one line has a parent."
