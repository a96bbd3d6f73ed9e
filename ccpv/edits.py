"""Common pieces of the editing properties."""
from . import gen
from .ccp import *  # noqa: F401,F403


def new_text(d, lines, syntax, factory):
    """Text of a line to insert (not blank)."""
    k = d.draw(10)
    have = [x for x in lines if x.strip()]
    if k < 3 and have:
        t = d.pick(have)
    elif k < 4:
        t = d.pick(["!", "! note", "  !x", "# note"])
    else:
        t = " " * d.pick([0, 0, 1, 1, 2, 3]) + gen.text(d, d.draw(2))
        if d.chance(0.1):
            t += "  "
    if factory:
        t = gen.typed_safe([t], syntax)[0]
    return t


def check_edit(p, want, c, atomic, what, changed=True):
    """p's lines are `want`; after a commit the tree is that of a fresh parse.  Returns the model tree."""
    if not atomic:
        objs = list(p.objs)
        same([o.text for o in objs], want, what + ": lines before commit")
        nums = [o.linenum for o in objs]
        if changed:
            same(nums, list(range(len(want))), what + ": line numbers before commit")
        else:
            require(all(a < b for a, b in zip(nums, nums[1:])), what + ": line numbers before commit: %r", nums)
        p.commit()
    tree, idx = delivered(want, c["ignore"], c["factory"], c.get("comment", "!"))
    check_tree(p, tree, what + " after commit")
    same([o.linenum for o in p.objs], idx, what + ": line numbers after commit")
    return tree
