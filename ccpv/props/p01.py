from ..ccp import *
from ..core import Sub
from .. import gen
from ..gen import config, typed_safe

SYN = ["ios", "nxos", "iosxr", "asa"]


def g_text(d):
    comment = d.weighted([(5, "!"), (1, "#"), (1, "!#"), (1, "*")])
    syn, fac = d.pick(SYN), d.chance(0.3)
    lines = config(d, comment=comment)
    if fac:
        lines = typed_safe(lines, syn)
    return {"lines": lines, "comment": comment, "ignore": not d.chance(0.4), "factory": fac, "syntax": syn,
            "tuple": d.chance(0.15)}


def c_text(c):
    lines = c["lines"]
    src = tuple(lines) if c["tuple"] else list(lines)
    p = CiscoConfParse(src, comment=c["comment"], syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"])
    same(list(src), list(lines), "the caller's list after parsing")
    keep = [x for x in lines if x.strip()] if c["ignore"] else list(lines)
    want = [x.rstrip() for x in keep]
    same([o.text for o in p.objs], want, "text of the parsed lines")
    same(list(p.ioscfg), want, "configuration text")
    same(len(p.objs), len(want), "number of parsed lines")
    nums = [o.linenum for o in p.objs]
    require(all(a < b for a, b in zip(nums, nums[1:])), "line numbers not increasing: %r", nums)
    if len(keep) == len(lines):
        same(nums, list(range(len(lines))), "line numbers")
    for o in p.objs:
        same(o.indent, len(o.text) - len(o.text.lstrip()), "indent of %r" % o.text)
    if not c["tuple"]:
        # the configuration does not depend on what becomes of the caller's list, nor the list on the configuration
        del src[1:]
        src.append("changed later")
        same([o.text for o in p.objs], want, "text of the parsed lines after the caller's list was changed")
        p.commit()
        same(list(p.ioscfg), want, "configuration text after the caller's list was changed and a commit")
        p.append_line("end of configuration")
        same(src, lines[:1] + ["changed later"], "the caller's list after editing the configuration")
    return len(lines) >= 3


def g_special(d):
    """Banners and macros, terminated or not, anywhere."""
    syn = d.pick(SYN)
    lines = config(d, hi=12, avg=4)
    for _ in range(1 + d.draw(2)):
        b = (gen.banner(d) if d.chance(0.6) else gen.macro(d))["lines"]
        if d.chance(0.3):
            b = b[:-1] or b
        at = d.draw(len(lines) + 1)
        lines[at:at] = b
    return {"lines": lines, "comment": "!", "syntax": syn, "ignore": not d.chance(0.4), "factory": d.chance(0.3)}


def c_special(c):
    lines = c["lines"]
    if c["factory"]:
        lines = typed_safe(lines, c["syntax"])
    p = CiscoConfParse(list(lines), syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"])
    got = [o.text for o in p.objs]
    if not c["ignore"]:
        same(got, [x.rstrip() for x in lines], "text of the parsed lines")
    else:  # blank lines may go or stay, nothing else
        same([x for x in got if x.strip()], [x.rstrip() for x in lines if x.strip()], "text of the parsed lines")
        it = iter([x.rstrip() for x in lines])
        require(all(any(x == y for y in it) for x in got), "lines %r are not a subsequence of the input %r", got, lines)
    nums = [o.linenum for o in p.objs]
    require(all(a < b for a, b in zip(nums, nums[1:])), "line numbers not increasing: %r", nums)
    return len(got) >= 3


SUBS = [Sub("text", g_text, c_text, weight=2), Sub("banners", g_special, c_special)]
RULE = "Random configurations; non-trivial = at least three input lines."
