"""P35: negation and reset strings."""
from .. import env  # noqa: F401
from ..core import Reject, Sub, require, same
from ..ccp import parse, snapshot

RULE = "the command has an indentation, a leading 'no', or blanks in a row (negation); the interface has children (reset)"
ASSUME = ["a command has at most one leading 'no', and something after it"]
WORDS = ["ip", "address", "10.0.0.1", "no", "No", "NO", "noip", "nonegotiate", "shutdown", "description", "x", "no-x", "{x}", "%s", "\\1", "$", "default", "!", "é", "a" * 40]


def line(d):
    neg = d.pick(["", "", "no", "no", "NO", "No"])
    words = d.list(lambda: d.pick(WORDS), 1, 6, 2)
    gap = lambda: d.pick([" ", " ", " ", "  ", "   ", "\t"])  # noqa: E731
    if words[0].lower() in ("no", "!"):
        words[0] = "ip"
    t = words[0]
    for w in words[1:]:
        t += gap() + w
    ind = d.pick(["", "", " ", "  ", "     ", "\t", " \t"])
    return {"indent": ind, "neg": neg, "gap": gap() if neg else "", "rest": t}


def g(d):
    return {"line": line(d), "syntax": d.pick(["ios", "nxos", "iosxr", "asa"]), "factory": d.chance(0.4), "head": d.chance(0.7), "how": d.pick(["parse", "text"])}


def c(case):
    ln = case["line"]
    text = ln["indent"] + ln["neg"] + ln["gap"] + ln["rest"]
    want = ln["indent"] + ("" if ln["neg"] else "no ") + ln["rest"]
    kw = dict(syntax=case["syntax"], factory=case["factory"])

    def negate(t):
        p = parse(["router bgp 1"] * case["head"] + [t if case["how"] == "parse" else "placeholder"], **kw)
        o = list(p.objs)[-1]
        if case["how"] == "text":
            o.text = t
        before = snapshot(p)
        out = o.uncfgtext
        same([o.text, snapshot(p)], [t, before], "the line after asking for its negation")
        return out

    same(negate(text), want, "uncfgtext of %r" % text)
    back = ln["indent"] + ("no " if ln["neg"] else "") + ln["rest"]
    same(negate(want), back, "uncfgtext of the negation of %r" % text)
    return bool(ln["indent"]) or bool(ln["neg"]) or "  " in text


NAMES = {"ios": ["GigabitEthernet0/1", "Loopback0", "ATM1/0.5 point-to-point", "Port-channel 5"], "nxos": ["Ethernet1/1", "port-channel10", "Vlan5"], "iosxr": ["GigabitEthernet0/0/0/1", "Bundle-Ether1.5", "Loopback7"]}


def g_reset(d):
    syntax = d.pick(["ios", "nxos", "iosxr"])
    lines, at = [], []
    for _ in range(d.int(1, 4)):
        if d.chance(0.6):
            at.append(len(lines))
            lines.append("interface " + d.pick(NAMES[syntax]))
        elif syntax != "iosxr" and d.chance(0.5):
            at.append(len(lines))
            lines.append("line " + d.pick(["con 0", "vty 0 4", "vty 5 15", "aux 0"] if syntax == "ios" else ["console", "vty"]))
        else:
            lines.append(d.pick(["hostname R1", "router ospf 1", "!"]))
            if lines[-1] == "!":
                continue
        lines += [d.pick([" ip address 10.0.0.1 255.0.0.0", " shutdown", " description x", "  deeper", " default x"]) for _ in range(d.draw(4))]
    if not at:
        raise Reject()
    return {"syntax": syntax, "lines": lines, "i": d.pick(at), "commit": d.chance(0.7)}


def c_reset(case):
    p = parse(case["lines"], syntax=case["syntax"], factory=True)
    lines, i = case["lines"], case["i"]
    o = list(p.objs)[i]
    same(o.build_reset_string(), "default " + lines[i], "reset string of %r" % lines[i])
    before = snapshot(p)
    same(snapshot(p), before, "asking for the reset string")
    o.reset()
    if case["commit"]:
        p.commit()
    want = lines[:i] + ["default " + lines[i]] + lines[i:]
    same([x.text for x in p.objs], want, "lines after the reset of line %d of %r" % (i, lines))
    if case["commit"]:
        same(snapshot(p), snapshot(parse(want, syntax=case["syntax"], factory=True)), "relations after the reset of line %d of %r" % (i, lines))
    require(o.text == lines[i], "the reset line changed")
    return i + 1 < len(lines) and lines[i + 1].startswith(" ")


SUBS = [Sub("negation", g, c, weight=2), Sub("reset", g_reset, c_reset, weight=1)]
