"""Structured generators of configurations, patterns and tokens."""
import ast
import os
import re

from . import env

WORDS = ["a", "b", "c", "ab", "a b", "foo", "bar", "baz", "foo bar"]
NUMS = ["1", "2", "10", "12", "100", "1 foo", "2 a", "12 a", "0", "11 foo"]
FUNNY = ["x.y", "a.b*c", "foo (bar)", "x [y]", "$1$abc.", "a\\b", "q \"it's\" q", "caf\u00e9", "\u65e5\u672c", "a|b", "^x$",
         "a+b?", "a  b", "foo   bar", "x\ty", "%d", "no", "exit", "end", "x!", "a ! b", "# not", "default", "a:b", "@x",
         "x" * 40, "long " * 60, "y" * 1200, "!x"[1:], "foo bar baz qux", "no no a", "A", "FOO", "\u00df", "if {", "}", "} else {", "{", "x { y }", "a\x0cb", "c\x1cd e", "f\u2028g", "h\x85i"]
TOP = ["interface GigabitEthernet0/1", "interface GigabitEthernet0/10", "interface GigabitEthernet0/1.100",
       "interface Vlan10", "interface Vlan100", "interface Loopback0", "interface Serial1/0", "router bgp 65000",
       "router ospf 1", "policy-map QOS", "class-map match-any VOICE", "vlan 10", "vlan 100",
       "ip access-list extended ACL1", "hostname R1", "ip route 0.0.0.0 0.0.0.0 1.2.3.4", "line vty 0 4", "ntp server 1.1.1.1",
       "snmp-server community x", "access-list 101 permit ip any any", "route-map RM permit 10", "crypto map CM 10"]
SUBL = ["ip address 1.1.1.1 255.255.255.0", "ip address 10.0.0.1 255.255.255.252", "no ip address", "shutdown",
        "no shutdown", "description foo", "description foo bar", "switchport mode access", "switchport access vlan 10",
        "class VOICE", "class class-default", "bandwidth 100", "priority percent 30", "neighbor 1.1.1.1 remote-as 1",
        "address-family ipv4", "exit-address-family", "permit ip any any", "permit tcp any any eq 80",
        "deny ip any any log", "speed 100", "duplex full", "mtu 1500", "encapsulation dot1q 10", "network 10.0.0.0",
        "service-policy output QOS", "match ip dscp ef", "login", "transport input ssh", "standby 1 ip 1.1.1.2"]

_BAD = re.compile(r"^\s*(set\s+)*banner\s|aaa authentication fail-message|^macro name\b")


def repo_constants():
    """String and integer literals of the code under test: low-probability tokens of the generators."""
    strs, ints = set(), set()
    d = os.path.join(env.REPO, "ciscoconfparse")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        try:
            with open(os.path.join(d, fn), encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except Exception:
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.Expr,)) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, str) and 1 <= len(v) <= 24 and v.isprintable() and not re.search(r"[\\{}()\[\]?*+^$|]", v):
                    strs.add(v.strip())
                elif isinstance(v, int) and 0 <= v <= 2 ** 128:
                    ints.add(v)
    strs.discard("")
    return sorted(strs), sorted(ints)


CONST_STR, CONST_INT = repo_constants()
if not CONST_STR:
    CONST_STR = ["x"]
if not CONST_INT:
    CONST_INT = [1]


def ok_text(t, comment):
    """True when t (no leading blanks) is an ordinary command for the parsers."""
    s = t.strip()
    if not s or s[0] in comment:
        return False
    if _BAD.search(t):
        return False
    return True


def text(d, depth=0, comment="!"):
    """One command text without leading/trailing white space."""
    k = d.draw(100)
    if k < 35:
        t = d.pick(WORDS)
    elif k < 45:
        t = d.pick(NUMS)
    elif k < 57:
        t = d.pick(FUNNY)
    elif k < 85:
        t = d.pick(TOP if depth == 0 else SUBL)
    elif k < 90:
        t = d.pick(SUBL if depth == 0 else TOP)
    elif k < 95:
        t = d.pick(WORDS) + " " + str(d.draw(30))
    else:
        t = d.pick(CONST_STR)
        if d.chance(0.4):
            t = t + " " + d.pick(CONST_STR)
    if not ok_text(t, comment):
        t = "a"
        if not ok_text(t, comment):
            t = "z9"
    return t.strip()


def config(d, comment="!", blanks=True, comments=True, texts=None, hi=40, avg=None, trailing=True, big=True,
           irregular=True, mindeep=False, typed=None, tabs=True):
    """A list of configuration lines (strings)."""
    style = d.weighted([(4, 1), (2, 2), (2, "mix"), (1, "chaos"), (1, 4)])
    if not irregular and style in ("mix", "chaos"):
        style = 1
    if avg is None:
        avg = d.weighted([(3, 4), (4, 10), (2, 25)])
        if big and d.chance(0.01):
            avg, hi = 150, 400
    p_blank = d.weighted([(3, 0.0), (2, 0.08), (1, 0.3)]) if blanks else 0.0
    p_com = d.weighted([(2, 0.0), (3, 0.1), (1, 0.3)]) if comments else 0.0
    p_reuse = d.weighted([(2, 0.1), (2, 0.5), (1, 0.85)])
    p_deep = d.weighted([(3, 0.3), (2, 0.5), (1, 0.75)])
    p_tr = 0.06 if trailing else 0.0
    stack = [0]
    used = []
    out = []
    first = [True]
    maxdepth = 12
    if big and d.chance(0.03):
        maxdepth, p_deep = 60, 0.9

    def line():
        k = d.draw(1000)
        if k < 1000 * p_blank:
            return d.pick(["", "", "  ", " "])
        k = d.draw(1000)
        if k < 1000 * p_com:
            body = d.pick(["", "", " x", "foo", " a", " interface", "!"])
            return " " * d.pick([0, 0, 0, 1, 2, stack[-1]]) + d.pick(comment) + body
        if not first[0]:
            if style == "chaos":
                stack[-1:] = [d.draw(7)]
            else:
                mv = d.draw(100)
                if mv < 100 * p_deep:
                    step = style if isinstance(style, int) else 1 + d.draw(4)
                    if len(stack) < maxdepth:
                        stack.append(stack[-1] + step)
                elif mv < 100 * p_deep + 25:
                    pass
                else:
                    n = 1 + d.draw(len(stack))
                    while n > 1 and len(stack) > 1:
                        stack.pop()
                        n -= 1
                    if style == "mix" and d.chance(0.2) and stack[-1] > 0:
                        stack[-1] -= 1
        else:
            if d.chance(0.05):
                stack[-1] = d.draw(3)
        first[0] = False
        if used and d.chance(p_reuse):
            t = d.pick(used)
        elif texts is not None:
            t = texts(d, stack[-1])
        else:
            t = text(d, stack[-1], comment)
        if len(used) < 12:
            used.append(t)
        s = " " * stack[-1] + t
        if p_tr and d.chance(p_tr):
            s += d.pick([" ", "  ", "\t", " \r"])
        return s

    out = d.list(line, 0 if not mindeep else 1, hi, avg)
    if tabs and d.chance(0.03):
        out = ["\t" * (len(x) - len(x.lstrip(" "))) + x.lstrip(" ") for x in out]
    return out


def nonempty_config(d, **kw):
    c = config(d, **kw)
    if not any(x.strip() for x in c):
        c = c + ["a"]
    return c


def pattern(d, lines, comment="!"):
    """A valid regular expression likely to match some of the lines."""
    k = d.draw(20)
    texts = [x.strip() for x in lines if x.strip()]
    if texts and k < 14:
        t = d.pick(texts)
        j = d.draw(9)
        if j == 0:
            return re.escape(t)
        if j == 1:
            return "^" + re.escape(t)
        if j == 2:
            return re.escape(t) + "$"
        if j == 3:
            w = t.split()
            return re.escape(d.pick(w))
        if j == 4:
            a = d.draw(len(t))
            b = a + 1 + d.draw(min(6, len(t) - a))
            return re.escape(t[a:b])
        if j == 5:
            return r"^\s*" + re.escape(t)
        if j == 6:
            return r"^\s+" + re.escape(t.split()[0])
        if j == 7:
            return re.escape(t.split()[0]) + r"\b"
        return re.escape(t) + "|" + re.escape(d.pick(texts))
    return d.pick(["a", "^a", "b", r"\S+", r"^\S", r"^\s", "foo", "bar$", r"\d+", "interface", r"^interface\s+\S+",
                   "zzz", r"^\s+\S", "no ", "(a|b)", "ip", "[ab]", r"^$", ".", "x", "!", "^$|a", "(?i)FOO", "o+"])


def literal(d, lines):
    texts = [x.strip() for x in lines if x.strip()]
    if texts and d.chance(0.8):
        t = d.pick(texts)
        if d.chance(0.4):
            a = d.draw(len(t))
            return t[a:a + 1 + d.draw(6)].strip() or t
        return t
    return d.pick(["a", "foo", "x.y", "a.b*c", "foo (bar)", "zzz", "x [y]"])


def typed_safe(lines, syntax):
    """Commands whose typed class rejects malformed text are left to the typed properties: neutralise them."""
    out = []
    for x in lines:
        if re.match(r"ip(v6)? route", x):
            if syntax == "ios":
                x = "ip route 10.%d.0.0 255.255.0.0 1.2.3.4" % len(x)
            elif syntax == "nxos":
                x = "ip route 10.%d.0.0/16 1.2.3.4" % len(x)
        if syntax == "asa" and re.match(r"access-list", x):
            x = "access-list 101 extended permit ip any any"
        elif re.match(r"(aaa|object|object-group|name|names)\b", x.strip()):
            x = x[:len(x) - len(x.lstrip())] + "a"
        out.append(x)
    return out


BTYPES = ["login", "motd", "incoming", "exec", "telnet", "lcd", "prompt-timeout", "slip-ppp", "config-save"]
BODY = ["", "", "  ", "!", "! note", "hello", "  indented", "   deeper", "interface Gi0/1", " ip address 1.1.1.1", "exit",
        "end", "hostname x", "*****", "x y z", "no", "\u00e9t\u00e9", "| art |", "=-=-=", "\"quoted\"", "a", " a", "}", "banner", "macro name z", "banner motd #hi", " banner exec ~", "@", "noc@example", "mail@"]
MBODY = ["", "switchport mode access", "  indented", "# c", "!", "no shut", "a", " b", "interface x", "  ", "mail noc@", "@ note", " @", "a@b", "@@",
         "banner motd #hi", "banner exec ^", "macro name z", "macro description x", "#macro keywords $a", "exit", "end"]


def banner(d, syntax="ios", delims="^~#$%&|*_+=@X9Q!^~#nbotz"):
    """{'lines': [...], 'n': number of lines including the opening one, 'delim': c}"""
    c = d.pick(delims)
    fail = d.chance(0.15)
    lead = d.pick(["banner ", "banner ", "banner  "]) + d.pick(BTYPES) + d.pick([" ", " ", "  "])
    if fail:
        lead = "aaa authentication fail-message "
    elif d.chance(0.1):
        lead = "set " + lead
    body = d.list(lambda: d.pick(BODY), 0, 8, 3)
    body = [b for b in body if c not in b]
    tail = d.pick(["", "", "C"]) if c == "^" else ""
    extra = d.pick([" extra", " ", "!", " end x"]) if d.chance(0.1) else ""  # text behind the closing delimiter
    if d.chance(0.15):
        txt = d.pick(["", " hi ", "x"])
        if c in txt:
            txt = ""
        return {"lines": [(lead + c + txt + c + extra).rstrip()], "n": 1, "delim": c}
    first = d.pick(["", "", " hello", "x"])
    if c in first:
        first = ""
    last = d.pick(["", "", "bye", "  "])
    if c in last:
        last = ""
    lines = [(lead + c + tail + first)] + body + [last + c + tail + extra]
    return {"lines": [x.rstrip() for x in lines], "n": len(lines), "delim": c}


def macro(d):
    name = d.pick(["foo", "m1", "interface", "a b"])
    body = d.list(lambda: d.pick(MBODY), 0, 8, 3)
    return {"lines": ["macro name " + name] + body + ["@"], "n": len(body) + 2}
