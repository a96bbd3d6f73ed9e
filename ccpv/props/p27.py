"""P27: type-7 passwords."""
from .. import env  # noqa: F401
from ..core import Sub, Violation, require, same
from ciscoconfparse.ciscoconfparse import CiscoPassword

RULE = "the clear text has four or more characters, or the key stream wraps around"
ASSUME = ["one byte per character"]
KEY = b"dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"
assert len(KEY) == 53


def encrypt(salt, text, upper):
    body = "".join(("%02X" if upper else "%02x") % (ord(ch) ^ KEY[(salt + i) % 53]) for i, ch in enumerate(text))
    return "%02d%s" % (salt, body)


def g_text(d):
    k = d.draw(4)
    if k == 0:
        return d.str("abcdefghijklmnopqrstuvwxyz0123456789", 1, 12, 6)
    if k == 1:
        return d.str([chr(i) for i in range(32, 127)], 1, 30, 9)
    if k == 2:
        return d.str([chr(i) for i in range(32, 127)], 20, 130, 60)
    return d.str([chr(i) for i in range(1, 256)], 1, 40, 9)


def g_ok(d):
    return {"salt": d.pick([0, 15, 52, d.draw(16), d.draw(53), d.draw(100)]), "text": g_text(d), "upper": d.chance(0.7)}


def c_ok(c):
    e = encrypt(c["salt"], c["text"], c["upper"])
    what = "type-7 string %r" % e
    same(CiscoPassword(e).decrypt(), c["text"], what)
    o = CiscoPassword()
    same(o.decrypt(e), c["text"], what + " as argument")
    same(o.decrypt(e), c["text"], what + " again")
    same(CiscoPassword("0" + "8").decrypt(ep=e), c["text"], what + " as argument of another object")
    return len(c["text"]) >= 4 or c["salt"] % 53 + len(c["text"]) > 53


def g_bad(d):
    e = encrypt(d.draw(53), g_text(d), d.chance(0.7))
    k = d.draw(8)
    if k == 0:
        s = e[:-1]
    elif k == 1:
        i = d.draw(2)
        s = e[:i] + d.pick("+-_ xA\u0663.\n") + e[i + 1:]
    elif k < 5:
        i = 2 + d.draw(len(e) - 2)
        s = e[:i] + d.pick("+-_ xgzGZ\u0663.\n") + e[i + 1:]
    elif k == 5:
        i = d.draw(len(e) + 1)
        s = e[:i] + d.pick(["  ", "\n\n", "zz", " \t", "x", "7 "]) + e[i:]
    elif k == 6:
        s = d.pick(["", "0", "08", "7", "ab", "a", "08 ", "0x08", "password", "secret", "08g", "cleartext!", "1", "99", "00"])
    else:
        s = "7 " + e
    return s


def valid(s):
    return len(s) >= 4 and len(s) % 2 == 0 and all(x in "0123456789" for x in s[:2]) and all(x in "0123456789abcdefABCDEF" for x in s[2:])


def c_bad(s):
    if valid(s):
        return None
    for f in (lambda: CiscoPassword(s).decrypt(), lambda: CiscoPassword().decrypt(s)):
        try:
            r = f()
        except Exception:
            continue
        require(not r, "%r is not a type-7 string but was decrypted to %r", s, r)
    return True


SUBS = [Sub("decrypt", g_ok, c_ok, RULE, 2), Sub("bad", g_bad, c_bad, "not a type-7 string", 1)]
