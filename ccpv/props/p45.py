"""P45: helper functions: external commands, repeated words, call logging, type enforcement."""
import os
import tempfile

from .. import env  # noqa: F401
from ..core import Sub, raises, require, same
import ciscoconfparse
from ciscoconfparse import run_this_posix_command, fix_repeated_words, log_function_call, enforce_valid_types, junos_unsupported
from ciscoconfparse.errors import InvalidShellVariableMapping

RULE = "a command with an argument, a non-zero status or an environment; a text with at least one repeated pair; every wrapped call"
ASSUME = ["commands are sh and printf in a scratch directory; environments hold text and numbers"]
ARG = ["a", "b c", "", "it's", 'say "x"', "$HOME", "*", "a;b", "é", "-n", "|", "&", "x\\y", "#", "~", "%s", "a  b", "<", "`x`", "日本"]
KEYS = ["A", "CCPV_X", "x_1", "LANG2", "PATH2"]
BARE = [("a", "a"), ("#b", "#b"), ("a#b", "a#b"), ("#", "#"), ("$HOME", "$HOME"), ("*", "*"), ("a;b", "a;b"), ("|", "|"), ("~", "~"), ("&&", "&&"),
        (">x", ">x"), ("\\\\", "\\"), ("\\ ", " "), ("\\#", "#"), ('"a b"c', "a bc"), ("''", ""), ('"it\'s"', "it's"), ("é", "é"), ("\\'", "'"), ("a=b", "a=b"), ("{a,b}", "{a,b}")]
VALS = ["v", "", "a b", "é", "$A", 5, 0, 1.5, "x=y", "'"]


def quote(s):
    return "'" + s.replace("'", "'\"'\"'") + "'"


def g_cmd(d):
    kind = d.pick(["printf", "bare", "bare", "status", "stderr", "pwd", "env", "env", "shell", "badenv", "signal", "large"])
    return {"kind": kind, "args": d.list(lambda: d.pick(ARG), 0, 5, 2), "bare": d.list(lambda: list(d.pick(BARE)), 1, 5, 2), "rc": d.pick([0, 1, 2, 77, 255]), "n": d.draw(30000),
            "env": [[k, d.pick(VALS)] for k in dict.fromkeys(d.list(lambda: d.pick(KEYS), 0, 3, 1.2))],
            "noenv": d.chance(0.3), "shell": d.chance(0.3), "bad": d.pick([5, "A=b", [["A", "b"]], {"A": None}, {"A": ["b"]}, {"1": {}}])}


def c_cmd(c):
    with tempfile.TemporaryDirectory(dir=env.scratch()) as tmp:
        tmp = os.path.realpath(tmp)
        k, args = c["kind"], c["args"]
        e = None if c["noenv"] else dict([["PATH", os.environ.get("PATH", "/usr/bin:/bin")], ["LC_ALL", "C.UTF-8"]] + c["env"])
        kw = dict(cwd=tmp, timeout=60, encoding="utf-8", env=e)
        err, rc = "", 0
        if k == "badenv":
            if isinstance(c["bad"], dict):
                raises(lambda: run_this_posix_command("true", cwd=tmp, env=c["bad"]), "an environment with a value %r" % c["bad"], (ValueError,))
            else:
                raises(lambda: run_this_posix_command("true", cwd=tmp, env=c["bad"]), "an environment %r" % (c["bad"],), (InvalidShellVariableMapping,))
            return k
        if k == "printf":
            cmd = "printf '%s\\n' " + " ".join(quote(a) for a in args)
            out = "".join(a + "\n" for a in args) or "\n"
        elif k == "bare":
            # Without a shell: no comments, variables, patterns or redirections; only quotes and backslashes mean something
            cmd = "printf '%s\\n' " + " ".join(x[0] for x in c["bare"])
            out = "".join(x[1] + "\n" for x in c["bare"])
        elif k == "status":
            cmd, rc, out = "sh -c 'exit %d'" % c["rc"], c["rc"], ""
        elif k == "stderr":
            cmd, rc, out, err = "sh -c 'echo out; echo problem >&2; exit %d'" % c["rc"], c["rc"], "out\n", "problem\n"
        elif k == "signal":
            # the status of a command that is killed is the negative number of the signal
            cmd, rc, out = "sh -c 'echo out; kill -%d $$'" % (9 if c["n"] % 2 else 15), -9 if c["n"] % 2 else -15, "out\n"
        elif k == "large":
            cmd, out = "seq %d" % c["n"], "".join("%d\n" % (i + 1) for i in range(c["n"]))
        elif k == "pwd":
            cmd, out = "sh -c 'cd -P . && pwd'", tmp + "\n"
        elif k == "env":
            cmd = "sh -c 'printf \"%s\\n\" " + " ".join('"$%s"' % x for x in KEYS) + "'"
            have = {} if e is None else {x: str(v) for x, v in e.items()}
            out = "".join(have.get(x, os.environ.get(x, "") if e is None else "") + "\n" for x in KEYS)
        else:
            cmd, out, kw["shell"] = "echo a | sed s/a/b/; echo x >&2; exit %d" % c["rc"], "b\n", True
            err, rc = "x\n", c["rc"]
        if c["shell"] and k not in ("bare", "signal"):
            kw["shell"] = True
        got = run_this_posix_command(cmd, **kw)
        same(list(got), [rc, out, err], "status, output and errors of %r with %r" % (cmd, {x: v for x, v in kw.items() if x != "cwd"}))
        same(os.listdir(tmp), [], "files made by %r" % cmd)
        return bool(args) or rc != 0 or k in ("env", "large", "pwd", "shell", "bare")


WORDS = ["no", "default", "do", "ip", "x", "nonegotiate", "a+", "a.b", "axb", "(x)", "[0-9]", "no-x", "NO", "\\d", "$"]


def g_rep(d):
    w = d.pick(WORDS)
    toks = [w] * d.pick([0, 1, 2, 3, 4, 5]) + d.list(lambda: d.pick(WORDS), 0, 4, 2)
    if not toks:
        toks = ["x"]
    return {"w": d.pick([w, w, w, " " + w + " "]), "toks": toks, "gaps": [d.pick([" ", " ", "  ", "\t"]) for _ in toks], "indent": d.pick(["", "", " ", "   "])}


def c_rep(c):
    w = c["w"].strip()
    toks, gaps = list(c["toks"]), list(c["gaps"])
    text = c["indent"] + "".join(t + g for t, g in zip(toks, gaps)).rstrip()
    n = 0
    while len(toks) > 2 and toks[0] == w and toks[1] == w:
        toks, gaps, n = toks[2:], gaps[2:], n + 1
    want = c["indent"] + "".join(t + g for t, g in zip(toks, gaps)).rstrip()
    same(fix_repeated_words(cmd=text, word=c["w"]), want, "repeated %r in %r" % (c["w"], text))
    same(fix_repeated_words(cmd=want, word=c["w"]), want, "repeated %r in %r" % (c["w"], want))
    return n > 0


def g_wrap(d):
    v = lambda: d.pick([0, 1, "x", None, [1, 2], {"a": 1}, True, 1.5])  # noqa: E731
    return {"args": [v() for _ in range(d.draw(4))], "kw": {k: v() for k in ["a", "b", "syntax"] if d.chance(0.3)}, "how": d.draw(3),
            "fail": d.chance(0.3), "types": d.draw(4), "val": v()}


def c_wrap(c):
    seen = []

    def f(*a, **k):
        """the doc of f"""
        seen.append([a, k])
        if c["fail"]:
            raise KeyError("own")
        return ["result", a, k]

    if c["how"] == 2:
        p = ciscoconfparse.CiscoConfParse(["a"], syntax="ios")
        w, first = junos_unsupported(f), [list(p.objs)[0]]
    else:
        w, first = (log_function_call(f) if c["how"] == 0 else log_function_call()(f)), []
        same([w.__name__, w.__doc__], [f.__name__, f.__doc__], "name of a logged function")
    args = first + c["args"]
    if c["fail"]:
        raises(lambda: w(*args, **c["kw"]), "a wrapped function which raises", (KeyError,))
    else:
        same(w(*args, **c["kw"]), ["result", tuple(args), c["kw"]], "result of a wrapped function")
    same(seen, [[tuple(args), c["kw"]]], "calls of a wrapped function")
    types = [(int,), (str,), (int, str), (list, dict, type(None))][c["types"]]
    if isinstance(c["val"], types):
        require(enforce_valid_types(c["val"], types, "bad") is None, "type %r of %r", types, c["val"])
    else:
        raises(lambda: enforce_valid_types(c["val"], types, "bad"), "%r is none of %r" % (c["val"], types), (ValueError,))
    return c["how"] < 2


SUBS = [Sub("commands", g_cmd, c_cmd), Sub("repeated", g_rep, c_rep), Sub("wrappers", g_wrap, c_wrap)]
