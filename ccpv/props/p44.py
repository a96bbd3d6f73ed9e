"""P44: the command-line tool prints what the methods select."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile

from .. import gen
from ..ccp import *
from ..core import Reject, Sub
from ..model import is_blank
from ..search import plain, rx
from .p27 import encrypt
import ciscoconfparse.ciscoconfparse as cc

METHODS = ["find_lines", "find_children", "find_all_children", "find_blocks", "find_parents_w_child", "find_parents_wo_child",
           "req_cfgspec_all_diff", "req_cfgspec_excl_diff"]


def g_cli(d):
    lines = [x for x in gen.config(d, hi=25, avg=8) if "\x00" not in x and len(x.splitlines()) <= 1]
    m = d.pick(METHODS)
    c = {"lines": lines, "m": m, "a": gen.pattern(d, lines), "b": gen.pattern(d, lines), "sub": d.chance(0.004)}
    if m.startswith("req"):
        pool = [x.strip() for x in lines if x.strip() and "," not in x]
        c["req"] = d.list(lambda: d.pick(pool) if pool and d.chance(0.6) else gen.text(d, 0).replace(",", ""), 1, 4, 1.5)
        c["b"] = ".*"
    return c


def run(argv, real):
    """(printed text, whether it ended with an error)"""
    if real:
        r = subprocess.run([sys.executable, "-X", "utf8", "-c",
                            "import ciscoconfparse.ciscoconfparse as c; c.logger.remove(); c.parse_global_options()"] + argv,
                           capture_output=True, text=True, encoding="utf-8", env=dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p)))
        return r.stdout, r.returncode != 0
    out, old = io.StringIO(), sys.argv
    sys.argv = ["ciscoconfparse"] + argv
    try:
        with contextlib.redirect_stdout(out):
            cc.parse_global_options()
        return out.getvalue(), False
    except (RuntimeError, SystemExit):
        return out.getvalue(), True
    finally:
        sys.argv = old


def c_cli(c):
    lines = [x.rstrip() for x in c["lines"]]
    if any(x.strip().startswith("banner") or "macro name" in x for x in lines):
        raise Reject()
    if any(a.startswith("-") for a in (c["a"], c["b"])):
        raise Reject()  # an option for the option parser
    with tempfile.TemporaryDirectory(prefix="ccpv") as tmp:
        fn = os.path.join(tmp, "cfg")
        with open(fn, "w", encoding="utf-8") as f:
            f.write("".join(x + "\n" for x in c["lines"]))
        if not c["lines"]:
            raise Reject()
        tree, _ = delivered(c["lines"], True, False)
        L, m = tree.lines, c["m"]
        args, f = [c["a"]], rx(c["a"])
        plain(c["a"], L)
        hits = [i for i, t in enumerate(L) if f(t)]
        if m == "find_lines":
            want = [L[i] for i in hits]
        elif m == "find_children":
            want = [L[i] for i in sorted(set(hits) | {k for i in hits for k in tree.children[i]})]
        elif m == "find_all_children":
            want = [L[i] for i in sorted(set(hits) | {k for i in hits for k in tree.descendants(i)})]
        elif m == "find_blocks":
            blk = set(hits)
            for i in hits:
                blk.update(tree.children[i if tree.parent[i] is None else tree.parent[i]])
            for i in list(blk):
                blk.update(tree.ancestors(i))
            want = [L[i] for i in sorted(blk)]
        elif m.startswith("find_parents"):
            args.append(c["b"])
            plain(c["b"], L)
            g = rx(c["b"])
            want = [L[i] for i in hits if any(g(L[k]) for k in tree.children[i]) == (m == "find_parents_w_child")]
        elif m == "req_cfgspec_all_diff":
            args = [",".join(c["req"])]
            want = CiscoConfParse(list(c["lines"])).req_cfgspec_all_diff(list(c["req"]))
        else:
            args += [c["b"], ",".join(c["req"])]
            want = CiscoConfParse(list(c["lines"])).req_cfgspec_excl_diff(c["a"], c["b"], list(c["req"]))
        if any(a.startswith("-") for a in args):
            raise Reject()
        argv = ["-c", fn, "-m", m]
        for k, a in enumerate(args):
            argv += ["--a%d=%s" % (k + 1, a)] if not a else ["--a%d" % (k + 1), a]
        what = "%r on %r" % (argv[2:], c["lines"])
        out, err = run(argv, c["sub"])
    same(out, "".join(t + "\n" for t in want), what + ": printed")
    same(err, not want, what + ": ended with an error")
    return 0 < len(want) < len(L)


def g_pw(d):
    return {"salt": d.draw(16), "text": d.str([chr(i) for i in range(32, 127)], 1, 25, 9)}


def c_pw(c):
    e = encrypt(c["salt"], c["text"], True)
    out, _ = run(["-m", "decrypt", "--a1", e], False)
    same(out, c["text"] + "\n", "decrypt %r: printed" % e)
    return True


SUBS = [Sub("lines", g_cli, c_cli, "some but not all lines are printed", 5), Sub("decrypt", g_pw, c_pw, "always", 0.3)]
ASSUME = ["arguments do not begin with a dash", "required lines contain no comma", "nothing found ends with an error, as upstream does", "log messages are not part of the output"]
