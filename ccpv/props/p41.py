"""Configurations do not influence each other: any interleaving, parallel threads and another process give the same results."""
import atexit
import json
import os
import subprocess
import sys
import threading

from .. import env
from ..core import Sub, Violation, canon as text, require, same
from .. import gen
from ..edits import new_text
from . import p36
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import CiscoRange, IPv4Obj, IPv6Obj, CiscoIOSInterface, collapse_addresses

RULE = "at least two configurations with at least three steps each (one for the other process)"
ASSUME = ["each configuration is used by one thread at a time"]
EDITS = ["commit", "append", "prepend", "insert", "del", "dell", "repl", "ins", "oins", "fam", "reparse", "diff"]
# values derived from hash() differ between processes by design
HASHED = ("hash_children", "line_id", "diff_id_list", "as_diff_dict")
UTIL = ["v4", "v6", "range", "irange", "intf", "collapse"]


def one(d, hi=8):
    k = p36.g(d)
    lines = k["lines"]
    steps = []
    for op in k["ops"][:hi]:
        steps.append(op)
        if d.chance(0.5):
            steps.append(["edit", d.pick(EDITS), d.draw(1000), new_text(d, lines, k["syntax"], k["factory"]), gen.pattern(d, lines), d.chance(0.5)])
        if d.chance(0.2):
            steps.append(["util", d.pick(UTIL), d.draw(1 << 30)])
    return {"lines": lines, "syntax": k["syntax"], "factory": k["factory"], "ignore": k["ignore"], "comment": k["comment"], "steps": steps}


def g(d):
    n = d.int(2, 3)
    confs = [one(d) for _ in range(n)]
    if d.chance(0.3):
        confs[1] = dict(confs[1], lines=[x for x in confs[0]["lines"] if d.chance(0.7)], syntax=confs[0]["syntax"], factory=confs[0]["factory"])
    if d.chance(0.3):
        for k in confs[1:]:
            k["steps"] = [x for x in confs[0]["steps"] if d.chance(0.8)] + k["steps"][:2]
    return {"confs": confs, "baton": [d.draw(1 << 30), d.pick([3, 7, 20, 100])] if d.chance(0.7) else None, "level": d.chance(0.7), "sched": [d.draw(n) for _ in range(sum(len(c["steps"]) + 1 for c in confs))]}


def util(kind, n):
    if kind == "v4":
        o = IPv4Obj("%d.%d.%d.%d/%d" % (n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255, n % 33))
        return [str(o), str(o.network), str(o.netmask), o.as_binary_tuple, o.as_decimal]
    if kind == "v6":
        o = IPv6Obj("2001:db8::%x/%d" % (n & 0xFFFF, n % 129))
        return [str(o), str(o.network), str(o.netmask), o.as_decimal]
    if kind == "range":
        r = CiscoRange("%d-%d,%d" % (n % 10, n % 10 + 1 + n % 7, 40 + n % 9), result_type=int)
        return [r.as_list(result_type=int), r.as_compressed_str(), len(r)]
    if kind == "irange":
        r = CiscoRange("Eth1/%d-%d,Eth2/%d" % (n % 10, n % 10 + 1 + n % 7, 1 + n % 9), result_type=str)
        return [sorted(str(x) for x in r.as_list(result_type=str)), len(r)]
    if kind == "intf":
        i = CiscoIOSInterface("GigabitEthernet%d/%d/%d.%d" % (n % 4, n % 3, n % 48, 1 + n % 99))
        return [str(i), i.slot, i.card, i.port, i.subinterface]
    return [str(x) for x in collapse_addresses([IPv4Obj("10.0.%d.0/24" % (n % 4)), IPv4Obj("10.0.%d.0/24" % (n % 4 ^ 1)), IPv4Obj("10.0.0.0/%d" % (20 + n % 5), strict=False)])]


class Run:
    """One configuration executing its script step by step."""

    def __init__(self, c):
        self.c = c
        self.kw = dict(syntax=c["syntax"], factory=c["factory"], ignore_blank_lines=c["ignore"], comment=c.get("comment", "!"))
        self.i = -1
        self.out = []

    def step(self):
        try:
            r = self._step()
        except RecursionError:
            raise
        except Exception as e:
            r = "raises " + type(e).__name__
        self.out.append(r)
        self.i += 1

    def _step(self):
        if self.i < 0:
            self.p = CiscoConfParse(list(self.c["lines"]), **self.kw)
            return self.state()
        s = self.c["steps"][self.i]
        if s[0] == "util":
            return util(s[1], s[2])
        if s[0] != "edit":
            r = p36.run(self.p, s)
            if s[0] == "props":
                r = [x for x in r if x[0] not in HASHED]
            return "-" if s[0] == "line" and s[1] == "hash" else r
        _e, k, n, new, pat, flag = s
        p = self.p
        objs = list(p.objs)
        o = objs[n % len(objs)] if objs else None
        if k == "commit":
            p.commit()
        elif k == "append":
            p.append_line(new)
        elif k == "prepend":
            p.prepend_line(new)
            p.commit()
        elif k == "insert":
            p.ConfigObjs.insert(n % (len(objs) + 1), new)
            p.commit()
        elif k == "del" and o is not None:
            o.delete()
            p.commit()
        elif k == "dell":
            p.delete_lines(pat)
            p.commit()
        elif k == "repl":
            p.replace_lines(pat, "x")
            p.commit()
        elif k == "ins":
            (p.insert_after if flag else p.insert_before)(pat, new)
            p.commit()
        elif k == "oins" and o is not None:
            (o.insert_after if flag else o.insert_before)(new)
            p.commit()
        elif k == "fam" and o is not None and not o.is_comment and o.text.strip():
            o.append_to_family(new, auto_indent=True)
            p.commit()
        elif k == "reparse":
            self.p = CiscoConfParse([x.text for x in objs], **self.kw)
        elif k == "diff":
            return list(p.sync_diff([x.text for x in objs][1:] + ["zz"], "^zz|^hostname"))
        return self.state()

    def state(self):
        return [x[1:] for x in p36.state(self.p)]

    def left(self):
        return self.i < len(self.c["steps"])

    def all(self):
        while self.left():
            self.step()
        return self.out


def compare(got, want, c, how):
    for i, (a, b) in enumerate(zip(got, want)):
        if text(a) != text(b):
            raise Violation("%s, step %r of configuration %r gives %r instead of %r" % (
                how, "parse" if i == 0 else c["steps"][i - 1], c["lines"], a, b))
    same(len(got), len(want), "number of results")


def c_inter(case):
    confs = case["confs"]
    want = [Run(c).all() for c in confs]
    runs = [Run(c) for c in confs]
    for k in case["sched"]:
        live = [r for r in runs if r.left()]
        if not live:
            break
        live[k % len(live)].step()
    for r in runs:
        r.all()
    for r, w, c in zip(runs, want, confs):
        compare(r.out, w, c, "interleaved with other configurations (schedule %r)" % case["sched"])
    return all(len(c["steps"]) >= 3 for c in confs)


class Baton:
    """Runs threads one at a time and switches between them at chosen lines of the library (a schedule that can be repeated)."""

    def __init__(self, n, seed, rate):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live, self.x, self.rate, self.free, self.n = list(range(n)), seed, rate, False, 0

    def draw(self, k):
        self.x = (self.x * 1103515245 + 12345) % (1 << 31)
        return (self.x >> 8) % k

    def switch(self, me, wait=True):
        others = [i for i in self.live if i != me]
        self.n += 1
        if self.n == 5000:
            self.rate = 300  # switches are slow
        if others and not self.free:
            self.sems[others[self.draw(len(others))]].release()
            if wait:
                self.wait(me)

    def wait(self, me):
        # a thread may wait for a lock that another one holds: let all of them run
        if not self.free and not self.sems[me].acquire(timeout=0.5):
            self.free = True

    def done(self, me):
        self.live.remove(me)
        self.switch(me, False)

    def level(self, me, runs):
        # let the others catch up, so that all execute the same step
        while not self.free and any(runs[i].i < runs[me].i for i in self.live):
            self.switch(me)

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line" and not self.free and self.draw(self.rate) == 0:
                self.switch(me)
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(env.REPO) else None
        return enter


def c_thread(case):
    confs = case["confs"]
    baton = Baton(len(confs), *case["baton"]) if case.get("baton") else None
    want = [Run(c).all() for c in confs]
    runs = [Run(c) for c in confs]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    errs = []

    def go(r, me):
        try:
            if baton:
                baton.wait(me)
                sys.settrace(baton.tracer(me))
            while r.left():
                if baton and case["level"]:
                    baton.level(me, runs)
                r.step()
        except BaseException as e:
            errs.append(repr(e))
        finally:
            if baton:
                sys.settrace(None)
                baton.done(me)
    try:
        ths = [threading.Thread(target=go, args=(r, i), daemon=True) for i, r in enumerate(runs)]
        for t in ths:
            t.start()
        if baton:
            baton.sems[baton.draw(len(runs))].release()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    require(not errs, "a thread failed: %r", errs)
    for r, w, c in zip(runs, want, confs):
        compare(r.out, w, c, "in parallel with other threads")
    return all(len(c["steps"]) >= 3 for c in confs)


# -- another process, with another hash seed ------------------------------------------------------
SERVERS = {}


def server(kind, seed):
    key = (os.getpid(), kind, seed)
    s = SERVERS.get(key)
    if s is None or s.poll() is not None:
        e = dict(os.environ, PYTHONHASHSEED=str(seed))
        s = subprocess.Popen([sys.executable, "-c", "from ccpv.props.p41 import %s; %s()" % (kind, kind)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=e, text=True, encoding="utf-8")
        SERVERS[key] = s
        atexit.register(stop, key)
    return s


def stop(key):
    s = SERVERS.pop(key, None)
    if s is not None and key[0] == os.getpid():
        s.kill()
        s.wait()
        s.stdin.close()
        s.stdout.close()


def ask(kind, seed, line):
    s = server(kind, seed)
    ok = False
    try:
        s.stdin.write(line + "\n")
        s.stdin.flush()
        got = s.stdout.readline()
        ok = bool(got)
    finally:
        if not ok:
            stop((os.getpid(), kind, seed))
    require(ok, "the other process died")
    return json.loads(got)


def serve():
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for line in sys.stdin:
        try:
            r = Run(json.loads(line)).all()
        except BaseException as e:
            r = ["server: %r" % e]
        out.write(text(r) + "\n")
        out.flush()


# -- a process which has done nothing before -------------------------------------------------------
def together(confs, sched):
    """All results of all configurations, executed in the order of the schedule."""
    runs = [Run(c) for c in confs]
    for k in sched:
        live = [r for r in runs if r.left()]
        if not live:
            break
        live[k % len(live)].step()
    return [r.all() for r in runs]


def zygote():
    """Answers each list of jobs (configurations, schedule) with the results of one new process per job."""
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for line in sys.stdin:
        kids = []
        for confs, sched in json.loads(line):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = text(together(confs, sched))
                    except BaseException as e:
                        res = json.dumps("the new process failed: %r" % e)
                    data = res.encode("utf-8")
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        res = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                res.append(f.read().decode("utf-8"))
            os.waitpid(pid, 0)
        out.write("[" + ",".join(x or "null" for x in res) + "]\n")
        out.flush()


def c_pristine(case):
    confs = case["confs"]
    jobs = [[confs, case["sched"]]] + [[[c], []] for c in confs]
    got = ask("zygote", 0, json.dumps(jobs))
    require(all(isinstance(x, list) for x in got), "a new process failed: %r", got)
    for i, c in enumerate(confs):
        compare(got[0][i], got[i + 1][0], c, "with other configurations in the same process (schedule %r)" % case["sched"])
    return all(len(c["steps"]) >= 3 for c in confs)


def g_proc(d):
    return {"conf": one(d, 12), "seed": d.int(1, 2)}


def c_proc(case):
    c = case["conf"]
    want = json.loads(text(Run(c).all()))
    got = ask("serve", case["seed"], json.dumps(c))
    compare(got, want, c, "in another process (hash seed %d)" % case["seed"])
    return len(c["steps"]) >= 3


QUICK_S = 24  # slow cases
SUBS = [Sub("pristine", g, c_pristine, weight=3), Sub("interleaved", g, c_inter, weight=2), Sub("threads", g, c_thread, weight=2), Sub("process", g_proc, c_proc, weight=2)]
