"""Sub-checks, the search loop (random + coverage-guided mutation), shrinking, reporting."""
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import env
from .src import Src, shrink

NPROC = max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 40.0


class Violation(Exception):
    pass


class Reject(Exception):
    """The generated case is outside the property's domain."""


class CaseTimeout(BaseException):
    pass


class Sub:
    """One sub-check: gen(src) -> JSON case;  check(case) -> falsy (trivial) / True / label."""

    def __init__(self, name, gen, check, rule="", weight=1, fixed=()):
        self.name = name
        self.gen = gen
        self.check = check
        self.rule = rule
        self.weight = weight
        self.fixed = list(fixed)


def require(cond, msg, *args):
    if not cond:
        raise Violation((msg % args) if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def raises(fn, what, types=(Exception,)):
    """fn() must raise (any Exception type unless given)."""
    try:
        r = fn()
    except types:
        return True
    raise Violation("%s: expected an error, got %r" % (what, r))


# ---------------------------------------------------------------------------------------
def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout("case did not finish within the time limit")


def run_case(sub, case, timeout=CASE_TIMEOUT):
    """-> ('ok', label) / ('reject', None) / ('fail', message)"""
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        r = sub.check(case)
        return ("ok", r)
    except Reject:
        return ("reject", None)
    except Violation as e:
        return ("fail", str(e))
    except CaseTimeout:
        return ("fail", "did not finish within %g s" % timeout)
    except SystemExit as e:
        return ("fail", "unexpected SystemExit(%r)" % (e.code,))
    except Exception as e:  # anything unexpected from the code under test
        tb = traceback.extract_tb(e.__traceback__)
        loc = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:])
        return ("fail", "unexpected %s: %s [%s]" % (type(e).__name__, e, loc))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def load(pid):
    mod = importlib.import_module("ccpv.props.%s" % pid.lower())
    return mod


# -- coverage of the code under test (novelty signal) -------------------------------------
class Cover:
    """sys.monitoring LINE events, each reported once: cheap novelty detection."""

    def __init__(self):
        self.new = 0
        self.total = 0
        self.on = False
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        self.prefix = os.path.join(env.REPO, "ciscoconfparse") + os.sep
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "ccpv")
        except ValueError:
            return
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self._line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.new += 1
            self.total += 1
        return sys.monitoring.DISABLE

    def take(self):
        n = self.new
        self.new = 0
        return n


def mutate(rng, choices):
    c = list(choices)
    for _ in range(1 + int(rng.random() * 3)):
        if not c:
            break
        k = rng.random()
        i = int(rng.random() * len(c))
        if k < 0.45:
            j = min(len(c), i + 1 + int(rng.random() * 3))
            for x in range(i, j):
                c[x] = int(rng.random() * (2 * c[x] + 8)) if rng.random() < 0.7 else int(rng.random() * 1000)
        elif k < 0.65:
            j = min(len(c), i + 1 + int(rng.random() * 12))
            del c[i:j]
        elif k < 0.9:
            j = min(len(c), i + 1 + int(rng.random() * 24))
            at = int(rng.random() * (len(c) + 1))
            c[at:at] = c[i:j]
        else:
            del c[i:]
    return c


def worker(pid, tier, seed, wid, budget, maxcases, outfile, stop):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    res = {"evals": 0, "rejects": 0, "nontrivial": [], "labels": {}, "samples": [], "viol": [], "error": None,
           "per_sub": {}, "lines": 0}
    try:
        mod = load(pid)
        subs = mod.SUBS
        only = os.environ.get("CCPV_ONLY")
        if only:
            subs = [s for s in subs if s.name in only.split(",")]
        cover = Cover()
        t0 = time.monotonic()
        rngs = [random.Random("%s/%s/%s/%s" % (seed, pid, s.name, wid)) for s in subs]
        corpora = [[] for _ in subs]
        seen = set()
        failed = set()
        total_w = float(sum(s.weight for s in subs))
        spent = [0.0] * len(subs)
        n = [0] * len(subs)
        while True:
            now = time.monotonic() - t0
            live = [i for i in range(len(subs)) if i not in failed]
            if not live or stop.is_set():
                break
            if now > budget and all(n[i] >= 25 for i in live):
                break
            if now > budget * 4 + 30:
                break
            if sum(n) >= maxcases:
                break
            # the sub-check which is furthest behind its share
            k = min(live, key=lambda i: (n[i] >= 10, spent[i] / subs[i].weight))
            s, rng, corpus = subs[k], rngs[k], corpora[k]
            t1 = time.monotonic()
            for _ in range(10):
                if corpus and rng.random() < 0.35:
                    src = Src(rng, mutate(rng, corpus[int(rng.random() * len(corpus))]))
                else:
                    src = Src(rng)
                try:
                    case = s.gen(src)
                except Reject:
                    n[k] += 1
                    res["rejects"] += 1
                    continue
                cover.take()
                st, lab = run_case(s, case)
                n[k] += 1
                if cover.take() and len(corpus) < 400 and st == "ok":
                    corpus.append(src.rec)
                if st == "ok":
                    res["evals"] += 1
                    if lab:
                        d = digest(case)
                        if d not in seen:
                            if len(seen) < 3000000:
                                seen.add(d)
                            lb = lab if isinstance(lab, str) else s.name
                            res["labels"][lb] = res["labels"].get(lb, 0) + 1
                            if len(res["samples"]) < 2 * len(subs) and \
                                    sum(1 for x in res["samples"] if x["sub"] == s.name) < 2:
                                if len(canon(case)) < 4000:
                                    res["samples"].append({"sub": s.name, "case": case})
                elif st == "reject":
                    res["rejects"] += 1
                else:
                    res["evals"] += 1
                    failed.add(k)
                    # shrink
                    slow = lab.startswith("did not finish")

                    def fails(ch):
                        sr = Src(None, ch)
                        try:
                            c = s.gen(sr)
                        except Reject:
                            return None
                        stt, _m = run_case(s, c, 6.0)
                        return sr.rec if stt == "fail" else None
                    best = shrink(src.rec, fails, 60 if slow else 25, time.monotonic)
                    sr = Src(None, best)
                    mc = json.loads(json.dumps(s.gen(sr)))
                    st2, msg2 = run_case(s, mc)
                    if st2 != "fail":
                        mc = json.loads(json.dumps(case))
                        st2, msg2 = run_case(s, mc)
                    if st2 == "fail":
                        res["viol"].append({"sub": s.name, "case": mc, "msg": msg2})
                    else:
                        # reproduces only with the state left by earlier cases
                        res["viol"].append({"sub": s.name, "case": json.loads(json.dumps(case)),
                                            "msg": lab + " (not reproduced in isolation: %s)" % st2, "flaky": True})
                    stop.set()
                    break
            spent[k] += time.monotonic() - t1
        res["nontrivial"] = [x.hex() for x in seen]
        res["per_sub"] = {s.name: n[i] for i, s in enumerate(subs)}
        res["lines"] = cover.total
    except BaseException:
        res["error"] = traceback.format_exc()
        stop.set()
    with open(outfile, "w") as f:
        json.dump(res, f)


def known_findings():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {"known": [], "fixed": []}
    with open(path) as f:
        return json.load(f)


def write_replay(pid, sub, case, msg):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, sub, digest(case).hex()))
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": sub, "case": case, "message": msg}, f, indent=1, sort_keys=True)
    return path


def replay(pid, path):
    signal.signal(signal.SIGALRM, _alarm)
    with open(path) as f:
        r = json.load(f)
    mod = load(pid)
    for s in mod.SUBS:
        if s.name == r["sub"]:
            st, msg = run_case(s, r["case"])
            print(st, msg)
            if st == "fail":
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            return 0
    print("no such sub-check")
    return 2


def main(argv):
    import multiprocessing as mp
    pid = argv[0].upper()
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(pid, os.path.abspath(argv[2]))
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        print("bad tier", tier)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    mod = load(pid)
    signal.signal(signal.SIGALRM, _alarm)
    subs = {s.name: s for s in mod.SUBS}
    viols = []
    evals0 = 0
    # 1. known findings (documented defects): their exact cases
    kf = known_findings()
    for e in kf["known"]:
        if e["property"] != pid:
            continue
        st, msg = run_case(subs[e["sub"]], e["case"])
        evals0 += 1
        if st == "fail":
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        else:
            print("note: known finding no longer fails: %s" % e["what"])
    # 2. fixed regression cases
    reg = []
    for s in mod.SUBS:
        for c in s.fixed:
            reg.append((s, c))
    cpath = os.path.join(env.VERIF, "ccpv", "corpus", pid.lower() + ".json")
    if os.path.exists(cpath):
        with open(cpath) as f:
            for r in json.load(f):
                if r["sub"] in subs:
                    reg.append((subs[r["sub"]], r["case"]))
    bad = set()
    for s, c in reg:
        if s.name in bad:
            continue
        c = json.loads(json.dumps(c))
        st, msg = run_case(s, c)
        evals0 += 1
        if st == "fail":
            bad.add(s.name)
            viols.append({"sub": s.name, "case": c, "msg": msg})
        elif st == "reject":
            print("harness error: fixed case rejected", s.name, c)
            return 2
    # 3. search
    budget = float(os.environ.get("CCPV_BUDGET") or
                   (getattr(mod, "QUICK_S", 14) if tier == "quick" else getattr(mod, "THOROUGH_S", 420)))
    maxcases = int(os.environ.get("CCPV_MAXCASES") or 10 ** 9)
    agg = {"evals": evals0, "rejects": 0, "labels": {}, "samples": [], "nt": set(), "per_sub": {}, "lines": 0}
    if not viols:
        ctx = mp.get_context("fork")
        stop = ctx.Event()
        procs = []
        nproc = int(os.environ.get("CCPV_PROCS") or NPROC)
        for w in range(nproc):
            of = os.path.join(env.scratch(), "w%d.json" % w)
            pr = ctx.Process(target=worker, args=(pid, tier, seed, w, budget, maxcases, of, stop))
            pr.start()
            procs.append((pr, of))
        for pr, of in procs:
            pr.join(budget * 5 + 200)
            if pr.is_alive():
                pr.kill()
                pr.join()
        dead = 0
        for pr, of in procs:
            if not os.path.exists(of):
                dead += 1
                continue
            with open(of) as f:
                r = json.load(f)
            if r["error"]:
                print("harness error in worker:\n" + r["error"])
                return 2
            agg["evals"] += r["evals"]
            agg["rejects"] += r["rejects"]
            for k, v in r["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            for k, v in r["per_sub"].items():
                agg["per_sub"][k] = agg["per_sub"].get(k, 0) + v
            agg["nt"].update(r["nontrivial"])
            if len(agg["samples"]) < 40:
                for smp in r["samples"]:
                    if sum(1 for x in agg["samples"] if x["sub"] == smp["sub"]) < 2:
                        agg["samples"].append(smp)
            agg["lines"] = max(agg["lines"], r["lines"])
            viols.extend(r["viol"])
        if dead:
            print("harness error: %d worker(s) died without a result" % dead)
            if not viols:
                return 2
    # one report per sub-check, the smallest case
    best = {}
    for v in viols:
        k = v["sub"]
        if k not in best or len(canon(v["case"])) < len(canon(best[k]["case"])):
            best[k] = v
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["evals"], "distinct_nontrivial": len(agg["nt"]),
            "rule": getattr(mod, "RULE", "") + " Distinct = different canonical JSON of the generated case.",
            "samples": agg["samples"] or [{"sub": s.name, "case": c} for s, c in reg[:3]] or
            [v["case"] for v in viols[:1]],
            "rejected": agg["rejects"], "cases_per_subcheck": agg["per_sub"],
            "nontrivial_by_label": agg["labels"], "repo_lines_reached_while_searching": agg["lines"],
        },
        "wall_s": round(time.monotonic() - t0, 3), "violations": len(best),
        "assumptions": list(getattr(mod, "ASSUME", [])) + [
            "cases are sampled: a violation outside the explored cases is possible",
            "the reference models in /verif/ccpv are correct"],
    }
    evd = os.path.join(env.VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d rejected, %.1f s, lines reached %d; per sub %s" % (
        pid, tier, agg["evals"], len(agg["nt"]), agg["rejects"], time.monotonic() - t0, agg["lines"],
        agg["per_sub"]))
    for k, v in sorted(best.items()):
        path = write_replay(pid, k, v["case"], v["msg"])
        print("  [%s] %s" % (k, v["msg"][:1500]))
        print("  case: %s" % canon(v["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if best else 0
