"""Runs the sub-checks of one property: generated-input search, shrinking, replay files, evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

from vlib import target                                   # noqa: E402
from vlib.core import Shared, Violation                           # noqa: E402
from vlib.source import G, HypG, mutate, shrink           # noqa: E402

FAST = bool(os.environ.get("PYRUS_FAST"))     # development (mutation runs): only whether a check fails
CASE_CPU_S = 20.0
CORES = 8
EVIDENCE = os.environ.get("PYRUS_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("PYRUS_REPLAYS", os.path.join(VERIF, "replays"))


class CaseTimeout(Exception):
    pass


def _alarm(_sig, _frm):
    raise CaseTimeout("the case did not finish within %g CPU seconds" % CASE_CPU_S)


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


def seed_of(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(target.SRC):
            where = " at %s:%s in %s" % (os.path.relpath(fr.filename, target.REPO), fr.lineno, fr.name)
            break
    if isinstance(exc, Violation):
        return str(exc)
    return "%s: %s%s" % (type(exc).__name__, exc, where)


def run_case(sub, case):
    """-> (labels or None, violation text or None)"""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        Shared.begin(sub, case)
        return sub.check(case), None
    except (KeyboardInterrupt, SystemExit):
        raise
    except target.HarnessError:
        raise
    except BaseException as e:           # any exception out of a check is a wrong answer of the code
        return None, describe(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


# ---- coverage of the code under test (guides mutation, reported in the evidence) -------------------
class Coverage:
    def __init__(self):
        self.new = False
        self.lines = set()
        self.branches = {}
        self.hits = {}
        self.mon = getattr(sys, "monitoring", None)
        self.total = 0
        if self.mon is None:
            return
        mon = self.mon
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, "verif")
        except ValueError:
            self.mon = None
            return
        mon.register_callback(self.tool, mon.events.LINE, self._line)
        mon.register_callback(self.tool, mon.events.BRANCH, self._branch)
        for name, mod in list(sys.modules.items()):
            if not name.startswith("pyrusgeom."):
                continue
            for code in self._codes(mod):
                if not code.co_filename.startswith(target.SRC):
                    continue
                mon.set_local_events(self.tool, code, mon.events.LINE | mon.events.BRANCH)
                self.total += len({ln for _, _, ln in code.co_lines() if ln is not None
                                   and ln != code.co_firstlineno})

    @staticmethod
    def _codes(mod):
        import types
        seen = set()
        stack = []
        for v in vars(mod).values():
            if isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
                stack.append(v.__code__)
            elif isinstance(v, type) and v.__module__ == mod.__name__:
                for w in vars(v).values():
                    if isinstance(w, (staticmethod, classmethod)):
                        w = w.__func__
                    if isinstance(w, property):
                        w = w.fget
                    w = getattr(w, "__wrapped__", w)
                    if isinstance(w, types.FunctionType):
                        stack.append(w.__code__)
        while stack:
            c = stack.pop()
            if c in seen:
                continue
            seen.add(c)
            yield c
            for k in c.co_consts:
                if hasattr(k, "co_code"):
                    stack.append(k)

    def _line(self, code, line):
        k = (code.co_filename, line)
        if k not in self.lines:
            self.lines.add(k)
            self.new = True
        return self.mon.DISABLE

    def _branch(self, code, off, dest):
        k = (id(code), off)
        s = self.branches.get(k)
        if s is None:
            s = self.branches[k] = set()
            self.hits[k] = 0
        if dest not in s:
            s.add(dest)
            self.new = True
        self.hits[k] += 1
        if len(s) >= 2 or self.hits[k] > 4000:       # one-sided branches are watched for a while only
            return self.mon.DISABLE
        return None

    def stop(self):
        if self.mon is not None:
            self.mon.free_tool_id(self.tool)


def _json(case):
    return json.dumps(case)


def worker(pid, idx, shard, seed, tier, out_q, n_scale, cap_s):
    """bulk search of one shard of one sub-check"""
    res = {"idx": idx, "shard": shard, "evals": 0, "nontrivial": 0, "labels": {}, "samples": [],
           "fail": None, "error": None, "mutated": 0, "corpus": 0, "hyp": 0, "trivial_labels": 0,
           "lines": [], "branches": 0, "capped": False}
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    t0 = time.monotonic()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGPROF, _alarm)
        mod = load_check(pid)
        sub = mod.SUBS[idx]
        consts = target.constants()
        rng = random.Random(seed_of(seed, pid, sub.name, shard))
        cov = Coverage()
        corpus = []
        seen = set()
        labels = res["labels"]
        history = []

        def account(case, choices, lab):
            res["evals"] += 1
            if lab is None:
                return
            key = hash(tuple(choices))
            if key in seen:
                return
            seen.add(key)
            res["nontrivial"] += 1
            for w in lab.split():
                labels[w] = labels.get(w, 0) + 1
            if len(res["samples"]) < 3 or (len(res["samples"]) < 6 and res["nontrivial"] % 997 == 0):
                res["samples"].append(case)

        def record_failure(case, choices, msg, phase):
            res["fail"] = {"case": case, "choices": list(choices) if choices is not None else None,
                           "msg": msg, "phase": phase, "history": history[-300:],
                           "after": res["evals"]}

        # explicit examples first (shrunken failures of the past, recorded defects)
        if shard == 0:
            for ex in sub.examples:
                lab, bad = run_case(sub, ex)
                account(ex, [json.dumps(ex)], lab)
                if bad:
                    record_failure(ex, None, bad, "example")
                    break
                history.append(ex)
        n = max(1, int(sub.n * n_scale))
        stop_at = t0 + cap_s
        i = 0
        while res["fail"] is None and i < n:
            i += 1
            if (i & 63) == 0 and time.monotonic() > stop_at:
                res["capped"] = True
                break
            if corpus and rng.random() < 0.15:
                g = G(rng, mutate(rng, corpus[int(rng.random() * len(corpus))]), consts)
                res["mutated"] += 1
            else:
                g = G(rng, (), consts)
            case = sub.gen(g)
            cov.new = False
            lab, bad = run_case(sub, case)
            account(case, g.choices, lab)
            if bad:
                record_failure(case, g.choices, bad, "search")
                break
            history.append(case)
            if len(history) > 600:
                del history[:300]
            if cov.new and len(corpus) < 400:
                corpus.append(list(g.choices))
        res["corpus"] = len(corpus)
        # the same generator driven by Hypothesis (its own distribution, its own shrinker)
        if res["fail"] is None and shard == 0:
            hyp_phase(sub, seed_of(seed, pid, sub.name, "hyp"), consts,
                      int(sub.hyp * (1 if tier == "quick" else 20)), res, account, record_failure,
                      history, stop_at)
        cov.stop()
        res["lines"] = sorted("%s:%d" % (os.path.basename(f), ln) for f, ln in cov.lines)
        res["branches"] = sum(len(s) for s in cov.branches.values())
        res["line_total"] = cov.total
        if res["fail"] is not None and not FAST:
            shrink_failure(sub, res["fail"], consts)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        res["error"] = traceback.format_exc()
    res["wall"] = time.monotonic() - t0
    try:
        _json(res)
    except TypeError:
        res["error"] = "case not serialisable: %r" % (res.get("fail"),)
        res["fail"] = None
        res["samples"] = []
    out_q.put(res)


def hyp_phase(sub, seed, consts, n, res, account, record_failure, history, stop_at):
    if n <= 0:
        return
    import hypothesis
    from hypothesis import strategies as st, settings, HealthCheck, Phase

    last = {}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
              verbosity=hypothesis.Verbosity.quiet)
    @hypothesis.given(st.data())
    def prop(data):
        if time.monotonic() > stop_at + 60:
            return
        g = HypG(data.draw, st.integers, consts)
        case = sub.gen(g)
        lab, bad = run_case(sub, case)
        if not last:
            account(case, g.choices, lab)
            res["hyp"] += 1
        if bad:
            last["v"] = (case, list(g.choices), bad)
            raise Violation(bad)

    try:
        prop()
    except Violation:
        pass
    except hypothesis.errors.HypothesisException:
        if not last:
            raise
    if last:
        record_failure(last["v"][0], last["v"][1], last["v"][2], "hypothesis")


def shrink_failure(sub, f, consts):
    if f["choices"] is None:
        return
    best = {}

    def fails(choices):
        g = G(None, choices, consts)
        try:
            case = sub.gen(g)
        except Exception:
            return None
        _, bad = run_case(sub, case)
        if bad is None:
            return None
        best["case"], best["msg"] = case, bad
        best[tuple(g.choices)] = (case, bad)
        return tuple(g.choices)

    again = fails(f["choices"])
    if again is None:
        f["flaky"] = True                 # depends on earlier cases: the history is kept instead
        return
    small, tries = shrink(again, fails, max_tries=3000, deadline=time.monotonic() + 25)
    case, msg = best[tuple(small)]
    f["shrunk_from"] = f["case"] if len(_json(f["case"])) < 4000 else "..."
    f["case"], f["msg"], f["choices"], f["shrink_tries"] = case, msg, small, tries
    f["history"] = []


# ---- replay --------------------------------------------------------------------------------------
def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    signal.signal(signal.SIGPROF, _alarm)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    mod = load_check(rec["property"])
    sub = [s for s in mod.SUBS if s.name == rec["sub"]][0]
    bad = None
    case = None
    for case in rec["cases"]:
        _, bad = run_case(sub, case)
        if bad:
            break
    sys.stdout = out
    if bad:
        print("reproduced: property %s, sub-check %s\n  oracle: %s\n  case: %s\n  %s"
              % (rec["property"], rec["sub"], sub.doc, _json(case), bad))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("not reproduced: %d case(s) of %s/%s pass" % (len(rec["cases"]), rec["property"], rec["sub"]))
    return 0


def write_replay(pid, sub, f, tier, seed):
    os.makedirs(REPLAYS, exist_ok=True)

    def dump(cases):
        rec = {"property": pid, "sub": sub.name, "oracle": sub.doc, "cases": cases, "message": f["msg"],
               "phase": f["phase"], "tier": tier, "seed": seed}
        h = hashlib.sha256(_json([sub.name, cases]).encode()).hexdigest()[:12]
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (pid, sub.name, h))
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1)
        return path

    def reproduces(path):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "--replay", path],
                           capture_output=True, text=True, cwd=VERIF)
        return r.returncode == 1

    path = dump([f["case"]])
    if reproduces(path):
        return path
    # the failure needs earlier calls in the same process: find a short history that shows it
    hist = f.get("history") or []
    k = 1
    while k <= len(hist):
        p = dump(hist[-k:] + [f["case"]])
        if reproduces(p):
            cases = hist[-k:]
            t_end = time.monotonic() + 30
            i = 0
            while i < len(cases) and time.monotonic() < t_end:
                q = dump(cases[:i] + cases[i + 1:] + [f["case"]])
                if reproduces(q):
                    os.remove(p)
                    p = q
                    del cases[i]
                else:
                    os.remove(q)
                    i += 1
            return p
        os.remove(p)
        k *= 2
    return dump([f["case"]])


# ---- one property --------------------------------------------------------------------------------
def run_property(pid, tier, seed):
    t0 = time.monotonic()
    mod = load_check(pid)
    subs = mod.SUBS
    per = max(1, CORES // len(subs))
    extra = max(0, CORES - per * len(subs)) if per * len(subs) <= CORES else 0
    jobs = []
    for i in range(len(subs)):
        for sh in range(per + (1 if i < extra else 0)):
            jobs.append((i, sh))
    n_scale = float(os.environ.get("PYRUS_SCALE", "1")) * (4 if tier == "quick" else 120)
    cap = 150.0 if tier == "quick" else 1800.0
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    results = []
    pending = list(jobs)
    running = {}
    while pending or running:
        while pending and len(running) < CORES:
            j = pending.pop(0)
            p = ctx.Process(target=worker, args=(pid, j[0], j[1], seed, tier, q, n_scale, cap))
            p.start()
            running[j] = p
        try:
            r = q.get(timeout=1.0)
        except Exception:
            for j, p in list(running.items()):
                if not p.is_alive():
                    # give its result a last chance to arrive
                    try:
                        r = q.get(timeout=2.0)
                        break
                    except Exception:
                        results.append({"idx": j[0], "shard": j[1], "evals": 0, "nontrivial": 0,
                                        "labels": {}, "samples": [], "fail": None, "lines": [],
                                        "error": "worker ended with code %s" % p.exitcode,
                                        "mutated": 0, "corpus": 0, "hyp": 0, "branches": 0,
                                        "wall": 0, "capped": False})
                        del running[j]
            else:
                continue
        results.append(r)
        if FAST and r["fail"]:
            for p in running.values():
                p.kill()
            print("VIOLATION property=%s replay=none %s" % (pid, r["fail"]["msg"]))
            return 1
        j = (r["idx"], r["shard"])
        p = running.pop(j, None)
        if p is not None:
            p.join()
    results.sort(key=lambda r: (r["idx"], r["shard"]))

    fuzz = []
    if tier == "thorough" and not any(r["fail"] or r["error"] for r in results):
        from vlib import fuzz as fz
        fuzz = fz.run_all(pid, subs, seed)

    cov_sub = []
    violations = []
    errors = []
    lines = set()
    samples = []
    evals = nontriv = 0
    for i, s in enumerate(subs):
        rs = [r for r in results if r["idx"] == i]
        lab = {}
        for r in rs:
            for k, v in r["labels"].items():
                lab[k] = lab.get(k, 0) + v
            lines.update(r["lines"])
            if r["error"]:
                errors.append((s.name, r["error"]))
            if r["fail"]:
                violations.append((s, r["fail"]))
        e = sum(r["evals"] for r in rs)
        nt = sum(r["nontrivial"] for r in rs)
        evals += e
        nontriv += nt
        ent = {"name": s.name, "oracle": s.doc, "evaluations": e, "distinct_nontrivial": nt,
               "labels": dict(sorted(lab.items())), "shards": len(rs),
               "by_hypothesis": sum(r["hyp"] for r in rs),
               "by_coverage_guided_mutation": sum(r["mutated"] for r in rs),
               "coverage_corpus": sum(r["corpus"] for r in rs),
               "branch_outcomes_reached": max([r["branches"] for r in rs] or [0]),
               "wall_s": round(max([r["wall"] for r in rs] or [0]), 2),
               "stopped_by_time_cap": any(r["capped"] for r in rs)}
        for fr in fuzz:
            if fr["idx"] == i:
                ent["atheris_executions"] = fr["evals"]
                evals += fr["evals"]
                if fr.get("fail"):
                    violations.append((s, fr["fail"]))
                if fr.get("error"):
                    errors.append((s.name, fr["error"]))
        cov_sub.append(ent)
        for r in rs[:1]:
            for c in r["samples"][:2]:
                samples.append({"sub": s.name, "case": c})
    # one line of violation per failing sub-check, smallest case first
    seen = set()
    out = []
    for s, f in sorted(violations, key=lambda v: len(_json(v[1]["case"]))):
        if s.name in seen:
            continue
        seen.add(s.name)
        out.append((s, f, write_replay(pid, s, f, tier, seed)))
    known = []
    if hasattr(mod, "known_findings"):
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            known = mod.known_findings()
        finally:
            sys.stdout = so
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": mod.RULE,
                       "samples": samples[:16], "sub_checks": cov_sub,
                       "lines_of_code_under_test_reached": len(lines),
                       "files_reached": sorted({x.split(":")[0] for x in lines}),
                       "known_findings_confirmed": known},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(out)}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for s, f, path in out:
        print("%s/%s violated after %d cases (%s%s)\n  oracle: %s\n  case: %s\n  %s"
              % (pid, s.name, f["after"], f["phase"], ", needs earlier calls" if f.get("flaky") else "",
                 s.doc, _json(f["case"])[:3000], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if out:
        return 1
    for name, e in errors:
        print("ERROR in %s/%s:\n%s" % (pid, name, e), file=sys.stderr)
    if errors:
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s, %d sub-checks"
          % (pid, evals, nontriv, time.monotonic() - t0, len(subs)))
    return 0


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return run_property(pid, tier, seed)
    except Exception:
        traceback.print_exc()
        return 2
