"""Coverage-guided fuzzing with Atheris (libFuzzer): the generators read their choices from the fuzzer's bytes.

Part of the thorough tier.  One process per sub-check; every process writes its result to a scratch file."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = int(os.environ.get("PYRUS_FUZZ_RUNS", "400000"))
SECONDS = int(os.environ.get("PYRUS_FUZZ_SECONDS", "150"))


def run_all(pid, subs, seed, cores=8):
    out = []
    base = tempfile.mkdtemp(prefix="pyrusfuzz")
    try:
        procs = {}
        todo = list(range(len(subs)))
        # idle cores run further seeds of the same sub-check
        k = 0
        while len(todo) < cores:
            todo.append(k % len(subs))
            k += 1
        for n, i in enumerate(todo):
            d = os.path.join(base, "%d" % n)
            os.makedirs(os.path.join(d, "corpus"))
            log = open(os.path.join(d, "log"), "wb")
            procs[n] = (i, d, subprocess.Popen(
                [sys.executable, "-m", "vlib.fuzz", pid, str(i), str(seed + 1000 * n), d], cwd=VERIF, stdout=log, stderr=log))
        end = time.monotonic() + SECONDS + 240
        per = {}
        for n, (i, d, p) in procs.items():
            try:
                p.wait(max(1, end - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            r = per.setdefault(i, {"idx": i, "evals": 0, "nontrivial": 0, "fail": None, "error": None})
            try:
                with open(os.path.join(d, "result.json")) as fh:
                    one = json.load(fh)
            except Exception:
                with open(os.path.join(d, "log"), "rb") as fh:
                    r["error"] = "Atheris gave no result: " + fh.read()[-1500:].decode("utf-8", "replace")
                continue
            r["evals"] += one["evals"]
            r["nontrivial"] += one["nontrivial"]
            if one.get("fail") and not r["fail"]:
                r["fail"] = one["fail"]
        out = list(per.values())
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def main(pid, idx, seed, d):
    import random
    import signal

    import atheris
    sys.path.insert(0, VERIF)
    from vlib import target
    if target.SRC not in sys.path:
        sys.path.insert(0, target.SRC)
    with atheris.instrument_imports(include=["pyrusgeom"]):
        target.load()
    from vlib import run
    from vlib.source import BytesG
    signal.signal(signal.SIGPROF, run._alarm)
    sys.stdout = open(os.devnull, "w")
    sub = run.load_check(pid).SUBS[idx]
    consts = target.constants()
    st = {"evals": 0, "nontrivial": 0}
    end = time.monotonic() + SECONDS
    res = os.path.join(d, "result.json")

    def save():
        with open(res + ".tmp", "w") as fh:
            json.dump(st, fh)
        os.replace(res + ".tmp", res)

    def one(data):
        g = BytesG(data, consts)
        case = sub.gen(g)
        lab, bad = run.run_case(sub, case)
        st["evals"] += 1
        st["nontrivial"] += lab is not None
        if bad:
            f = {"case": case, "choices": list(g.choices), "msg": bad, "phase": "atheris", "history": [], "after": st["evals"]}
            run.shrink_failure(sub, f, consts)
            st["fail"] = f
            save()
            os._exit(0)
        if st["evals"] >= RUNS or (st["evals"] % 256 == 0 and time.monotonic() > end):
            save()
            os._exit(0)

    rng = random.Random(seed)
    for i in range(40):
        with open(os.path.join(d, "corpus", "s%d" % i), "wb") as fh:
            fh.write(bytes(rng.randrange(256) for _ in range(300)))
    save()
    atheris.Setup([sys.argv[0], "-seed=%d" % (seed % (1 << 31) or 1), "-max_len=600", "-len_control=0", "-verbosity=0",
                   "-artifact_prefix=%s/" % d, "-rss_limit_mb=4000", os.path.join(d, "corpus")], one)
    atheris.Fuzz()


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
