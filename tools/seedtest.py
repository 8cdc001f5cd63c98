"""development tool: confirms the planted bugs and runs checks against each in a scratch copy
usage: seedtest.py [--all] [id ...]   (results are merged into tools/seeded_results.json)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.environ.get("SEEDS", os.path.join(V, "seeded"))
RES = os.path.join(V, "tools", "seeded_results.json") if "SEEDS" not in os.environ else os.path.join(SEEDS, "results.json")


def run_check(pid, repo, tmp):
    env = dict(os.environ, PYRUS_REPO=repo, PYRUS_EVIDENCE=tmp + "/ev", PYRUS_REPLAYS=tmp + "/rp",
               VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    r = subprocess.run(["python3-vt", "run.py", pid], cwd=V, env=env, capture_output=True, text=True)
    return r.returncode == 1 and "VIOLATION property=%s " % pid in r.stdout, r


def main():
    args = sys.argv[1:]
    every = "--all" in args
    args = [a for a in args if not a.startswith("--")]
    pids = [json.loads(ln)["id"] for ln in open(os.path.join(V, "properties.jsonl"))]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    ids = args or sorted(d for d in os.listdir(SEEDS) if os.path.isdir(os.path.join(SEEDS, d)))
    if not args:
        res = {k: v for k, v in res.items() if k in ids}
    for i in ids:
        folder = os.path.join(SEEDS, i)
        meta = json.load(open(folder + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            repo = tmp + "/repo"
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__"))
            d0 = subprocess.run(["bash", folder + "/demo.sh"], cwd=repo, capture_output=True).returncode
            a = subprocess.run(["git", "apply", folder + "/patch.diff"], cwd=repo).returncode
            d1 = subprocess.run(["bash", folder + "/demo.sh"], cwd=repo, capture_output=True).returncode
            env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=repo,
                               env=env, capture_output=True).returncode
            good = (d0, a, t) == (0, 0, 0) and d1 != 0
            own, r = run_check(meta["property"], repo, tmp)
            others = res.get(i, {}).get("others", [])
            if every:
                others = [p for p in pids if p != meta["property"] and run_check(p, repo, tmp)[0]]
            res[i] = {"property": meta["property"], "caught": own, "others": others, "what": meta["what_it_breaks"]}
            print(i, meta["property"], "sound" if good else "NOT SOUND %s" % ((d0, a, d1, t),), "caught" if own else "MISSED rc=%d" % r.returncode,
                  " ".join(others), flush=True)
        finally:
            shutil.rmtree(tmp)
        with open(RES, "w") as fh:
            json.dump(res, fh, indent=1, sort_keys=True)
            fh.write("\n")


main()
