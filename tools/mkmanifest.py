"""writes MANIFEST.json from properties.jsonl and the sub-checks"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib  # noqa: E402

checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    pid = d["id"]
    mod = importlib.import_module("checks." + pid.lower())
    subs = "; ".join("%s: %s" % (s.name, s.doc) for s in mod.SUBS)
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt run.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "property-based testing (random, coverage-guided and Hypothesis generation; Atheris in the thorough tier) against an explicit oracle",
        "level": "exploration",
        "level_note": subs,
    })
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1,
               "setup_cmd": "python3-vt -c \"import hypothesis, atheris\" && python3-vt -c \"import sys; sys.path.insert(0, '.'); "
                            "from vlib import target; target.load()\"",
               "checks": checks, "not_applicable": []}, fh, indent=1)
    fh.write("\n")
