"""writes DESIGN.md"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def rd(p):
    with open(os.path.join(V, p)) as fh:
        return fh.read()


out = [rd("tools/design_head.md")]
for line in rd("properties.jsonl").splitlines():
    d = json.loads(line)
    mod = importlib.import_module("checks." + d["id"].lower())
    out.append("### %s %s\n" % (d["id"], d["title"]))
    out.append("Generated: %s\n" % mod.RULE)
    out.append("Decided by (oracle per sub-check; cases per worker in the quick tier):\n")
    for s in mod.SUBS:
        out.append("* `%s` (%d): %s" % (s.name, s.n, s.doc))
    out.append("\nBounds and assumptions: %s.\n" % "; ".join(mod.ASSUMPTIONS))
tail = rd("tools/design_tail.md")
fixed = [l[len("fixed: "):].strip() for l in rd("KNOWN_FINDINGS.txt").splitlines() if l.startswith("fixed:")]
tail = tail.replace("@FINDINGS@", "Repaired, one `fix:` commit each in /repo:\n\n" + "\n".join("* " + f for f in fixed))
tab = "(none yet)"
p = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(p):
    res = json.load(open(p))
    rows = ["| planted bug | property | caught by its check | also caught by | what it breaks |", "|---|---|---|---|---|"]
    for k in sorted(res):
        r = res[k]
        rows.append("| %s | %s | %s | %s | %s |" % (k, r["property"], "yes" if r["caught"] else "NO",
                                                  " ".join(r.get("others", [])) or "-", r["what"].replace("|", "/")))
    tab = "\n".join(rows)
out.append(tail.replace("@SEEDED@", tab))
with open(os.path.join(V, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out).rstrip() + "\n")
