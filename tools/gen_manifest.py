#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique="deterministic simulation with fault injection (seeded search, reference model)",
                       level="exploration",
                       level_note=c["note"] + " Assumes: " + "; ".join(c["assumptions"])[:600]))
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "No check is claimed for it yet.")) for p in props if p["id"] not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/vbuild.py", checks=checks, not_applicable=na,
         notes="Harnesses and the simulation kit live in /verif and compile /repo's sources unchanged; no hooks are needed in /repo.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
