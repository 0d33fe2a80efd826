#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from plan import PLAN, TECH, NOTE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd="python3 /verif/run.py check %s --tier quick" % i,
                           thorough_cmd="python3 /verif/run.py check %s --tier thorough" % i,
                           evidence_file="/verif/evidence/%s.json" % i,
                           technique=TECH.get(i, TECH["*"]), level=PLAN[i]["level"], level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 /verif/run.py setup",
         checks=checks, not_applicable=na,
         notes="No hooks were added to /repo: the checks compile its sources with the existing JENT_CONF_ENABLE_MOCK_TIMER test hook. See DESIGN.md. Replay a failure with: python3 /verif/run.py replay <file>.")
with open(os.path.join(H, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), len(na))
