#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and plan.py"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN, TECH, NOTE
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p not in PLAN:
        na.append(dict(property=p, reason="under construction"))
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=TECH[p], level=PLAN[p]["level"], level_note=NOTE))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the harness uses the public API only", source_commits=[]),
         notes="TLA+ (TLC). check.py replay FILE runs a recorded scenario again.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
