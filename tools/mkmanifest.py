#!/usr/bin/env python3
"""Writes MANIFEST.json from the check table (check.py) and the notes below."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.path.join(here, "lib")]
from check import TABLE, TECH
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOT = {}
checks, na = [], []
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True,
         text=True).stdout.split("\n") if " hook" in l]
for p in props:
    i = p["id"]
    if i in TABLE:
        tech, note = TECH[TABLE[i]]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard="AMELIE_VERIF", enable="the drivers are compiled from /repo's sources with -DAMELIE_VERIF",
               source_commits=HOOKS),
    checks=checks, not_applicable=na,
    notes="Specifications in spec/ (TLA+, TLC); drivers in harness/; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
