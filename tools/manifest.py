#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True

checks, have = [], set()
for f in sorted(glob.glob(here + "/nbv/props/c[0-9]*.py")):
    m = importlib.import_module("nbv.props." + os.path.basename(f)[:-3])
    have.add(m.ID)
    checks.append({
        "property": m.ID,
        "quick_cmd": "python3 check.py %s" % m.ID,
        "thorough_cmd": "python3 check.py %s" % m.ID,
        "evidence_file": "evidence/%s.json" % m.ID,
        "technique": m.TECHNIQUE,
        "level": m.LEVEL,
        "level_note": m.NOTE,
    })
na = []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in have:
        na.append({"property": p["id"],
                   "reason": "its check is not finished yet"})
out = {"version": 1, "setup_cmd": "python3 -m nbv.build", "checks": checks,
       "not_applicable": na,
       "notes": "VERIF_SEED selects all random choices, VERIF_TIER the "
       "number of cases. `python3 check.py ID --replay FILE` replays a "
       "reported case. No hooks in /repo are needed."}
with open(here + "/MANIFEST.json", "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
