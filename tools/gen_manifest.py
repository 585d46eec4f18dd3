#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason="no check yet: under construction") for i in ids if i not in PROPS],
         notes="All checks are generated-input search (pgregory.net/rapid) with explicit oracles; see DESIGN.md. No hooks are added to /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
