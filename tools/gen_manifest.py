#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py (development aid)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                                technique=c["technique"], level="exploration", level_note=c["rule"], evidence_file="evidence/%s.json" % p))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check has been built yet")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
