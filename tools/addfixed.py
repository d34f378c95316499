#!/usr/bin/env python3
# development aid: addfixed.py PROPERTY COMMIT TEXT -- records a repaired defect in known_findings.json
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1)
