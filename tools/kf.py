#!/usr/bin/env python3
"""kf.py PROPERTY COMMIT ENTRY LABEL WHAT...   record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
pr, c, e, l, w = sys.argv[1:6]
d["findings"].append({"property": pr, "status": "fixed", "commit": c, "entry": e, "label": l, "what": f"fixed: property={pr} {c} {w}"})
json.dump(d, open(p, "w"), indent=1)
