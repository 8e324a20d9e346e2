#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NA
R = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for id, P in sorted(PROPS.items()):
        a = {"files": P["files"], "mechanism": P["mech"]}
        if P.get("state"): a["state"] = P["state"]
        assert len(P["title"]) <= 80, id
        f.write(json.dumps({"id": id, "title": P["title"], "statement": P["statement"], "quantifier": {"over": P["over"], "text": P["quant"]}, "why_tests_cant": P["why"], "anchors": a}) + "\n")
TECH = "symbolic execution of the compiled LLVM IR of the real code, path conditions and assertions decided by SMT (Z3)"
m = {"version": 1, "setup_cmd": "mkdir -p build && ./engine/build.sh \"$PWD/build/symex\"",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": P.get("tech") or TECH, "level": "model_checking",
                 "level_note": (P["note"] + " " if P["note"] else "") + "Bounds: " + P["bounds"] + ". Outside: " + P["outside"] + ". Trusted: clang 18 front end (-O1), the executor in engine/, Z3."} for i, P in sorted(PROPS.items()) if i not in NA],
     "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
     "notes": "No hooks in /repo: harnesses include the headers of /repo/src directly (private members are reached with -fno-access-control). See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
