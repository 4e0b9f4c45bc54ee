#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
IMPL = "explicit-state model checking of the implementation: bounded-exhaustive enumeration of inputs on the real code"
NOTE = {}
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh check {i} --tier quick",
            "thorough_cmd": f"./check.sh check {i} --tier thorough", "technique": tech,
            "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "cfg(regalloc2_verif)", "enable": "RUSTFLAGS=--cfg regalloc2_verif (check.sh builds the harness for the hooked properties this way; the others use the public API and are built without it)",
               "source_commits": ["309ef9f", "f76e875"]},
     "checks": checks, "not_applicable": na,
     "notes": "One harness crate (harness/); see DESIGN.md. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
