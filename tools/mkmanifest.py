#!/usr/bin/env python3
"""Write MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import spec
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in spec.PROPS:
        p = spec.PROPS[i]
        checks.append({"property": i,
            "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
            "technique": p.get("technique", "CBMC code contracts on the real functions (goto-instrument --dfcc / executable contracts), SAT/SMT discharged"),
            "level": p.get("level", "proof"),
            "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": spec.NOT_APPLICABLE.get(i, "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. VERIF_TIER=thorough adds the units marked thorough in spec.py."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
