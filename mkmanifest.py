#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = {}
exec(open(os.path.join(V, "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": HOOKS,
     "checks": [], "not_applicable": [], "notes": "see DESIGN.md"}
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p][:2]
        m["checks"].append({"property": p, "quick_cmd": "./check %s --tier quick" % p,
                            "thorough_cmd": "./check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": t, "level": CLAIMS[p][2] if len(CLAIMS[p]) > 2 else "model_checking",
                            "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
if not HOOKS:
    del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
