#!/usr/bin/env python3
# writes MANIFEST.json from the table of claims below and properties.jsonl
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
claims = json.load(open(V + '/tools/claims.json'))
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
na = claims["not_applicable"]
for p in props:
    i = p["id"]
    if i in claims["claims"]:
        out["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "technique": "contract-based deductive verification (function contracts on go/ssa of /repo, SMT-discharged obligations)",
            "level": "proof", "level_note": claims["claims"][i]})
    else:
        out["not_applicable"].append({"property": i, "reason": na.get(i, "the contract for this property is not finished")})
out["notes"] = claims["notes"]
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write("\n")
