#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and claims.json (claimed ids; reasons for the rest)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claims = json.load(open(os.path.join(V, "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims["claimed"]:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification: contracts on the Go functions of /repo, obligations generated from their SSA form on every run, discharged by z3 function by function",
            "level": "proof",
            "level_note": claims["notes"].get(i, claims["notes"]["*"]),
        })
    else:
        na.append({"property": i, "reason": claims["reasons"].get(i, claims["reasons"]["*"])})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the contracts live in /verif/contracts and are checked against the unmodified source of /repo", "source_commits": []},
     "notes": "See DESIGN.md. Level proof means: every obligation of the property was discharged on this run, under the assumptions listed in the evidence file."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
