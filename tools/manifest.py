#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(here, "tools", "claims.json")))
checks, na = [], []
for p in props:
    c = CLAIMED.get(p["id"])
    if c is None:
        continue
    if "reason" in c:
        na.append({"property": p["id"], "reason": c["reason"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash /verif/check.sh " + p["id"],
        "evidence_file": "evidence/" + p["id"] + ".json",
        "technique": c["technique"],
        "level": "other",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of the working tree of /repo (go/packages, go/ssa, and parsers for the "
              "vxlisp packages and native runtime files). known-findings.txt lists the accepted findings."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
