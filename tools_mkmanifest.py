#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness folders."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
NOTE = json.load(open(os.path.join(here, "levels.json")))
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    n = NOTE.get(p)
    if n and n.get("claim"):
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
            "technique": n.get("technique", "symbolic execution of the Go SSA of /repo, obligations discharged by polynomial normal form and z3 (LP bound lemmas, LIA/NIA)"),
            "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": (n or {}).get("reason", "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
