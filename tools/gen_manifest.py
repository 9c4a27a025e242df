#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/registry.py (claimed checks) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
TRUST = ("Assurance: every explored history of the real code is a behaviour of the TLA+ specification (all clauses "
         "evaluated by TLC at every step); bounded by the generated cases of the tier and seed. Trusts TLC, the "
         "harness that builds and observes the models, and numpy/scipy. ")
NOTE = registry.NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.MODS:
        checks.append({"property": i, "quick_cmd": "./check %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                       "technique": NOTE[i][0], "level": "model_checking", "level_note": TRUST + NOTE[i][1]})
    else:
        na.append({"property": i, "reason": NOTE.get(i, ("", "No check built yet; not claimed."))[1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through public classes (subclassed components, groups, "
              "solvers, recorders) from harness code in /verif. All specifications are TLA+ checked with TLC."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
