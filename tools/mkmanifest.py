#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks registered in bin/check.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import check
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        fn, meta = check.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": meta.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
                       "level": meta["level"], "level_note": meta.get("note", "Every recorded call of this run is explained by the TLA+ specification; inputs not generated are not covered. Trusts TLC, the compiler, the specification's reading of the documentation.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, drivers in harness/, runner bin/check.py; see DESIGN.md. No hooks in /repo are needed: the public API exposes the abstract state."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
