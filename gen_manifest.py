#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed) and properties.jsonl."""
import json, os
from checks import CHECKS, NOT_APPLICABLE, FIX_COMMITS
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i,
            quick_cmd="VERIF_TIER=quick python3 check.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard="none", enable="no hooks are compiled into /repo: the checks compile /repo's sources unchanged and observe at the API, at link-time interposed allocators/random source and through sanitizers", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="All checks are driven by check.py; harness/ holds the workloads and oracles; known_findings.txt lists repaired and recorded defects.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
