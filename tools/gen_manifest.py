#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and the list of properties."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from vlib import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 bin/setup", "checks": [], "not_applicable": [],
       "notes": "One command per property; the tier is taken from VERIF_TIER and the seed from VERIF_SEED. "
                "No hooks in /repo: the checks rename efsw's system-call symbols in the objects they build."}
for p in props:
    i = p["id"]
    if i in checks.TABLE:
        tech, level, note = checks.DOC[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check " + i,
                              "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "its check is not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
