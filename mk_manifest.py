#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in one place so that it stays in step with lib/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import props

TRACE = "TLA+ specification, TLC: trace validation of the real code"
NOTE = ("Histories recorded from the real code (compiled from the working tree with AddressSanitizer) are accepted step by step by the "
        "TLA+ specification. Assumes the projection of doubles to rationals (1e-10) and, at exact ties decided by rounding, accepts either side.")

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        t, n = props.DOC.get(i, (TRACE, NOTE))
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 checks/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py %s" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is sequential and its API exposes the state the specification talks about. "
              "Genuine defects found are repaired in fix: commits, see known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
