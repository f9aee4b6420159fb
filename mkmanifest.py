#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json
import os
import props

HERE = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.CLAIMED:
        level, note = props.CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt /verif/check.py %s" % i,
            "thorough_cmd": "python3-vt /verif/check.py %s --thorough" % i,
            "technique": "contract-based deductive verification (weakest-precondition style "
                         "symbolic execution of the real Python source, obligations discharged by z3)"
                         if level == "proof" else
                         "contracts on the real functions, executed on generated inputs (bounded stand-in)",
            "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1,
           "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import pyomo' && mkdir -p /verif/evidence/replay",
           "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md; no hooks in /repo are needed"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
