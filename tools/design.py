#!/usr/bin/env python3
"""Refresh the lists of findings and planted bugs in DESIGN.md.
design.py [SWEEP]: SWEEP has lines "id property CAUGHT /replay" of a run of the
checks against the planted bugs."""
import json, os, re, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
k = json.load(open("known_findings.json"))
out = []
for e in k:
    out.append("* " + (e["record"] if e.get("status") == "fixed" else "known (%s, not repaired): %s" % (
        e["property"], e["what"])))
s = open("DESIGN.md").read()
put = lambda s, n, t: re.sub("(<!-- %s -->\n).*?(<!-- end %s -->)" % (n, n), lambda m: m[1] + t + m[2], s, flags=re.S)
s = put(s, "findings", "\n".join(out) + "\n")
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        p = l.split()
        if len(p) > 2:
            res[p[0]] = " ".join(p[2:4] if len(p) > 4 else p[2:3]).lower().replace("/", "")
    rows = ["| planted bug | needs | reported by |", "|---|---|---|"]
    for d in sorted(os.listdir("seeded")):
        m = json.load(open("seeded/%s/meta.json" % d))
        rows.append("| %s | %s | %s: %s |" % (d, m["needs"], m["property"], res.get(d, "?")))
    s = put(s, "seeds", "\n".join(rows) + "\n")
open("DESIGN.md", "w").write(s)
