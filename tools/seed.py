#!/usr/bin/env python3
"""Record a planted bug: seed.py SPEC.py  (SPEC defines id, prop, edits, needs,
breaks, demo).  Applies the change to /repo, runs build, tests and demo,
undoes it, and keeps it under /verif/seeded/<id> if it qualifies."""
import json, os, subprocess, sys
SH = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    SH("git -C /repo checkout -- .")
def tests():
    SH("bash /opt/vp/test.sh /tmp/seed_out.json", timeout=600)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = json.load(open("/tmp/seed_out.json"))
    return sorted(base - set(r["passed"] if isinstance(r.get("passed"), list) else [k for k, v in r["tests"].items() if v == "passed"]))
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = "/verif/seeded/" + ns["id"]
    assert SH("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    for f, old, new in ns["edits"]:
        p = "/repo/src/oemof/solph/" + f
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    try:
        diff = SH("git -C /repo diff").stdout
        b = SH("bash /opt/vp/build.sh")
        assert b.returncode == 0, b.stderr
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(ns["demo"].lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r1 = SH("sh %s/demo.sh" % d, cwd="/repo", timeout=300)
        t = tests()
    finally:
        clean()
    SH("bash /opt/vp/build.sh")
    r0 = SH("sh %s/demo.sh" % d, cwd="/repo", timeout=300)
    ok = r1.returncode != 0 and r0.returncode == 0 and not t
    print(ns["id"], "OK" if ok else "REJECTED", "patched", r1.returncode, "clean", r0.returncode, "failing tests", t[:3])
    if not ok:
        print(r1.stdout[-500:], r1.stderr[-800:], "\n--- clean:", r0.stdout[-500:], r0.stderr[-800:])
        SH("mv %s /tmp/w/rejected-%s" % (d, ns["id"]))
for s in sys.argv[1:]:
    main(s)
