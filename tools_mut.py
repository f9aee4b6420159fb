"""development aid: apply textual mutations to a copy of /repo/src and report
which units/concrete checks notice.  usage: tools_mut.py FILE 'old' 'new' units profiles"""
import os, shutil, subprocess, sys, json
f, old, new, units, profs = sys.argv[1:6]
d = "/tmp/mutsrc%d" % os.getpid()
shutil.copytree("/repo/src", d)
try:
    p = os.path.join(d, "oemof/solph", f)
    s = open(p).read()
    assert s.count(old) >= 1, "pattern not found"
    n = int(os.environ.get("NTH", "0"))
    parts = s.split(old)
    s = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
    open(p, "w").write(s)
    e = dict(os.environ, VERIF_REPO_SRC=d, PYTHONDONTWRITEBYTECODE="1")
    if units != "-":
        r = subprocess.run(["python3-vt", "-m", "vcgen.units"] + units.split(","), cwd="/verif", env=e, capture_output=True, text=True)
        print(r.stdout[:2500], r.stderr[-800:])
    if profs != "-":
        r = subprocess.run(["/opt/venv/bin/python", "/verif/conc/run.py", "--profiles", profs, "--seeds", "0:400", "--seconds", "15"], env=e, capture_output=True, text=True)
        try:
            j = json.loads(r.stdout)
            print("native: models", j["models"], "violations", len(j["violations"]), [(v["property"], v["what"][:150]) for v in j["violations"][:3]])
        except Exception:
            print(r.stdout[-500:], r.stderr[-1500:])
finally:
    shutil.rmtree(d)
