#!/usr/bin/env python3
"""Decide one property on the code in /repo.

  python3-vt /verif/check.py C01 [--thorough]

1. every verification unit of the property is executed symbolically from
   /repo's current source and its obligations are discharged with z3;
2. the same contracts are executed by CPython on models the real code builds
   (replay of failed obligations, bounded stand-in for undecided units).

exit 0: held; exit 1 and a VIOLATION line: broken.
"""

import argparse
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO_PY = os.environ.get("VERIF_REPO_PY", "/opt/venv/bin/python")

import props as P  # noqa: E402


def env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def start(cmd, tmp, name):
    out = os.path.join(tmp, name + ".json")
    err = open(os.path.join(tmp, name + ".err"), "w")
    p = subprocess.Popen(cmd + [out], stdout=err, stderr=err, env=env(), cwd=HERE)
    return {"p": p, "out": out, "err": err.name, "t0": time.time(), "name": name}


def read(job):
    try:
        return json.load(open(job["out"]))
    except Exception:
        return None


def tail(path, n=600):
    try:
        return open(path).read()[-n:]
    except OSError:
        return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    from vcgen.units import UNITS
    units = [u for u in UNITS.values() if prop in u.props]
    limit = 600 if thorough else 330
    native_s = 200 if thorough else P.SECONDS.get(prop, 25)
    jobs_w = 6

    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vchk-")

    queue = [("unit", u.id) for u in units]
    natives = []
    profs = P.PROFILES.get(prop, [])
    if profs and not a.no_native:
        n = (4 if not thorough else 6) if prop not in P.PROBES else 2
        span = 100000
        for k in range(n):
            natives.append(("native", k))
    probes = []
    if not a.no_native:
        names = P.PROBES.get(prop, [])
        copies = max(1, (6 - (2 if profs else 0)) // max(1, len(names)))
        probes = [("probe", (x, k)) for k in range(copies) for x in names]
    todo = probes + natives + queue
    running, done = [], []
    while todo or running:
        while todo and len(running) < 8:
            kind, x = todo.pop(0)
            if kind == "unit":
                j = start(["python3-vt", "-m", "vcgen.worker", x, "1" if thorough else "0"],
                          tmp, "unit-" + x)
                j["limit"] = limit
            elif kind == "native":
                base = (seed * 1000003 + x * 7919) % 1000000007
                j = start([REPO_PY, os.path.join(HERE, "conc", "run.py"),
                           "--profiles", ";".join(profs),
                           "--seeds", "%d:%d" % (base, base + 100000),
                           "--seconds", str(native_s), "--out"], tmp, "native-%d" % x)
                j["limit"] = native_s + 120
            else:
                j = start([REPO_PY, os.path.join(HERE, "conc", "probe.py"), x[0],
                           "%d.%d" % (seed, x[1]), str(native_s), prop], tmp, "probe-%s-%d" % x)
                j["limit"] = native_s + 200
            j["kind"], j["x"] = kind, x
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            rc = j["p"].poll()
            if rc is None and time.time() - j["t0"] > j["limit"]:
                j["p"].kill()
                j["p"].wait()
                j["timeout"] = True
                rc = -9
            if rc is not None:
                j["rc"] = rc
                running.remove(j)
                done.append(j)

    # ------------------------------------------------------------ collect
    unit_res, native_bad, models, statements, feats = [], [], 0, {}, {}
    native_err = []
    probe_res = []
    for j in done:
        r = read(j)
        if j["kind"] == "unit":
            if r is None:
                r = {"unit": j["x"], "status": "undecided", "obligations": [],
                     "reason": "time limit" if j.get("timeout") else "worker died: " + tail(j["err"]),
                     "functions": [], "callees": [], "solver_calls": 0, "solver_seconds": 0,
                     "solver_unknown": 0, "seconds": round(time.time() - j["t0"], 1)}
            unit_res.append(r)
        elif r is None:
            native_err.append("%s: %s" % (j["name"], "time limit" if j.get("timeout") else tail(j["err"])))
        elif j["kind"] == "native":
            models += r["models"]
            native_err += r.get("crashes", [])[:3]
            for k, v in r["statements"].items():
                statements[k] = statements.get(k, 0) + v
            for k, v in r["features"].items():
                feats[k] = feats.get(k, 0) + v
            native_bad += [b for b in r["violations"] if concerns(b, prop)]
        else:
            probe_res.append(r)
            native_err += r.get("crashes", [])[:3]
            native_bad += [b for b in r["violations"] if concerns(b, prop)]

    known = load_known(prop)
    obs = [o for r in unit_res for o in r["obligations"] if concerns(o, prop)]
    failed = [o for o in obs if o["status"] not in ("proved", "timeout")]
    undecided = [r for r in unit_res if r["status"] != "ok"]
    new_bad, known_hit = [], set()
    for b in native_bad:
        k = match_known(known, b["unit"] + " | " + b["what"] + " | " + str(b.get("detail", "")))
        if k:
            known_hit.add(k["id"])
        else:
            new_bad.append(b)
    new_failed = []
    for o in failed:
        k = match_known(known, o["id"] + " | " + o["obligation"] + " | " + o["detail"])
        if k:
            known_hit.add(k["id"])
        else:
            new_failed.append(o)

    for k in known:
        if k.get("status") != "fixed":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # ------------------------------------------------------------- verdict
    rc = 0
    line = None
    replay = os.path.join(rp_dir, "%s.json" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if new_bad:
        b = new_bad[0]
        case = ({"probe": b["probe"]} if b.get("probe") else
                {"seed": b.get("seed"), "profile": b.get("profile")})
        json.dump({"property": prop, **case, "violation": b,
                   "others": new_bad[1:20],
                   "failed_obligations": new_failed[:20],
                   "how": "/opt/venv/bin/python /verif/conc/%s.py --replay <this file>"
                          % ("probe" if b.get("probe") else "run")},
                  open(replay, "w"), indent=1, default=str)
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
        rc = 1
        print("real code contradicts the contract: %s | %s" % (b["what"][:500], str(b.get("detail"))[:400]))
        for o in new_failed[:5]:
            print("failed obligation %s: %s" % (o["id"], o["obligation"][:300]))
    elif new_failed:
        json.dump({"property": prop, "failed_obligations": new_failed[:40],
                   "note": "no concrete model among %d generated ones shows the violation" % models},
                  open(replay, "w"), indent=1, default=str)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        rc = 1
        for o in new_failed[:5]:
            print("failed obligation %s: %s -- %s" % (o["id"], o["obligation"][:300], o["detail"][:300]))

    # ------------------------------------------------------------ evidence
    from vcgen.libmodel import TRUSTED
    thor = {}
    if thorough:
        thor = cross_check(unit_res, tmp)
    funcs = sorted({f for r in unit_res if r["status"] == "ok" for f in r["functions"]})
    level = P.CLAIMED[prop][0] if obs else "exploration"
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed,
        "level": level,
        "coverage": {
            "obligations": len(obs),
            "discharged": len([o for o in obs if o["status"] == "proved"]),
            "back_end": "z3 (python3-vt) after normalisation of sums/guards by vcgen",
            "checker_cmd": "python3-vt /verif/check.py %s" % prop,
            "units": [{"unit": r["unit"], "status": r["status"], "reason": r.get("reason"),
                       "obligations": len([o for o in r["obligations"] if concerns(o, prop)]),
                       "solver_calls": r["solver_calls"], "solver_seconds": r["solver_seconds"],
                       "solver_unknown": r["solver_unknown"], "seconds": r.get("seconds")}
                      for r in unit_res],
            "functions_under_contract": funcs,
            "callee_contracts_used": sorted({c for r in unit_res for c in r["callees"]}),
            "solver_seconds": round(sum(r["solver_seconds"] for r in unit_res), 3),
            "bounded_standins": [{"unit": r["unit"], "reason": r.get("reason"),
                                  "bound": "%d generated models" % models} for r in undecided],
            "trusted_base": TRUSTED + [
                "vcgen (AST evaluator, loop summaries slot = slot0 + Sum delta, row matching)",
                "z3 4.x"],
            "obligation_samples": [{k: (v[:300] if isinstance(v, str) else v) for k, v in o.items()}
                                   for o in obs[:4]],
            "concrete": {"models_built": models, "contract_statements": statements,
                         "features": feats, "errors": native_err,
                         "probes": [{k: v for k, v in r.items() if k != "violations"}
                                    for r in probe_res]},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new_bad) + len(new_failed),
    }
    cov = ev["coverage"]
    cov.update(thor)
    if level != "proof":
        cov["evaluations"] = models + sum(r.get("evaluations", 0) for r in probe_res)
        cov["distinct_nontrivial"] = sum(statements.values()) + sum(
            r.get("evaluations", 0) for r in probe_res)
        cov["rule"] = ("random energy systems from conc/gen.py built by the real code; a case "
                       "counts when the contract makes at least one statement about it")
        cov["samples"] = [{"seeds": "%s" % seed, "profiles": profs,
                           "probes": P.PROBES.get(prop, [])}]
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1, default=str)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    for r in unit_res:
        print("%-34s %-9s %3d obligations, %3d proved  %.1fs %s" % (
            r["unit"], r["status"], len([o for o in r["obligations"] if concerns(o, prop)]),
            len([o for o in r["obligations"] if concerns(o, prop) and o["status"] == "proved"]),
            r.get("seconds", 0), r.get("reason") or ""))
    print("%d models built, %d contract statements executed%s" % (
        models, sum(statements.values()) + sum(r.get("evaluations", 0) for r in probe_res), "; errors: %s" % native_err if native_err else ""))
    if line:
        print(line)
    sys.exit(rc)


ASSUMPTIONS = [
    "machine floats are treated as real numbers; divisors are not zero (except in units about a "
    "division itself), bases of powers are positive",
    "library functions behave as their contracts in vcgen/libmodel.py, vcgen/pdmodel.py and "
    "vcgen/data.py state: Pyomo sets/variables/constraints/expressions/suffixes and solver "
    "interface, oemof.network nodes/edges/energy system/groupings, numpy (where, argmin: the first "
    "smallest item of each row, cumsum, array arithmetic), pandas DatetimeIndex",
    "objects satisfy the data invariants of vcgen/data.py (established by the constructors' "
    "contracts); periods are given in ascending order; fixed_losses_absolute is not negative",
    "series given by users behave like lists or arrays in symbolic units (pandas objects: bounded); "
    "one symbolic keyword stands for any custom property",
    "constructors of storages and offset converters: up to two flows per side",
    "the evaluator's loop summaries (sums, rows and entries per element, values overwritten in each "
    "iteration by a confirmed closed form) and z3 are trusted; thorough re-checks with cvc5",
]


def concerns(x, prop):
    """a statement may belong to several properties"""
    return x["property"] == "*" or prop in x["property"].split()


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k.get("status") != "fixed"]


def match_known(known, text):
    for k in known:
        if k.get("match") and re.search(k["match"], text, re.S):
            return k
    return None


def cross_check(unit_res, tmp):
    """re-discharge the solver queries of the units with cvc5"""
    n = ok = other = 0
    t0 = time.time()
    for r in unit_res:
        for q in (r.get("smt") or []):
            if time.time() - t0 > 200:
                break
            f = os.path.join(tmp, "q.smt2")
            open(f, "w").write("(set-logic ALL)\n" + q + ("" if "(check-sat)" in q else "\n(check-sat)\n"))
            try:
                o = subprocess.run(["cvc5", "--tlimit=3000", f], capture_output=True,
                                   text=True, timeout=10).stdout.strip().splitlines()
            except subprocess.TimeoutExpired:
                o = ["timeout"]
            n += 1
            if o and o[0] == "unsat":
                ok += 1
            else:
                other += 1
    return {"cvc5_cross_check": {"unsat_queries": n, "confirmed": ok, "no_answer_or_other": other}}


if __name__ == "__main__":
    main()
