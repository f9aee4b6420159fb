"""Concrete side: build random models with the code in /repo, execute the
contracts natively on them and report every contradiction.

usage: run.py --profiles a:mode,b --seeds 0:50 [--seconds S] --out OUT.json
       run.py --replay FILE
"""

import argparse
import collections
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))

warnings.simplefilter("ignore")
import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import pyomo.environ as po  # noqa: E402
import oemof  # noqa: E402

_src = os.path.join(os.environ.get("VERIF_REPO_SRC", "/repo/src"), "oemof")
if _src not in list(oemof.__path__):
    oemof.__path__.insert(0, _src)

import oemof.solph  # noqa: E402

assert os.path.realpath(oemof.solph.__file__).startswith(
    os.path.realpath(os.environ.get("VERIF_REPO_SRC", "/repo/src"))), oemof.solph.__file__

import pyomo.core.base.piecewise  # noqa: E402

pyomo.core.base.piecewise.print = lambda *a, **k: None     # notes on equal slopes

import blocks  # noqa: E402
from conc import native, gen  # noqa: E402

OBJ = {}          # id(block) -> value returned by _objective_expression
CREATED = {}      # block class -> [objects its blocks were created with]
gen.ON_SECOND_MODEL += [CREATED.clear, OBJ.clear]
MADE = []         # (block class, group) in the order of creation


def patch_objectives():
    from pyomo.core.base.block import ScalarBlock
    seen = set()

    def sub(c):
        for s in c.__subclasses__():
            yield s
            yield from sub(s)
    for c in list(sub(ScalarBlock)):
        if "_create" in c.__dict__ and c not in seen and c.__module__.startswith("oemof"):
            def create(self, group=None, _o=c.__dict__["_create"]):
                CREATED.setdefault(type(self).__name__, []).append(list(group or []))
                MADE.append((type(self), group))
                return _o(self, group=group)
            c._create = create
        if c in seen or "_objective_expression" not in c.__dict__ or \
                not c.__module__.startswith("oemof"):
            continue
        seen.add(c)
        orig = c.__dict__["_objective_expression"]

        def wrap(self, _o=orig):
            r = _o(self)
            OBJ[id(self)] = r
            return r
        c._objective_expression = wrap


_TEXT = {}


def contract(file, fn, ns):
    p = os.path.join(VERIF, "contracts", file)
    if p not in _TEXT:
        _TEXT[p] = compile(open(p).read(), p, "exec")
    g = dict(ns)
    exec(_TEXT[p], g)
    return g[fn]


def flows_of(es):
    out = []
    for n in es.nodes:
        for i, f in n.inputs.items():
            out.append((i, n, f))
        for o, f in n.outputs.items():
            out.append((n, o, f))
    seen, res = set(), []
    for i, o, f in out:
        if (id(i), id(o)) not in seen:
            seen.add((id(i), id(o)))
            res.append((i, o, f))
    return res


GROUPS = {
    "bus": lambda es: [n for n in es.nodes
                       if isinstance(n, oemof.solph.buses.Bus) and n.balanced],
    "flow": flows_of,
    "invest": lambda es: [x for x in flows_of(es)
                          if x[2].investment is not None and x[2].nonconvex is None],
    "nonconvex": lambda es: [x for x in flows_of(es)
                             if x[2].nonconvex is not None and x[2].investment is None],
    "storage": lambda es: [n for n in es.nodes
                           if isinstance(n, oemof.solph.components.GenericStorage)
                           and n.investment is None],
    "investstorage": lambda es: [n for n in es.nodes
                                 if isinstance(n, oemof.solph.components.GenericStorage)
                                 and n.investment is not None],
    "investnc": lambda es: [x for x in flows_of(es)
                            if x[2].nonconvex is not None and x[2].investment is not None],
}


def group_of(key, es):
    if key.startswith("cls:"):
        from oemof.solph import components
        c = getattr(components, key[4:], None) or getattr(components.experimental, key[4:])
        special = components.ExtractionTurbineCHP if key == "cls:Converter" else ()
        return [n for n in es.nodes if isinstance(n, c) and not isinstance(n, special)]
    return GROUPS[key](es)


def check_model(g, m, units=None):
    """[violations], {unit: number of statements}"""
    bad, counts = [], collections.Counter()
    native.snapshot(m)
    for u in blocks.MODEL:
        if units and u["id"] not in units:
            continue
        chk = native.Check(u["id"])
        run_contract(chk, u["file"], u["post"], (m, m, None), u["prop"])
        bad += chk.bad
        counts[u["id"]] += chk.n
    seen = set()
    for blk in m.component_objects(po.Block, descend_into=False):
        cls = type(blk).__name__
        spec = blocks.BLOCKS.get(cls)
        if spec is None:
            continue
        seen.add(cls)
        if units and cls not in units:
            continue
        group = group_of(spec["group"], m.es)
        chk = native.Check(cls)
        if group:
            run_contract(chk, spec["file"], spec["post"], (m, blk, group), spec["default"])
        owner = lambda name: blocks.owner_prop(cls, name.split(".", 1)[-1])
        actual = []
        # Pyomo's own formulation of piecewise linear functions is not looked at
        inner = {id(d) for p in blk.component_objects(po.Block, descend_into=True)
                 if isinstance(p, po.Piecewise) for d in p.values()}

        def own(kind):
            return [x for x in blk.component_data_objects(kind, active=True, descend_into=True)
                    if id(x.parent_component().parent_block()) not in inner]
        for c in own(po.Constraint):
            try:
                actual += native.rows_of_con(c)
            except native.ContractError as e:
                chk.report(owner(c.name), "constraint %s: %s" % (c.name, e))
        native.compare(chk, actual, owner)
        for v in own(po.Var):
            if id(v) not in chk.vars:
                chk.report(owner(v.name), "variable %s is not in the contract" % v.name)
        if spec["objective"] and id(blk) in OBJ and not group:
            chk.equal(spec.get("cost", spec["default"]), OBJ[id(blk)], 0, "costs of a block without objects")
        elif spec["objective"] and id(blk) in OBJ:
            run_contract(chk, spec["file"], spec["objective"], (m, blk, OBJ[id(blk)]),
                         spec["default"])
        bad += chk.bad
        counts[cls] += chk.n
    # constraints added to the finished model
    if not units or "constraints" in units:
        chk = native.Check("constraints")
        for fn, args in getattr(g, "calls", ()):
            run_contract(chk, "constraints.py", fn, (m,) + tuple(args), "C17")
        actual = []
        for cc in m.component_data_objects(po.Constraint, active=True, descend_into=False):
            actual += native.rows_of_con(cc)

        def owner2(name):
            if name.startswith(("cpl", "equate", "keyword1")):
                return "C18"
            return "C17"
        native.compare(chk, actual, owner2)
        for v in m.component_data_objects(po.Var, descend_into=False):
            if not v.name.startswith("flow[") and id(v) not in chk.vars:
                chk.report(owner2(v.name), "variable %s is not in the contract" % v.name)
        bad += chk.bad
        counts["constraints"] += chk.n
    # who belongs to which block, what is in the model
    if not units or "groups" in units:
        check_groups(m, m.es.nodes, flows_of(m.es), bad, counts)
    # blocks that must exist
    for cls, spec in blocks.BLOCKS.items():
        if cls not in seen and group_of(spec["group"], m.es) and not (units and cls not in units):
            bad.append({"property": spec["default"], "unit": cls,
                        "what": "no %s in the model although there are objects for it" % cls,
                        "detail": ""})
    tot = sum(v for k, v in OBJ.items() if any(
        id(b) == k for b in m.component_objects(po.Block, descend_into=False)))
    if not native.same_value(m.objective.expr, tot):
        bad.append({"property": "C06", "unit": "model.objective",
                    "what": "objective is not the sum of the block objectives",
                    "detail": native.diff(m.objective.expr, tot)})
    return bad, counts


def check_groups(m, nodes, flows, bad, counts):
    chk = native.Check("groups")
    run_contract(chk, "groups.py", "model_groups", (CREATED, flows, list(nodes)), "C21")
    run_contract(chk, "groups.py", "parts", (m, list(nodes), flows), "C21")
    bad += chk.bad
    counts["groups"] += chk.n


# class: (contract, properties the constructor serves)
OBJECTS = {
    "Flow": ("flow", "C02 C03 C04 C05 C06 C07 C10 C12 C17 C20"),
    "Investment": ("investment", "C07 C08 C09 C12 C16 C20"),
    "NonConvex": ("non_convex", "C04 C10 C11 C20"),
    "Bus": ("bus", "C01 C21"), "Source": ("source", "C21"), "Sink": ("sink", "C21"),
    "Converter": ("converter", "C13 C20"), "Link": ("link", "C13 C20"),
    "OffsetConverter": ("offset_converter", "C13 C20"),
    "ExtractionTurbineCHP": ("turbine", "C14 C20"),
    "GenericCHP": ("generic_chp", "C14 C20"),
    "GenericStorage": ("generic_storage", "C15 C16 C20"),
    "GenericCAES": ("generic_caes", "C24 C20"),
    "PiecewiseLinearConverter": ("piecewise_converter", "C24 C20")}


def check_objects(g, bad, counts):
    """the objects know what they were told"""
    for o in g.keep:
        cls, kw = g.kwargs[id(o)]
        if cls in OBJECTS:
            check_object(cls, o, None, kw, bad, counts)


def check_object(cls, o, exc, kw, bad, counts):
    chk = native.Check("objects." + cls)
    chk.exc = exc
    fn, props = OBJECTS[cls]
    run_contract(chk, "objects.py", fn, (o,), props, kw)
    bad += chk.bad
    counts[chk.unit] += chk.n


def run_contract(chk, file, fn, args, prop, kw={}):
    if chk.exc is not None:
        # the call failed: some condition of the contract demands that
        try:
            contract(file, fn, chk.namespace())(*args, **kw)
        except native.Rejected:
            return
        except Exception:
            pass
        chk.bad.clear()
        chk.report(prop, "unexpected %s: %s" % (type(chk.exc).__name__, chk.exc))
        return
    try:
        contract(file, fn, chk.namespace())(*args, **kw)
    except native.Rejected:
        pass
    except Exception as e:  # something the contract refers to is missing
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/contracts/" in f.filename]
        chk.report(prop_at(file, where[-1].lineno if where else None) or prop,
                   "contract cannot be evaluated: %s: %s (%s line %s: %s)" % (
            type(e).__name__, e, file, where[-1].lineno if where else "?",
            where[-1].line if where else ""))


def prop_at(file, line):
    """property of the next tagged statement at/after a contract line"""
    if line is None:
        return None
    import re
    text = open(os.path.join(VERIF, "contracts", file)).read().splitlines()
    for l in text[line - 1:line + 4]:
        mm = re.search(r'"(C\d\d(?: C\d\d)*)"', l)
        if mm:
            return mm.group(1)
    for l in reversed(text[:line]):
        mm = re.search(r'"(C\d\d(?: C\d\d)*)"', l)
        if mm:
            return mm.group(1)
    return None


def where(e):
    """innermost line of oemof.solph that raised"""
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/solph/" in f.filename:
            return "%s:%d %s" % (f.filename, f.lineno, f.line)
    f = tb[-1]
    return "%s:%d %s" % (f.filename, f.lineno, f.line)


def one(seed, profile, units=None):
    OBJ.clear()
    CREATED.clear()
    try:
        g, m = gen.build(seed, profile)
    except Exception as e:
        # no model, so none of the properties of its profile holds
        return [{"property": "*", "unit": "construction",
                 "what": "building a valid model raised %s: %s" % (type(e).__name__, e),
                 "detail": where(e)}], {}, set()
    bad, counts = check_model(g, m, units)
    check_objects(g, bad, counts)
    return bad, counts, g.feat


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--profiles", default="flow")
    ap.add_argument("--seeds", default="0:20")
    ap.add_argument("--seconds", type=float, default=120)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--units", default="")
    a = ap.parse_args()
    patch_objectives()
    if a.replay:
        rp = json.load(open(a.replay))
        if "profile" not in rp:
            print("replay names a failed obligation only")
            return 1
        bad, _, _ = one(rp["seed"], rp["profile"])
        if "property" in rp:
            bad = [b for b in bad if b["property"] == "*"
                   or rp["property"] in b["property"].split()]
        for b in bad:
            print(json.dumps(b, indent=1))
        return 1 if bad else 0
    lo, hi = map(int, a.seeds.split(":"))
    t0 = time.time()
    res = {"violations": [], "models": 0, "statements": {}, "features": {}, "crashes": []}
    cnt, feat = collections.Counter(), collections.Counter()
    units = [u for u in a.units.split(",") if u]
    for s in range(lo, hi):
        for prof in a.profiles.split(";"):
            if time.time() - t0 > a.seconds:
                break
            try:
                bad, c, f = one(s, prof, units)
            except Exception as e:  # of the checking itself: the others go on
                res["crashes"].append("%s/%s: %s: %s" % (s, prof, type(e).__name__, where(e)))
                if len(res["crashes"]) > 50:
                    raise
                continue
            cnt.update(c)
            feat.update(f)
            res["models"] += 1
            for b in bad:
                b["seed"], b["profile"] = s, prof
                if len(res["violations"]) < 400:
                    res["violations"].append(b)
    res["statements"], res["features"] = dict(cnt), dict(feat)
    res["seconds"] = round(time.time() - t0, 2)
    txt = json.dumps(res, indent=1, default=str)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(txt)
    return 0


if __name__ == "__main__":
    sys.exit(main())
