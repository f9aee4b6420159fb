"""The verification units: which functions of /repo are executed symbolically,
under which precondition (setup), against which contract."""

import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import blocks  # noqa: E402

from . import callee, terms as tm  # noqa: E402
from .data import (ageing, Concrete, FlowsMap, KeyMap, NP, NT, SINGLE, Schema, SymSeqConst, SymSeqLen, World,
                   node, param)  # noqa: E402
from .interp import (Builtin, Entry, ExcVal, Fam, MISSING, Obj, Poison, SDict, Seq, SymSeq, U, UNDEF,
                     Unsupported)
from . import inputs as inp  # noqa: E402
from .libmodel import PVar, DOMAINS, to_key  # noqa: E402
from .pdmodel import NAN  # noqa: E402
from .terms import TRUE  # noqa: E402
from .spec import Run, obligations  # noqa: E402

SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                         "contracts")
UNITS = {}


class Unit:
    def __init__(self, id, props, setup, file, fn, owner, functions, world=None, callees=None):
        self.id, self.props, self.setup = id, props, setup
        self.file, self.fn, self.owner = file, fn, owner
        self.functions = functions
        self.world = world or {}
        self.callees = callees


def unit(id, props, file, fn, owner, functions=(), **kw):
    def deco(f):
        UNITS[id] = Unit(id, props, f, file, fn, owner, functions, **kw)
        return f
    return deco


def run_unit(uid, thorough=False):
    """-> dict, everything picklable"""
    u = UNITS[uid]
    tm.reset() if hasattr(tm, "reset") else None
    t0 = time.time()
    out = {"unit": uid, "status": "ok", "obligations": [], "reason": None,
           "functions": [], "callees": [], "solver_calls": 0, "solver_seconds": 0.0,
           "solver_unknown": 0, "trusted": []}
    run = None
    try:
        run = Run(SRC)
        it = run.it
        if thorough:
            it.solver.log = []
        w = World(it, **u.world)
        it.contracts.update(callee.CONTRACTS if u.callees is None else u.callees)
        it.executed = {}
        go, cargs = u.setup(w, run)
        it.executed = {}
        res = run.code(go)
        ca = cargs(res)
        ca, ckw = ca if isinstance(ca, tuple) else (ca, None)
        run.contract(open(os.path.join(CONTRACTS, u.file)).read(), u.file, u.fn, ca, ckw)
        obs = obligations(run, uid, u.owner, seconds=150 if not thorough else 500)
        out["obligations"] = [o.as_dict() for o in obs]
        if not obs:
            out["status"], out["reason"] = "undecided", "no obligation generated"
        elif any(o.status == "timeout" for o in obs):
            out["status"], out["reason"] = "undecided", "time limit of the proof"
    except Unsupported as e:
        out["status"], out["reason"] = "undecided", str(e)
    except RecursionError:
        out["status"], out["reason"] = "undecided", "recursion limit of the evaluator"
    except Exception as e:
        out["status"] = "undecided"
        out["reason"] = "evaluator error %s: %s | %s" % (
            type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:])
    if run is not None:
        s = run.it.solver
        out.update(solver_calls=s.n, solver_seconds=round(s.time, 3), solver_unknown=s.unknown)
        out["functions"] = sorted(str(x) for x in run.it.executed)
        out["callees"] = sorted(run.it.called_contracts)
        out["notes"] = run.it.notes[:10]
        if thorough and s.log:
            out["smt"] = [q for q, r in s.log if r == "unsat"]
    out["seconds"] = round(time.time() - t0, 2)
    return out


def owner_of(cls, default=None):
    def f(owner):
        if owner is None:
            return default or blocks.BLOCKS[cls]["default"]
        return blocks.owner_prop(cls, str(owner), default)
    return f


def read_contract(f):
    return open(os.path.join(CONTRACTS, f)).read()


def assume_all(run, spec, cls, args, assume):
    for fn, target in (assume or {}).items():
        run.assume("%s.%s.%s" % (spec["module"], cls, target),
                   read_contract(spec["file"]), spec["file"], fn, args)


def block_unit(cls, group, suffix="create", props=None, assume=None, **kw):
    """unit for <cls>._create(group) against the block's post contract"""
    spec = blocks.BLOCKS[cls]

    def setup(w, run):
        b = w.block(spec["module"], cls)
        g = group(w)
        assume_all(run, spec, cls, [w.m, b, g], assume)
        return (lambda it: it.call(it.getattr_(b, "_create"), [g], {}),
                lambda r: [w.m, b, g])
    UNITS["%s.%s" % (cls, suffix)] = Unit(
        "%s.%s" % (cls, suffix), props or spec["props"], setup, spec["file"],
        spec["post"], owner_of(cls), ["%s.%s._create" % (spec["module"], cls)], **kw)


def objective_unit(cls, group, props, default, assume=None, **kw):
    spec = blocks.BLOCKS[cls]

    def setup(w, run):
        b = w.block(spec["module"], cls)
        g = group(w)
        assume_all(run, spec, cls, [w.m, b, g], assume)
        w.it.call(w.it.getattr_(b, "_create"), [g], {})
        w.it.rows, w.it.effects = [], []
        return (lambda it: it.call(it.getattr_(b, "_objective_expression"), [], {}),
                lambda r: [w.m, b, r])
    UNITS["%s.objective" % cls] = Unit(
        "%s.objective" % cls, props, setup, spec["file"], spec["objective"],
        owner_of(cls, default), ["%s.%s._objective_expression" % (spec["module"], cls)], **kw)


# ------------------------------------------------------------------ model
@unit("model.flow", ["C02"], "model.py", "post_flow_variable", lambda o: "C02",
      ["oemof.solph._models.Model._add_parent_block_variables"])
def _(w, run):
    w.m.slots.pop("flow")
    return (lambda it: it.call(it.getattr_(w.m, "_add_parent_block_variables"), [], {}),
            lambda r: [w.m, w.m, None])


block_unit("BusBlock", lambda w: w.node_group("isbus"))
block_unit("SimpleFlowBlock", lambda w: w.all_flows())
objective_unit("SimpleFlowBlock", lambda w: w.all_flows(), ["C06"], "C06")


def f_isnone(attr, i, o):
    return tm.app("Flow.%s?None" % attr, (i, o), "B")


def invest_only(i, o):
    return tm.and_(tm.not_(f_isnone("investment", i, o)), f_isnone("nonconvex", i, o))


OLD_END = {"old_end": "_create_constraints.<locals>._old_capacity_rule_end"}
block_unit("InvestmentFlowBlock", lambda w: w.all_flows(invest_only), assume=OLD_END)
objective_unit("InvestmentFlowBlock", lambda w: w.all_flows(invest_only), ["C09", "C17"], "C09",
               assume=OLD_END)


def old_end_proposal(invest):
    """values before iteration q of the loop over the periods in which the
    capacity built in period q is retired: the period of the iteration before,
    and what has been built since for the same period"""
    def hook(it, written, value):
        if not (isinstance(value, tuple) and len(value) == 2):
            return {}
        q, d = value
        if not (isinstance(d, tm.T) and d.op == "f" and d.args[0] == "retire_at" and d.args[2] is q):
            return {}
        years = d.args[1]
        if years.op != "f":
            return {}
        at = lambda x: tm.app("retire_at", (years, x), "I")
        before = lambda x: at(tm.sub(x, tm.ONE))

        def last(x):
            return U([(tm.eq(x, tm.ZERO), NAN), (tm.lt(tm.ZERO, x), before(x))])

        def total(x, end):
            j = tm.fresh("j", "I")
            g = tm.and_(tm.le(tm.ZERO, j), tm.lt(j, end), tm.eq(at(j), before(x)))
            return tm.mksum((j,), g, invest(years.args[1:], j))

        def given(x, value):
            some = tm.and_(tm.lt(tm.ZERO, x), tm.not_(tm.eq(before(x), tm.ZERO)))
            return U([(some, value), (tm.not_(some), Poison("nothing is retired"))])

        def built(x):
            return given(x, total(x, x))

        def unfolded(x):         # the last item of the sum on its own
            y = tm.sub(x, tm.ONE)
            return given(x, tm.add(total(x, y), invest(years.args[1:], y)))
        built.unfolded = unfolded
        out = {}
        for dct, k, had, old, new in written:
            if not had:
                continue
            if old is NAN:
                out[id(dct), k] = last
            elif k not in ("entries", "parts") and not isinstance(old, tm.T):
                out[id(dct), k] = built
        return out if sum(f is last for f in out.values()) == 1 and len(out) == 2 else {}
    return hook


class Capture:
    """stands for a function that is only to be found: keeps its calls"""

    def __init__(self):
        self.calls = []

    def capture(self, fn, a, k):
        self.calls.append((fn, a, k))


def old_end_unit(cls, group, target):
    """the rule that retires what has been built, on its own"""
    spec = blocks.BLOCKS[cls]
    qual = "%s.%s.%s" % (spec["module"], cls, target)

    def setup(w, run):
        it = w.it
        b = w.block(spec["module"], cls)
        g = group(w, run)
        rule = Capture()
        it.contracts[qual] = rule
        it.call(it.getattr_(b, "_create"), [g], {})
        del it.contracts[qual]
        if len(rule.calls) != 1:
            raise Unsupported("calls of %s" % qual)
        it.rows, it.effects = [], []
        last = ageing(it.theory)
        it.inverses["retire_at"] = lambda years, p: last(years, p)
        var = it.getattr_(b, "invest").name
        it.invariants[qual] = old_end_proposal(lambda key, q: tm.app(var, tuple(key) + (q,), "R"))
        return (lambda i: i.call(*rule.calls[0]), lambda r: [w.m, b, g])
    uid = "%s.retired" % cls
    UNITS[uid] = Unit(uid, ["C08"], setup, spec["file"], "old_end", lambda o: "C08", [qual],
                      world=dict(single=False))


old_end_unit("InvestmentFlowBlock", lambda w, run: w.all_flows(invest_only), OLD_END["old_end"])


def nonconvex_only(i, o):
    return tm.and_(tm.not_(f_isnone("nonconvex", i, o)), f_isnone("investment", i, o))


def both(i, o):
    return tm.and_(tm.not_(f_isnone("nonconvex", i, o)),
                   tm.not_(f_isnone("investment", i, o)))


block_unit("NonConvexFlowBlock", lambda w: w.all_flows(nonconvex_only))
objective_unit("NonConvexFlowBlock", lambda w: w.all_flows(nonconvex_only), ["C11"], "C11")
block_unit("InvestNonConvexFlowBlock", lambda w: w.all_flows(both))
objective_unit("InvestNonConvexFlowBlock", lambda w: w.all_flows(both), ["C09", "C11", "C17"], "C11")


# ------------------------------------------------------------- components
def conv_fields(w, names=("conversion_factors",)):
    """Converter.__init__: a factor series for every connected node"""
    for nm in names:
        def cf(it, o, nm=nm):
            n = o.key[0]
            return KeyMap(o, ("N",), lambda x: tm.app("has:" + nm, (n, x), "B"),
                          lambda x: SymSeq(nm, (n, x)), lambda x: node(x))
        w.it.schema["Node"].fields[nm] = ("val", cf)
        w.it.theory.axiom("isflow", lambda a, b, nm=nm: tm.implies(
            tm.app("isflow", (a, b), "B"),
            tm.and_(tm.app("has:" + nm, (a, b), "B"), tm.app("has:" + nm, (b, a), "B"))))


def g_converter(w):
    conv_fields(w)
    return w.node_group("isconverter")


def g_link(w):
    def cf(it, o):
        n = o.key[0]
        return KeyMap(o, ("N", "N"), lambda x, y: tm.app("has:linkcf", (n, x, y), "B"),
                      lambda x, y: SymSeq("linkcf", (n, x, y)), lambda x, y: (node(x), node(y)))
    w.it.schema["Node"].fields["conversion_factors"] = ("val", cf)
    # the pairs that have a factor are connected by the link
    w.it.theory.axiom("has:linkcf", lambda n, x, y: tm.implies(
        tm.app("has:linkcf", (n, x, y), "B"),
        tm.and_(tm.app("isflow", (x, n), "B"), tm.app("isflow", (n, y), "B"))))
    return w.node_group("islink")


def g_offset(w):
    conv_fields(w, ("conversion_factors", "normed_offsets"))
    f = w.it.schema["Node"].fields
    f["_reference_node"] = ("val", lambda it, o: node(tm.app("refnode", o.key, "N")))
    f["_reference_node_at_input"] = ("val", lambda it, o: tm.app("refin", o.key, "B"))
    b = w.block("oemof.solph.flows._non_convex_flow_block", "NonConvexFlowBlock")
    w.it.call(w.it.getattr_(b, "_create"), [w.all_flows(nonconvex_only)], {})
    b = w.block("oemof.solph.flows._invest_non_convex_flow_block", "InvestNonConvexFlowBlock")
    w.it.call(w.it.getattr_(b, "_create"), [w.all_flows(both)], {})
    w.it.rows, w.it.effects = [], []
    # no bus is input and output of one offset converter (factors are given
    # per bus)
    w.it.theory.axiom("isflow", lambda a, b: tm.and_(
        tm.implies(tm.and_(tm.app("isoffset", (b,), "B"), tm.app("isflow", (a, b), "B")),
                   tm.not_(tm.app("isflow", (b, a), "B"))),
        tm.implies(tm.and_(tm.app("isoffset", (a,), "B"), tm.app("isflow", (a, b), "B")),
                   tm.not_(tm.app("isflow", (b, a), "B")))))

    def facts(n):
        r = tm.app("refnode", (n,), "N")
        ri = tm.app("refin", (n,), "B")
        # OffsetConverter.__init__: the reference flow is the on/off flow
        return (tm.ite(ri, tm.and_(tm.app("isflow", (r, n), "B"),
                                   tm.not_(f_isnone("nonconvex", r, n))),
                       tm.and_(tm.app("isflow", (n, r), "B"),
                               tm.not_(f_isnone("nonconvex", n, r)))),)
    return w.node_group("isoffset", facts=facts)


block_unit("ConverterBlock", g_converter)
block_unit("LinkBlock", g_link)
block_unit("OffsetConverterBlock", g_offset)


def g_turbine(w):
    """one input, two outputs, one of them named as the main flow"""
    conv_fields(w)
    f = w.it.schema["Node"].fields
    A, B = "et_out_a", "et_out_b"

    def flow(it, a, b):
        return Obj("Flow", (a, b))

    def ins(it, o):
        i = tm.app("et_in", o.key, "N")
        return Concrete([(i, flow(it, i, o.key[0]))])

    def outs(it, o):
        return Concrete([(tm.app(x, o.key, "N"), flow(it, o.key[0], tm.app(x, o.key, "N")))
                         for x in (A, B)])
    f["inputs"], f["outputs"] = ("val", ins), ("val", outs)
    f["conversion_factor_full_condensation"] = ("val", lambda it, o: Concrete(
        [(tm.app("et_main", o.key, "N"), SymSeq("eta_full", o.key))]))

    def facts(n):
        i, a, b, x = [tm.app(k, (n,), "N") for k in ("et_in", A, B, "et_main")]
        return (tm.app("isflow", (i, n), "B"), tm.app("isflow", (n, a), "B"),
                tm.app("isflow", (n, b), "B"), tm.not_(tm.eq(a, b)),
                tm.or_(tm.eq(x, a), tm.eq(x, b)))
    return w.node_group("isturbine", facts=facts)


block_unit("ExtractionTurbineCHPBlock", g_turbine)


def chp_alphas(n):
    """result of GenericCHP.alphas (unit GenericCHP.alphas)"""
    def pt(nm, t):
        return tm.app("Flow.cp[%s]" % nm, (n, tm.app("chp_el", (n,), "N"), t), "R")

    def hs(t):
        return (tm.div(pt("P_min_woDH", t), pt("Eta_el_min_woDH", t)),
                tm.div(pt("P_max_woDH", t), pt("Eta_el_max_woDH", t)))

    def slope(t):
        lo, hi = hs(t)
        return tm.div(tm.sub(hi, lo), tm.sub(pt("P_max_woDH", t), pt("P_min_woDH", t)))
    k = tm.fresh("k", "I")
    rng = tm.and_(tm.le(tm.ZERO, k), tm.lt(k, tm.var("NT", "I")))
    return (Seq([Fam((k,), rng, tm.sub(hs(k)[0], tm.mul(slope(k), pt("P_min_woDH", k))))]),
            Seq([Fam((k,), rng, slope(k))]))


def chp_fields(w):
    f = w.it.schema["Node"].fields

    def one(name, inp):
        def g(it, o):
            b = tm.app(name, o.key, "N")
            return Concrete([(b, Obj("Flow", (b, o.key[0]) if inp else (o.key[0], b)))])
        return ("val", g)
    f["fuel_input"] = one("chp_fuel", True)
    f["electrical_output"] = one("chp_el", False)
    f["heat_output"] = one("chp_heat", False)
    f["beta"] = "seq"
    f["back_pressure"] = "B"
    f["alphas"] = ("val", lambda it, o: chp_alphas(o.key[0]))

    def has(a, b, *names):
        return [tm.not_(tm.app("Flow.cp?None", (a, b), "B"))] + [
            tm.app("Flow.cp.has[%s]" % x, (a, b), "B") for x in names]

    def facts(n):
        u, e, h = [tm.app(k, (n,), "N") for k in ("chp_fuel", "chp_el", "chp_heat")]
        return tuple([tm.app("isflow", (u, n), "B"), tm.app("isflow", (n, e), "B"),
                      tm.app("isflow", (n, h), "B")]
                     + has(u, n, "H_L_FG_share_max")
                     + has(n, e, "P_max_woDH", "P_min_woDH", "Eta_el_max_woDH",
                           "Eta_el_min_woDH")
                     + has(n, h, "Q_CW_min"))
    return facts


def g_chp(w):
    return w.node_group("ischp", facts=chp_fields(w))


block_unit("GenericCHPBlock", g_chp)
objective_unit("GenericCHPBlock", g_chp, ["C06"], "C06")


class NodeParams:
    """dictionary of numbers, one for each name and node"""

    def __init__(self, n):
        self.n = n

    def subst(self, m):
        return NodeParams(tm.subst(self.n, m))

    def getitem(self, it, name):
        if not isinstance(name, str):
            it.unsupported("name of a parameter")
        return tm.app("params[%s]" % name, (self.n,), "R")

    def attr(self, it, name):
        return MISSING


def g_caes(w):
    f = w.it.schema["Node"].fields

    def one(name, inp):
        def g(it, o):
            b = tm.app(name, o.key, "N")
            return Concrete([(b, Obj("Flow", (b, o.key[0]) if inp else (o.key[0], b)))])
        return ("val", g)
    f["electrical_input"], f["fuel_input"] = one("caes_el", True), one("caes_fuel", True)
    f["electrical_output"] = one("caes_out", False)
    f["params"] = ("val", lambda it, o: NodeParams(o.key[0]))

    def facts(n):
        return tuple(tm.app("isflow", k, "B") for k in (
            (tm.app("caes_el", (n,), "N"), n), (tm.app("caes_fuel", (n,), "N"), n),
            (n, tm.app("caes_out", (n,), "N"))))
    return w.node_group("iscaes", facts=facts)


block_unit("GenericCAESBlock", g_caes)


def g_piecewise(w):
    f = w.it.schema["Node"].fields

    def one(name, inp):
        def g(it, o):
            b = tm.app(name, o.key, "N")
            return Concrete([(b, Obj("Flow", (b, o.key[0]) if inp else (o.key[0], b)))])
        return ("val", g)
    f["inputs"], f["outputs"] = one("pw_in", True), one("pw_out", False)
    f["pw_repn"] = ("val", lambda it, o: "CC")
    f["in_breakpoints"] = ("val", lambda it, o: inp.InSeq(
        "breakpoint", tm.app("len:breakpoint", o.key, "I"), o.key))
    f["conversion_function"] = ("val", lambda it, o: Builtin(
        "conversion_function", lambda i, a, k: tm.app("function", (*o.key, i.term(a[0])), "R")))
    w.it.theory.facts.append(tm.app("ispw", (tm.var("a converter", "N"),), "B"))

    def facts(n):
        return (tm.le(tm.ONE, tm.app("len:breakpoint", (n,), "I")),
                tm.app("isflow", (tm.app("pw_in", (n,), "N"), n), "B"),
                tm.app("isflow", (n, tm.app("pw_out", (n,), "N")), "B"))
    return w.node_group("ispw", facts=facts)


block_unit("PiecewiseLinearConverterBlock", g_piecewise)


def storage_fields(w, invest, tsam):
    f = w.it.schema["Node"].fields

    def one(name, inp):
        def g(it, o):
            b = tm.app(name, o.key, "N")
            return Concrete([(b, Obj("Flow", (b, o.key[0]) if inp else (o.key[0], b)))])
        return ("val", g)
    f["inputs"], f["outputs"] = one("st_in", True), one("st_out", False)
    f.update({
        "initial_storage_level": ("opt", "R"), "balanced": "B",
        "loss_rate": "seq", "fixed_losses_relative": "seq",
        "fixed_losses_absolute": "seq", "inflow_conversion_factor": "seq",
        "outflow_conversion_factor": "seq", "min_storage_level": "seq",
        "max_storage_level": "seq", "fixed_costs": ("opt", "seq"),
        "storage_costs": ("opt", "seq"),
        "invest_relation_input_output": ("opt", "seq"),
        "constant_soc_until": ("opt", "R"), "fraction_saturation_charging": "R",
        "max_charge_capacity": "R", "relative_charge_limit": "seq",
    })
    if invest:
        f["investment"] = ("obj", "Investment")
        f["invest_relation_input_capacity"] = ("opt", "seq")
        f["invest_relation_output_capacity"] = ("opt", "seq")
    else:
        f["investment"] = ("const", None)
        f["nominal_storage_capacity"] = "R"
    if tsam:
        # a model of typical periods knows one level for the whole horizon,
        # no charge limit that depends on the content and no costs of content
        for a in ("min_storage_level", "max_storage_level"):
            f[a] = ("val", lambda it, o, a=a: SymSeqConst("Node.%s" % a, o.key))
        f["constant_soc_until"] = ("const", None)
        f["storage_costs"] = ("const", None)
    iblock = w.block("oemof.solph.flows._investment_flow_block", "InvestmentFlowBlock")
    spec = blocks.BLOCKS["InvestmentFlowBlock"]
    return iblock, spec


def g_storage(w, run, invest, tsam):
    b, spec = storage_fields(w, invest, tsam)
    flows = w.all_flows(invest_only)
    assume_all(run, spec, "InvestmentFlowBlock", [w.m, b, flows], OLD_END)
    w.it.call(w.it.getattr_(b, "_create"), [flows], {})
    w.it.rows, w.it.effects = [], []

    def none(a, n):
        return tm.app("Node.%s?None" % a, (n,), "B")

    def facts(n):
        i, o = [tm.app(k, (n,), "N") for k in ("st_in", "st_out")]
        fin, fout = [tm.and_(*x) for x in (
            (tm.not_(f_isnone("investment", i, n)), f_isnone("nonconvex", i, n)),
            (tm.not_(f_isnone("investment", n, o)), f_isnone("nonconvex", n, o)))]
        out = [tm.app("isflow", (i, n), "B"), tm.app("isflow", (n, o), "B"),
               # GenericStorage._check_invest_relations
               tm.or_(none("invest_relation_input_output", n), tm.and_(fin, fout))]
        if invest:
            out += [tm.or_(none("invest_relation_input_capacity", n), fin),
                    tm.or_(none("invest_relation_output_capacity", n), fout),
                    # checked by the block itself, see C20
                    tm.or_(SINGLE, none("initial_storage_level", n)),
                    tm.or_(SINGLE, tm.eq(tm.app(
                        "Node.fixed_losses_absolute", (n, tm.ZERO), "R"), tm.ZERO))]
        return tuple(out)
    return w.node_group("isstorage", facts=facts)


def storage_unit(cls, invest, tsam, assume=None):
    spec = blocks.BLOCKS[cls]

    def setup(w, run):
        if tsam:
            typical_periods(w)
        g = g_storage(w, run, invest, tsam)
        b = w.block(spec["module"], cls)
        assume_all(run, spec, cls, [w.m, b, g], assume)
        return (lambda it: it.call(it.getattr_(b, "_create"), [g], {}),
                lambda r: [w.m, b, g])
    uid = "%s.create%s" % (cls, ".typical" if tsam else "")
    UNITS[uid] = Unit(uid, spec["props"], setup, spec["file"], spec["post"], owner_of(cls),
                      ["%s.%s._create" % (spec["module"], cls)],
                      world=dict(single=True, tsam=True) if tsam else None)

    def setup2(w, run):
        if tsam:
            typical_periods(w)
        g = g_storage(w, run, invest, tsam)
        b = w.block(spec["module"], cls)
        assume_all(run, spec, cls, [w.m, b, g], assume)
        w.it.call(w.it.getattr_(b, "_create"), [g], {})
        w.it.rows, w.it.effects = [], []
        return (lambda it: it.call(it.getattr_(b, "_objective_expression"), [], {}),
                lambda r: [w.m, b, r])
    if not tsam:
        uid = "%s.objective" % cls
        UNITS[uid] = Unit(uid, ["C06", "C09", "C17"] if invest else ["C06"], setup2, spec["file"],
                          spec["objective"], owner_of(cls, "C09" if invest else "C06"),
                          ["%s.%s._objective_expression" % (spec["module"], cls)])


def typical_periods(w):
    """single-period model of NK typical periods with NS steps each that
    stand for NO periods of the horizon"""
    it, s = w.it, w.m.slots
    NK, NS, NO = [tm.var(x, "I") for x in ("NK", "NS", "NO")]
    Z = tm.ZERO
    it.theory.facts += [tm.le(tm.ONE, x) for x in (NK, NS, NO)]
    it.theory.facts.append(tm.eq(NT, tm.mul(NK, NS)))
    it.theory.facts.append(tm.eq(NP, tm.ONE))
    it.theory.axiom("order", lambda i: tm.and_(
        tm.le(Z, tm.app("order", (i,), "I")), tm.lt(tm.app("order", (i,), "I"), NK)))
    s["PERIODS"] = Seq([Fam((), TRUE, 0)])
    s["TIMESTEPS_IN_PERIOD"] = SDict([Entry("set", (), TRUE, 0, it.mkrange(Z, NT))])
    s["CLUSTERS"] = it.mkrange(Z, NO)
    s["CLUSTERS_OFFSET"] = it.mkrange(Z, tm.add(NO, tm.ONE))

    def fam(*lim):
        xs = [tm.fresh("x", "I") for _ in lim]
        g = tm.and_(*[tm.and_(tm.le(Z, x), tm.lt(x, n)) for x, n in zip(xs, lim)])
        return Seq([Fam(tuple(xs), g, (0,) + tuple(xs))])
    s["TYPICAL_CLUSTERS"] = fam(NK)
    s["TIMEINDEX_CLUSTER"] = fam(NO, NS)
    s["TIMEINDEX_TYPICAL_CLUSTER"] = fam(NK, NS)
    s["TIMEINDEX_TYPICAL_CLUSTER_OFFSET"] = fam(NK, tm.add(NS, tm.ONE))
    par = SDict([
        Entry("set", (), TRUE, "order", SymSeqLen("order", NO, (), "I")),
        Entry("set", (), TRUE, "occurrences", SymSeqLen("occurrences", NK, (), "I")),
        Entry("set", (), TRUE, "timesteps", NS),
    ])
    it.schema["EnergySystem"].fields["tsa_parameters"] = (
        "val", lambda i, o: Seq([Fam((), TRUE, par)]))


STORAGE_OLD = {"old_end": "_create.<locals>._old_storage_capacity_rule_end"}
for _t in (False, True):
    storage_unit("GenericStorageBlock", False, _t)
    storage_unit("GenericInvestmentStorageBlock", True, _t, STORAGE_OLD)
old_end_unit("GenericInvestmentStorageBlock", lambda w, run: g_storage(w, run, True, False),
             STORAGE_OLD["old_end"])


# --------------------------------------------- constraints added afterwards
def fn_unit(name, props, fn, contract, args, world=None, variant=""):
    """oemof.solph.constraints.<fn> called with `args(w)`"""
    mod, fname = fn
    uid = "constraints.%s%s" % (fname, variant)

    def setup(w, run):
        a = args(w, run)
        w.it.rows, w.it.effects = [], []
        f = w.it.load(mod).attrs[fname]
        code, spec = a if isinstance(a, tuple) and isinstance(a[1], list) else (a, None)
        return (lambda it: it.call(f, [w.m] + list(code[0]), code[1]),
                lambda r: [w.m] + spec + [r])
    UNITS[uid] = Unit(uid, props, setup, "constraints.py", contract, lambda o: props[0],
                      ["%s.%s" % (mod, fname)], world=world)


INTEGRAL = "oemof.solph.constraints.integral_limit"
INVEST_LIMIT = "oemof.solph.constraints.investment_limit"


class Given:
    """dictionary (i, o) -> flow over some of the edges"""

    def __init__(self, name):
        self.name = name

    def pred(self, a, b):
        return tm.app(self.name, (a, b), "B")

    def iterate(self, it):
        a, b = tm.fresh("i", "N"), tm.fresh("o", "N")
        return Seq([Fam((a, b), self.pred(a, b), (node(a), node(b)))])

    def getitem(self, it, k):
        ks = to_key(it, k)
        it.raise_if(tm.not_(self.pred(*ks)), ExcVal("KeyError"))
        return Obj("Flow", ks)

    def truth(self, it):
        return it.nonempty(self.iterate(it))

    attr = FlowsMap.attr

    def subst(self, m):
        return self


def given(w, keyword):
    """flows passed explicitly: edges that carry the keyword"""
    w.it.theory.axiom("given", lambda a, b: tm.implies(
        tm.app("given", (a, b), "B"), tm.and_(
            tm.app("isflow", (a, b), "B"),
            tm.app("Flow.cp.has[%s]" % keyword, (a, b), "B"))))
    return Given("given")


def optnum(name):
    n = tm.app(name + "?None", (), "B")
    return U([(n, None), (tm.not_(n), tm.var(name, "R"))])


def limits(w):
    """at least one of the two limits is given"""
    lo, up = optnum("lower"), optnum("upper")
    w.it.theory.facts.append(tm.not_(tm.and_(tm.app("lower?None", (), "B"),
                                             tm.app("upper?None", (), "B"))))
    return lo, up


def integral_units():
    def a(w, run, fl):
        lo, up = limits(w)
        f = given(w, "kw") if fl else None
        return ((["kw"], {"flows": f, "upper_limit": up, "lower_limit": lo}),
                ["kw", f, up, lo, None])

    def e(w, run, fl):
        f = given(w, "emission_factor") if fl else None
        x = tm.var("limit", "R")
        return (([], {"flows": f, "limit": x}), [f, x])

    def per(w, run, fl):
        f = given(w, "kw") if fl else None
        x = param("limit", NP)
        return ((["kw"], {"flows": f, "limit": x}), ["kw", f, x])

    def eper(w, run, fl):
        f = given(w, "emission_factor") if fl else None
        x = param("limit", NP)
        return (([], {"flows": f, "limit": x}), [f, x])
    for fn, c, g, wd in (("generic_integral_limit", "integral_limit", a, None),
                         ("emission_limit", "emission_limit", e, None),
                         ("generic_periodical_integral_limit", "periodical_integral_limit",
                          per, dict(single=False)),
                         ("emission_limit_per_period", "emission_limit_per_period", eper,
                          dict(single=False))):
        for fl in (False, True):
            fn_unit(fn, ["C17"], (INTEGRAL, fn), c, lambda w, run, g=g, fl=fl: g(w, run, fl),
                    variant=".given" if fl else "", world=wd)


integral_units()


def both_limits(w, run):
    """limits of two properties do not replace each other"""
    w.it.rows, w.it.effects = [], []
    f = w.it.load(INTEGRAL).attrs["generic_periodical_integral_limit"]
    x, y = param("limit", NP), param("limit2", NP)

    def go(it):
        it.call(f, [w.m, "kw"], {"limit": x})
        return it.call(f, [w.m, "kw2"], {"limit": y})
    return go, lambda r: [w.m, "kw", x, "kw2", y, r]


UNITS["constraints.generic_periodical_integral_limit.twice"] = Unit(
    "constraints.generic_periodical_integral_limit.twice", ["C17"], both_limits, "constraints.py",
    "periodical_integral_limits", lambda o: "C17", [INTEGRAL + ".generic_periodical_integral_limit"],
    world=dict(single=False))


COST_BLOCKS = ("InvestmentFlowBlock", "InvestNonConvexFlowBlock",
               "GenericInvestmentStorageBlock", "SinkDSMOemofInvestmentBlock",
               "SinkDSMDIWInvestmentBlock", "SinkDSMDLRInvestmentBlock")


def cost_blocks(w):
    """the blocks of the model: flow blocks always exist, blocks of components
    only with objects; each has costs if it got any objects"""
    for b in COST_BLOCKS:
        has = tm.var("objects:" + b, "B")
        names = {"investment_costs": tm.app("cost:" + b, (), "R"),
                 "period_investment_costs": SymSeq("cost:%s[p]" % b, ())}
        w.it.var_names |= {"cost:" + b, "cost:%s[p]" % b}
        w.it.schema["CB:" + b] = Schema("CB:" + b, {
            k: ("val", lambda it, o, v=v, has=has: U([(has, v), (tm.not_(has), MISSING)]))
            for k, v in names.items()})
        o = Obj("CB:" + b, ())
        w.m.slots[b] = o if "Flow" in b else U([(has, o), (tm.not_(has), MISSING)])
    # rows without any object are not constraints
    w.it.theory.facts.append(tm.or_(*[tm.var("objects:" + b, "B") for b in COST_BLOCKS]))


def a_invest(w, run):
    cost_blocks(w)
    x = tm.var("limit", "R")
    return (([], {"limit": x}), [x])


def a_invest_per(w, run):
    cost_blocks(w)
    x = param("limit", NP)
    return (([], {"limit": x}), [x])


def a_addinv(w, run):
    b = w.block("oemof.solph.flows._investment_flow_block", "InvestmentFlowBlock")
    g = w.all_flows(invest_only)
    assume_all(run, blocks.BLOCKS["InvestmentFlowBlock"], "InvestmentFlowBlock",
               [w.m, b, g], OLD_END)
    w.it.call(w.it.getattr_(b, "_create"), [g], {})
    b = w.block("oemof.solph.flows._invest_non_convex_flow_block", "InvestNonConvexFlowBlock")
    w.it.call(w.it.getattr_(b, "_create"), [w.all_flows(both)], {})
    x = tm.var("limit", "R")
    return ((["kw"], {"limit": x}), ["kw", x])


fn_unit("investment_limit", ["C17"], (INVEST_LIMIT, "investment_limit"), "investment_limit", a_invest)
fn_unit("investment_limit_per_period", ["C17"], (INVEST_LIMIT, "investment_limit_per_period"),
        "investment_limit_per_period", a_invest_per, world=dict(single=False))
fn_unit("additional_investment_flow_limit", ["C17"],
        (INVEST_LIMIT, "additional_investment_flow_limit"), "additional_investment_flow_limit",
        a_addinv)


EQV = "oemof.solph.constraints.equate_variables"
EQF = "oemof.solph.constraints.equate_flows"
CNT = "oemof.solph.constraints.flow_count_limit"
SHL = "oemof.solph.constraints.shared_limit"
SLV = "oemof.solph.constraints.storage_level"


def edge_list(w, name, cond=lambda a, b: TRUE):
    """list of edges, possibly with repetitions"""
    n = tm.var(name + ".len", "I")
    k = tm.fresh("k", "I")
    a, b = tm.app(name + ".i", (k,), "N"), tm.app(name + ".o", (k,), "N")
    w.it.theory.facts.append(tm.le(tm.ZERO, n))

    def ax(k):
        a, b = tm.app(name + ".i", (k,), "N"), tm.app(name + ".o", (k,), "N")
        return tm.implies(tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n)), tm.and_(
            tm.app("isflow", (a, b), "B"), cond(a, b)))
    w.it.theory.axiom(name + ".i", ax)
    return Seq([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n)), (node(a), node(b)))])


def a_eqv(w, run):
    x = tm.app("flow", (tm.var("va", "N"), tm.var("vb", "N"), tm.var("vt", "I")), "R")
    w.it.var_names.add("othervar")
    y = tm.app("othervar", (), "R")
    f = tm.var("factor", "R")
    return (([x, y], {"factor1": f, "name": "cpl"}), [x, y, f])


def a_eqf(w, run):
    a, b = edge_list(w, "fl1"), edge_list(w, "fl2")
    f = tm.var("factor", "R")
    return (([a, b], {"factor1": f}), [a, b, f])


def a_eqk(w, run):
    f = tm.var("factor", "R")
    return ((["kw1", "kw2"], {"factor1": f}), ["kw1", "kw2", f])


def nonconvex_block(w):
    b = w.block("oemof.solph.flows._non_convex_flow_block", "NonConvexFlowBlock")
    w.it.call(w.it.getattr_(b, "_create"), [w.all_flows(nonconvex_only)], {})


def a_cnt(w, run):
    nonconvex_block(w)
    a = edge_list(w, "fl1", nonconvex_only)
    lo, up = tm.var("lower", "R"), optnum("upper")
    return ((["cpl", a], {"lower_limit": lo, "upper_limit": up}), ["cpl", a, lo, up])


def a_cntk(w, run):
    nonconvex_block(w)
    w.it.theory.facts.append(tm.exists(*some_nonconvex()))
    lo, up = tm.var("lower", "R"), optnum("upper")
    return ((["kw"], {"lower_limit": lo, "upper_limit": up}), ["kw", lo, up])


def some_nonconvex():
    a, b = tm.fresh("i", "N"), tm.fresh("o", "N")
    return (a, b), tm.and_(tm.app("isflow", (a, b), "B"), nonconvex_only(a, b)), TRUE


def a_shared(w, run):
    q = PVar([w.m.slots["NODES"], w.m.slots["TIMEPOINTS"]], DOMAINS["Reals"], None, None)
    q.name = "quantity"
    w.it.var_names.add("quantity")
    n = tm.var("comp.len", "I")
    w.it.theory.facts.append(tm.le(tm.ZERO, n))
    w.it.theory.axiom("comp", lambda k: tm.implies(
        tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n)),
        tm.app("isnode", (tm.app("comp", (k,), "N"),), "B")))
    k = tm.fresh("k", "I")
    comps = Seq([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n)),
                     node(tm.app("comp", (k,), "N")))])
    weights = SymSeqLen("weight", n)
    lo, up = tm.var("lower", "R"), optnum("upper")
    return (([q, "cpl", comps, weights], {"lower_limit": lo, "upper_limit": up}),
            [q, "cpl", comps, weights, lo, up])


def a_level(w, run):
    storage_fields(w, False, False)
    g = w.node_group("isstorage", facts=lambda n: (
        tm.app("isflow", (tm.app("st_in", (n,), "N"), n), "B"),
        tm.app("isflow", (n, tm.app("st_out", (n,), "N")), "B"),
        tm.app("Node.invest_relation_input_output?None", (n,), "B")))
    b = w.block("oemof.solph.components._generic_storage", "GenericStorageBlock")
    w.it.call(w.it.getattr_(b, "_create"), [g], {})
    st, bus = tm.var("the_storage", "N"), tm.var("the_bus", "N")
    w.it.theory.facts.append(tm.app("isstorage", (st,), "B"))

    def levels(nm, edge):
        w.it.theory.axiom("in:" + nm, lambda x: tm.implies(
            tm.app("in:" + nm, (x,), "B"),
            tm.and_(tm.app("isflow", edge(x), "B"),
                    tm.not_(f_isnone("nominal_capacity", *edge(x))))))
        return KeyMap(None, ("N",), lambda x: tm.app("in:" + nm, (x,), "B"),
                      lambda x: tm.app(nm, (x,), "R"), lambda x: node(x))
    i = levels("inlevel", lambda x: (x, bus))
    o = levels("outlevel", lambda x: (bus, x))
    return ((["cpl", node(st), node(bus), i, o], {}), ["cpl", node(st), node(bus), i, o])


for _fn, _mod, _a in (("equate_variables", EQV, a_eqv), ("equate_flows", EQF, a_eqf),
                      ("equate_flows_by_keyword", EQF, a_eqk),
                      ("limit_active_flow_count", CNT, a_cnt),
                      ("limit_active_flow_count_by_keyword", CNT, a_cntk),
                      ("shared_limit", SHL, a_shared)):
    fn_unit(_fn, ["C18"], (_mod, _fn), _fn, _a)
fn_unit("storage_level_constraint", ["C18"], (SLV, "storage_level_constraint"),
        "storage_level", a_level, world=dict(tsam=False))


from . import units_lemmas, units_model, units_objects, units_results, units_times, units_wiring  # noqa: E402, F401


if __name__ == "__main__":
    import json
    from vcgen.units import UNITS, run_unit   # noqa: F811
    for u in sys.argv[1:] or list(UNITS):
        r = run_unit(u)
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        print("%-32s %-9s obligations %d proved %d  %.1fs (solver %d calls %.1fs) %s" % (
            u, r["status"], len(r["obligations"]), len(r["obligations"]) - len(bad),
            r["seconds"], r["solver_calls"], r["solver_seconds"], r["reason"] or ""))
        for o in bad[:12]:
            print("   ##", o["status"], o["property"], o["obligation"][:400], "\n        ", o["detail"][:700])
