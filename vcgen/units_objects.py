"""Units: constructors and the sequences parameters are stored as."""

import ast

from . import inputs as inp, terms as tm
from .callee import element
from .interp import (ClassVal, Opaque, Entry, Fam, Inst, MISSING, Obj, SDict, Seq, U)
from .units import UNITS, Unit
from .terms import TRUE

PLUMBING = "oemof.solph._plumbing"
OPTIONS = "oemof.solph._options"
FLOW = "oemof.solph.flows._flow"


def constructor(uid, props, mod, cls, fn, args, file="objects.py", world=None):
    """cls(**kwargs) against its contract fn(object, **kwargs)"""
    def setup(w, run):
        it = w.it
        it.naming = True
        kw = args(w, it)
        c = it.load(mod).attrs[cls]
        box = []

        def go(it):
            o = it.call(c, [], dict(kw))
            box.append(o)
            return o
        return go, lambda r: ([r], kw)
    UNITS[uid] = Unit(uid, props, setup, file, fn, lambda o: props[0],
                      ["%s.%s.__init__" % (mod, cls)], world=world, callees={})


def custom(it, name):
    """nothing or a dictionary with one (arbitrary) key"""
    d = it.mkdict([Entry("set", (), TRUE, "kw", tm.var(name + "[kw]", "R"))])
    return inp.choice(name, none=None, dict=d)


def a_nonconvex(w, it):
    n = lambda x, **k: inp.numeric(it, x, **k)
    kw = {x: n(x, none=True) for x in (
        "startup_costs", "shutdown_costs", "activity_costs", "inactivity_costs",
        "negative_gradient_limit", "positive_gradient_limit")}
    kw.update({x: n(x, none=True, series_=False) for x in ("maximum_startups", "maximum_shutdowns")})
    kw["initial_status"] = tm.var("initial_status", "I")
    it.theory.facts.append(tm.or_(tm.eq(kw["initial_status"], tm.ZERO),
                                  tm.eq(kw["initial_status"], tm.ONE)))
    for x in ("minimum_uptime", "minimum_downtime"):
        kw[x] = n(x, sort="I")
    kw["custom_attributes"] = custom(it, "custom_attributes")
    kw["custom_properties"] = custom(it, "custom_properties")
    return kw


constructor("NonConvex.init", ["C20", "C10", "C11"], OPTIONS, "NonConvex", "non_convex", a_nonconvex)


def a_investment(w, it):
    n = lambda x, **k: inp.numeric(it, x, **k)
    kw = {x: n(x) for x in ("maximum", "minimum", "ep_costs", "offset")}
    it.theory.facts += [tm.lt(tm.ZERO, tm.INF), tm.le(tm.ZERO, inp.extremum(it, kw["maximum"], "max"))]
    kw["fixed_costs"] = n("fixed_costs", none=True)
    kw["existing"] = tm.var("existing", "R")
    kw["nonconvex"] = inp.choice("nonconvex", flag=tm.var("nonconvex", "B"), other="yes")
    for x in ("overall_maximum", "overall_minimum"):
        kw[x] = n(x, none=True, series_=False)
    kw["lifetime"] = n("lifetime", none=True, series_=False, sort="I")
    kw["age"] = tm.var("age", "I")
    kw["custom_attributes"] = custom(it, "custom_attributes")
    kw["custom_properties"] = custom(it, "custom_properties")
    return kw


constructor("Investment.init", ["C20", "C07", "C08", "C09", "C12", "C16"], OPTIONS, "Investment",
            "investment", a_investment)


def a_flow(old):
    def args(w, it):
        n = lambda x, **k: inp.numeric(it, x, none=True, **k)
        k = (tm.var("fi", "N"), tm.var("fo", "N"))
        kw = {"nominal_capacity": n("nominal_capacity", series_=False,
                                    investment=Obj("Investment", k), other="much")}
        names = ["minimum", "maximum", "fix", "positive_gradient_limit",
                 "negative_gradient_limit", "fixed_costs", "variable_costs"]
        if old:
            names += ["min", "max"]
            kw["nominal_value"] = n("nominal_value", series_=False)
            kw["custom_attributes"] = custom(it, "custom_attributes")
        kw.update({x: n(x) for x in names})
        for x in ("full_load_time_max", "full_load_time_min"):
            kw[x] = n(x, series_=False)
        for x in ("lifetime", "age"):
            kw[x] = n(x, series_=False, sort="I")
        kw["integer"], kw["bidirectional"] = tm.var("integer", "B"), tm.var("bidirectional", "B")
        kw["nonconvex"] = inp.choice("nonconvex", none=None, nonconvex=Obj("NonConvex", k))
        kw["custom_properties"] = custom(it, "custom_properties")
        return kw
    return args


# with and without the deprecated names of parameters
constructor("Flow.init", ["C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11",
                          "C12", "C17", "C18"], FLOW, "Flow", "flow", a_flow(False))
constructor("Flow.init.deprecated", ["C20", "C02", "C17"], FLOW, "Flow", "flow", a_flow(True))


# ------------------------------------------------------------------ nodes
CO = "oemof.solph.components."


def edges(it, name, side, me):
    """a mapping from arbitrarily many buses to flows"""
    x = tm.fresh("nb", "N")
    k = (x, me) if side == "in" else (me, x)
    return it.mkdict([Entry("set", (x,), tm.app("given:" + name, (x,), "B"),
                            Obj("Node", (x,)), Obj("Flow", k))])


def a_converter(w, it):
    me = tm.var("self", "N")
    kw = {"label": "c"}
    for n, side in (("inputs", "in"), ("outputs", "out")):
        kw[n] = choice_none(n, edges(it, n, side, me))
    x = tm.fresh("cf", "N")
    kw["conversion_factors"] = choice_none("conversion_factors", it.mkdict([
        Entry("set", (x,), tm.app("given:factor", (x,), "B"), Obj("Node", (x,)),
              inp.keyed(it, "factor", (x,)))]))
    kw["custom_properties"] = custom(it, "custom_properties")
    return kw


def choice_none(name, v):
    return inp.choice(name, none=None, given=v)


def a_link(w, it):
    kw = a_converter(w, it)
    x, y = tm.fresh("a", "N"), tm.fresh("b", "N")
    kw["conversion_factors"] = choice_none("conversion_factors", it.mkdict([
        Entry("set", (x, y), tm.app("given:factor", (x, y), "B"),
              (Obj("Node", (x,)), Obj("Node", (y,))), inp.keyed(it, "factor", (x, y)))]))
    return kw


def a_turbine(w, it):
    kw = a_converter(w, it)
    x = tm.fresh("x", "N")
    kw["conversion_factor_full_condensation"] = it.mkdict([
        Entry("set", (x,), tm.app("given:full", (x,), "B"), Obj("Node", (x,)),
              inp.keyed(it, "full", (x,)))])
    return kw


def a_bus(w, it):
    kw = a_converter(w, it)
    del kw["conversion_factors"]
    kw["balanced"] = tm.var("balanced", "B")
    return kw


def some(it, name, side, me, n=2):
    """a mapping from at most n buses to flows"""
    xs = [tm.var("%s%d" % (name, i), "N") for i in range(n)]
    for i in range(n):
        for j in range(i):
            it.theory.facts.append(tm.not_(tm.eq(xs[i], xs[j])))
    return it.mkdict([Entry("set", (), tm.var("%s%d:given" % (name, i), "B"), Obj("Node", (x,)),
                            Obj("Flow", (x, me) if side == "in" else (me, x)))
                      for i, x in enumerate(xs)])


def a_storage(w, it):
    me = tm.var("self", "N")
    n = lambda x, **k: inp.numeric(it, x, **k)
    kw = {"label": "s"}
    for x, side in (("inputs", "in"), ("outputs", "out")):
        kw[x] = choice_none(x, some(it, x, side, me))
    for x in ("nominal_capacity", "nominal_storage_capacity"):
        kw[x] = n(x, series_=False, none=True, investment=Obj("Investment", (me,)), other="much")
    kw["initial_storage_level"] = n("initial_storage_level", series_=False, none=True)
    for x in ("input_output", "input_capacity", "output_capacity"):
        kw["invest_relation_" + x] = n("invest_relation_" + x, none=True)
    for x in ("min_storage_level", "max_storage_level", "loss_rate", "fixed_losses_relative",
              "fixed_losses_absolute", "inflow_conversion_factor", "outflow_conversion_factor"):
        kw[x] = n(x)
    it.theory.facts.append(tm.le(tm.ZERO, inp.extremum(it, kw["fixed_losses_absolute"], "min")))
    for x in ("fixed_costs", "storage_costs"):
        kw[x] = n(x, none=True)
    for x in ("lifetime_inflow", "lifetime_outflow"):
        kw[x] = n(x, none=True, series_=False, sort="I")
    for x in ("constant_soc_until", "fraction_saturation_charging"):
        kw[x] = n(x, none=True, series_=False)
    kw["balanced"] = tm.var("balanced", "B")
    kw["custom_properties"] = custom(it, "custom_properties")
    return kw


def a_end(x, side):
    def args(w, it):
        return {"label": "e", x: choice_none(x, edges(it, x, side, tm.var("self", "N"))),
                "custom_properties": custom(it, "custom_properties")}
    return args


def a_offset(w, it):
    me = tm.var("self", "N")
    ins, outs = some(it, "inputs", "in", me), some(it, "outputs", "out", me)
    kw = {"label": "o", "inputs": ins, "outputs": outs,
          "custom_properties": custom(it, "custom_properties")}
    nodes = [e.key.key[0] for e in ins.entries + outs.entries]
    for i, x in enumerate(nodes):      # no bus at both sides
        for y in nodes[:i]:
            it.theory.facts.append(tm.not_(tm.eq(x, y)))
    for n in ("conversion_factors", "normed_offsets"):
        x = tm.fresh("cf", "N")
        kw[n] = choice_none(n, it.mkdict([
            Entry("set", (x,), tm.app("given:" + n, (x,), "B"), Obj("Node", (x,)),
                  inp.keyed(it, n, (x,)))]))
    return kw


def a_chp(w, it):
    me = tm.var("self", "N")
    kw = {"label": "c", "custom_properties": custom(it, "custom_properties"),
          "beta": inp.numeric(it, "beta"), "back_pressure": tm.var("back_pressure", "B")}
    for n, side in (("fuel_input", "in"), ("electrical_output", "out"), ("heat_output", "out")):
        x = tm.var(n, "N")
        bus = Obj("Node", (x,))
        if n == "fuel_input":      # a bus with other consumers
            bus = Inst(it.models["oemof.network"].attrs["Node"])
            bus.slots["outputs"] = edges(it, "others", "out", x)
        kw[n] = it.mkdict([Entry("set", (), TRUE, bus,
                                 Obj("Flow", (x, me) if side == "in" else (me, x)))])
    it.theory.facts.append(tm.not_(tm.eq(tm.var("heat_output", "N"), tm.var("electrical_output", "N"))))
    return kw


CAES = ["%s_%s" % (p, q) for p, names in (
    ("cav", "e_in_b e_in_m e_out_b e_out_m eta_temp level_max"),
    ("cmp", "p_max_b p_max_m p_min q_out_b q_out_m q_tes_share"),
    ("exp", "p_max_b p_max_m p_min q_in_b q_in_m q_tes_share"),
    ("tes", "eta_temp level_max")) for q in names.split()]


def a_caes(w, it):
    me = tm.var("self", "N")
    kw = {"label": "c", "custom_properties": custom(it, "custom_properties")}
    xs = []
    for n, side in (("electrical_input", "in"), ("fuel_input", "in"), ("electrical_output", "out")):
        x = tm.var(n, "N")
        xs.append(x)
        kw[n] = it.mkdict([Entry("set", (), TRUE, Obj("Node", (x,)),
                                 Obj("Flow", (x, me) if side == "in" else (me, x)))])
    it.theory.facts.append(tm.not_(tm.eq(xs[0], xs[1])))
    kw["params"] = it.mkdict([Entry("set", (), TRUE, p, Opaque(p)) for p in CAES])
    return kw


def a_piecewise(w, it):
    me = tm.var("self", "N")
    kw = {"label": "p", "custom_properties": custom(it, "custom_properties"),
          "pw_repn": Opaque("repn"), "conversion_function": Opaque("function"),
          "in_breakpoints": inp.series(it, "breakpoint")}
    for n, side in (("inputs", "in"), ("outputs", "out")):
        xs = [tm.var("%s%d" % (n, i), "N") for i in range(2)]
        it.theory.facts.append(tm.not_(tm.eq(*xs)))
        kw[n] = it.mkdict([
            Entry("set", (), TRUE if i == 0 else tm.var(n + ":second", "B"), Obj("Node", (x,)),
                  Obj("Flow", (x, me) if side == "in" else (me, x))) for i, x in enumerate(xs)])
    it.schema["Flow"].fields["nominal_capacity"] = (
        "val", lambda i, o: tm.app("nominal_capacity", o.key, "R"))
    return kw


EX = CO + "experimental."
constructor("GenericCAES.init", ["C24", "C20", "C21"], EX + "_generic_caes", "GenericCAES",
            "generic_caes", a_caes)
constructor("PiecewiseLinearConverter.init", ["C24", "C20", "C21"],
            EX + "_piecewise_linear_converter", "PiecewiseLinearConverter",
            "piecewise_converter", a_piecewise)
constructor("Source.init", ["C21", "C01"], CO + "_source", "Source", "source", a_end("outputs", "out"))
constructor("Sink.init", ["C21", "C01"], CO + "_sink", "Sink", "sink", a_end("inputs", "in"))
constructor("OffsetConverter.init", ["C20", "C13", "C21"], CO + "_offset_converter", "OffsetConverter",
            "offset_converter", a_offset)
constructor("GenericCHP.init", ["C20", "C14", "C21"], CO + "_generic_chp", "GenericCHP", "generic_chp", a_chp)
constructor("Link.init", ["C20", "C13", "C21"], CO + "_link", "Link", "link", a_link)
constructor("ExtractionTurbineCHP.init", ["C20", "C14", "C21"], CO + "_extraction_turbine_chp",
            "ExtractionTurbineCHP", "turbine", a_turbine)
constructor("Bus.init", ["C01", "C20", "C21"], "oemof.solph.buses._bus", "Bus", "bus", a_bus)
constructor("GenericStorage.init", ["C20", "C15", "C16", "C06", "C21"], CO + "_generic_storage",
            "GenericStorage", "generic_storage", a_storage)
constructor("Converter.init", ["C20", "C13", "C21"], CO + "_converter", "Converter", "converter", a_converter)


def slope_unit(side):
    fn = "slope_offset_from_nonconvex_" + side

    def setup(w, run):
        it = w.it
        v = [tm.var(x, "R") for x in ("max_load", "min_load", "eta_at_max", "eta_at_min")]
        f = it.load(CO + "_offset_converter").attrs[fn]
        for x in (tm.sub(v[0], v[1]), v[2], v[3]):
            it.theory.facts.append(tm.not_(tm.eq(x, tm.ZERO)))
        return lambda it: it.call(f, list(v), {}), lambda r: [r] + v
    UNITS[fn] = Unit(fn, ["C13"], setup, "objects.py", "slope_offset_" + side, lambda o: "C13",
                     [CO + "_offset_converter." + fn], callees={})


slope_unit("input")
slope_unit("output")


def s_coefficients(w, run):
    """the deprecated pair (offset, slope): in = slope * out + offset"""
    it = w.it
    it.bounds = True
    me = tm.var("self", "N")
    node = it.load(CO + "_offset_converter").attrs["OffsetConverter"]
    self = Inst(node)
    ins, outs = some(it, "inputs", "in", me, 1), some(it, "outputs", "out", me, 1)
    for x in (ins, outs):
        for e in x.entries:
            it.theory.facts.append(e.guard)
    self.slots["inputs"], self.slots["outputs"] = ins, outs
    c = [inp.numeric(it, n) for n in ("offset", "slope")]
    flow = Inst(it.load("oemof.solph.flows._flow").attrs["Flow"])
    lim = [inp.numeric(it, n) for n in ("minimum", "maximum")]
    seq = it.load("oemof.solph._plumbing").attrs["sequence"]
    for n, v in zip(("minimum", "maximum"), lim):
        flow.slots[n] = it.call(seq, [v], {})
    outs.entries[0].value = flow

    def ax(k):
        lo, hi, off, slope = [it.term(element(it, x, k)) for x in (*lim, *c)]
        return tm.and_(*[tm.not_(tm.eq(x, tm.ZERO)) for x in (
            lo, hi, slope, tm.sub(hi, lo), tm.sub(hi, off), tm.sub(lo, off))])
    it.theory.facts.append(ax(tm.ZERO))
    for n in ("minimum", "maximum", "offset", "slope"):
        it.theory.axiom(n, ax)
    def go(it):
        f = it.getattr_(self, "normed_offset_and_conversion_factors_from_coefficients")
        return it.call(f, [tuple(c)], {})
    return go, lambda r: [r, c[0], c[1], ins, outs]


UNITS["OffsetConverter.coefficients"] = Unit(
    "OffsetConverter.coefficients", ["C13"], s_coefficients, "objects.py", "old_coefficients",
    lambda o: "C13", [CO + "_offset_converter.OffsetConverter."
                      "normed_offset_and_conversion_factors_from_coefficients",
                      CO + "_offset_converter.slope_offset_from_nonconvex_output"], callees={})


def s_alphas(w, run):
    """the coefficients of the fuel, of four series"""
    it = w.it
    it.bounds = True
    self = Inst(it.load(CO + "_generic_chp").attrs["GenericCHP"])
    names = ("P_min_woDH", "Eta_el_min_woDH", "P_max_woDH", "Eta_el_max_woDH")
    xs = [inp.series(it, n) for n in names]
    flow = Inst(it.load("oemof.solph.flows._flow").attrs["Flow"])
    flow.slots["custom_properties"] = it.mkdict(
        [Entry("set", (), TRUE, n, x) for n, x in zip(names, xs)])
    self.slots["_alphas"] = None
    self.slots["electrical_output"] = it.mkdict(
        [Entry("set", (), TRUE, Obj("Node", (tm.var("bus", "N"),)), flow)])

    def ax(k):
        return tm.and_(tm.lt(tm.ZERO, xs[1].at(k)), tm.lt(tm.ZERO, xs[3].at(k)),
                       tm.lt(xs[0].at(k), xs[2].at(k)))
    for n in names:
        it.theory.axiom(n, ax)

    def go(it):
        it.getattr_(self, "alphas")
        return it.getattr_(self, "alphas")
    return go, lambda r: [r] + xs


UNITS["GenericCHP.alphas"] = Unit(
    "GenericCHP.alphas", ["C14"], s_alphas, "objects.py", "alphas", lambda o: "C14",
    [CO + "_generic_chp.GenericCHP." + x for x in ("_calculate_alphas", "alphas")], callees={})


# ------------------------------------------------------------------ groups
GROUPS = "oemof.solph._groupings"


def s_groupings(w, run):
    """an arbitrary flow between two nodes, and the groupings of the flows"""
    it = w.it
    i, o = tm.var("i", "N"), tm.var("o", "N")
    edge = Inst(it.models["oemof.network"].attrs["Edge"])
    f = inp.choice("flow", flow=Obj("Flow", (i, o)), edge=edge)
    triple = (Obj("Node", (i,)), Obj("Node", (o,)), f)

    def go(it):
        out = []
        seq = it.lift_iter(it.load(GROUPS).attrs["GROUPINGS"], None)
        if not seq.concrete():
            it.unsupported("groupings")
        for g in seq.values():
            cls = getattr(g, "cls", None)
            if getattr(cls, "name", None) == "FlowsWithNodes":
                flt = it.getattr_(g, "filter")
                ok = True if flt is None else it.pybool(it.truth(it.call(flt, [triple], {})))
                out.append((it.getattr_(g, "constant_key"), ok))
            elif isinstance(g, Inst):
                it.unsupported("grouping %r" % (g,))
        return tuple(out)
    return go, lambda r: [r, f]


UNITS["GROUPINGS"] = Unit("GROUPINGS", ["C21"], s_groupings, "groupings.py", "flow_groupings",
                          lambda o: "C21", [GROUPS + "." + x for x in (
                              "_investment_grouping", "_nonconvex_grouping",
                              "_invest_non_convex_grouping")], callees={})


def s_node_grouping(w, run):
    """a node of its own block, one that has none, something else"""
    it = w.it
    other = Inst(it.models["oemof.network"].attrs["Node"])
    nodes = {}
    for n, mod, cls in (("converter", CO + "_converter", "Converter"), ("sink", CO + "_sink", "Sink"),
                        ("bus", "oemof.solph.buses._bus", "Bus")):
        nodes[n] = it.instantiate(it.load(mod).attrs[cls], [], {
            "label": n, **({"inputs": it.mkdict([])} if n == "sink" else {}),
            **({"balanced": tm.var("balanced", "B")} if n == "bus" else {})})
    n = inp.choice("node", other=other, **nodes)

    def go(it):
        seq = it.lift_iter(it.load(GROUPS).attrs["GROUPINGS"], None)
        if not seq.concrete():
            it.unsupported("groupings")
        return tuple(it.call(g, [n], {}) for g in seq.values() if not isinstance(g, Inst))
    return go, lambda r: [r, n]


UNITS["constraint_grouping"] = Unit("constraint_grouping", ["C21"], s_node_grouping, "groupings.py",
                                    "node_grouping", lambda o: "C21",
                                    [GROUPS + ".constraint_grouping"], callees={})


# ------------------------------------------------------------------ sequences
def plumbing_unit(uid, fn, functions, setup):
    def f(w, run):
        it = w.it
        it.naming = it.check_div = True
        return setup(it, it.load(PLUMBING).attrs)
    UNITS[uid] = Unit(uid, ["C20"], f, "sequences.py", fn, lambda o: "C20",
                      [PLUMBING + "." + x for x in functions], callees={})


def size_of(it, name):
    """no length, or a positive one"""
    n = tm.var(name, "I")
    it.theory.facts.append(tm.le(tm.ONE, n))
    return inp.choice(name, none=None, number=n)


def step_of(it, *series):
    """an arbitrary step of the given series"""
    t = tm.var("t", "I")
    it.theory.facts.append(tm.le(tm.ZERO, t))
    for s in series:
        it.theory.facts.append(tm.lt(t, s.n))
    return t


def s_sequence(it, mod):
    s = inp.series(it, "x[]")
    x = inp.choice("x", none=None, series=s, array=inp.NdSeq(s), number=tm.var("x", "R"))
    n, t = size_of(it, "length"), step_of(it, s)
    return (lambda it: it.call(mod["sequence"], [x], {"length": n}),
            lambda r: [r, x, t, n])


def fake(it, mod):
    v, n = tm.var("v", "R"), size_of(it, "length")
    return v, n, lambda it: it.call(mod["_FakeSequence"], [v, n], {})


def s_fake(it, mod):
    v, n, mk = fake(it, mod)
    return mk, lambda r: [r, v, n, step_of(it)]


def s_items(it, mod):
    """the items of a constant series of known length, one after the other"""
    v, n = tm.var("v", "R"), tm.var("length", "I")
    it.theory.facts.append(tm.le(tm.ONE, n))
    return (lambda it: it.iterate(it.call(mod["_FakeSequence"], [v, n], {})),
            lambda r: [r, it.length(r), v, n])


def s_array(it, mod):
    v, n, mk = fake(it, mod)
    k = size_of(it, "wanted")
    return (lambda it: it.call(it.getattr_(mk(it), "to_numpy"), [], {"length": k}),
            lambda r: [r, v, n, k, step_of(it)])


def s_scaled(op, swap=False, array=False):
    def setup(it, mod):
        v, n, mk = fake(it, mod)
        k = tm.var("factor", "R") if not array else inp.NdSeq(inp.series(it, "factor[]"))
        t = step_of(it, *([k] if array else []))

        def go(it):
            a, b = mk(it), k
            if swap:
                a, b = b, a
            return it.binop(op, a, b, None)
        return go, lambda r: [r, v, k, n, t]
    return setup


def s_valid(it, mod):
    s = inp.series(it, "x[]")
    n = tm.var("steps", "I")
    v, k = tm.var("v", "R"), inp.choice("known", none=None, number=n)
    it.theory.facts.append(tm.le(tm.ONE, n))
    f = it.call(mod["_FakeSequence"], [v, k], {})
    x = inp.choice("x", none=None, array=inp.NdSeq(s), constant=f)
    size = U([(tm.var("x:is_array", "B"), s.n), (tm.not_(tm.var("x:is_array", "B")), k)])
    return (lambda it: it.call(mod["valid_sequence"], [x, n], {}),
            lambda r: [r, x, size, n])


plumbing_unit("sequence", "sequence", ["sequence"], s_sequence)
plumbing_unit("FakeSequence", "constant", ["_FakeSequence"], s_fake)
plumbing_unit("FakeSequence.iter", "items", ["_FakeSequence.__iter__"], s_items)
plumbing_unit("FakeSequence.to_numpy", "as_array", ["_FakeSequence.to_numpy"], s_array)
plumbing_unit("FakeSequence.mul", "scaled", ["_FakeSequence.__mul__"], s_scaled(ast.Mult()))
plumbing_unit("FakeSequence.rmul", "scaled", ["_FakeSequence.__rmul__"], s_scaled(ast.Mult(), True))
plumbing_unit("FakeSequence.mul.array", "scaled_by_series", ["_FakeSequence.__mul__"],
              s_scaled(ast.Mult(), False, True))
plumbing_unit("FakeSequence.rmul.array", "scaled_by_series", ["_FakeSequence.__rmul__"],
              s_scaled(ast.Mult(), True, True))
plumbing_unit("FakeSequence.div", "divided", ["_FakeSequence.__truediv__"], s_scaled(ast.Div()))
plumbing_unit("valid_sequence", "valid", ["valid_sequence"], s_valid)
