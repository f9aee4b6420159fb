"""Data invariants (preconditions) of the objects the verified functions work
on, written as schemas: which attributes exist, their types, when they are
None.  The constructors' own contracts (units on Flow/Investment/NonConvex/...)
establish them."""

import ast

from . import terms as tm
from .interp import (Builtin, Env, Fam, Inst, MISSING, ModuleVal, Obj, SomeClass, SDict, Seq,
                     SymSeq, U, Entry, Unsupported, ClassVal, ExcVal, subst_value)
from .libmodel import PVar, DOMAINS, to_key
from .terms import FALSE, TRUE, T

NT = tm.var("NT", "I")
NP = tm.var("NP", "I")
SINGLE = tm.var("single", "B")
END = tm.var("END", "I")
TSAM = tm.var("TSAM", "B")


def node(x):
    return Obj("Node", (x,))


class Schema:
    """kind -> attribute table.  Field specs:
    'R','I','B'  scalar;  ('opt', f) may be None;  'seq' parameter sequence;
    ('obj', Kind) sub-object with the same key;  ('val', fn(it,obj)) computed;
    ('has', f) attribute that may be absent (deprecated custom attributes)"""

    def __init__(self, kind, fields, methods=None, isinst=(), dynamic=None):
        self.kind, self.fields = kind, fields
        self.methods = methods or {}
        self.names = isinst
        self.dynamic = dynamic

    def __call__(self, it, o, name):
        if name in self.methods:
            return self.methods[name](it, o)
        f = self.fields.get(name)
        if f is None:
            if self.dynamic is not None:
                return self.dynamic(it, o, name)
            if name == "__class__":
                return SomeClass("class of a " + self.kind)
            return MISSING
        return self.value(it, o, name, f)

    def value(self, it, o, name, f):
        fn = "%s.%s" % (self.kind, name)
        if isinstance(f, str):
            if f == "seq":
                return SymSeq(fn, o.key)
            if f == "iseq":
                return SymSeq(fn, o.key, "I")
            return tm.app(fn, o.key, f)
        k = f[0]
        if k == "opt":
            n = tm.app(fn + "?None", o.key, "B")
            return U([(n, None), (tm.not_(n), self.value(it, o, name, f[1]))])
        if k == "obj":
            return Obj(f[1], o.key)
        if k == "val":
            return f[1](it, o)
        if k == "const":
            return f[1]
        if k == "has":
            n = tm.app("has:" + fn, o.key, "B")
            return U([(n, self.value(it, o, name, f[1])), (tm.not_(n), MISSING)])
        raise Unsupported("field spec %r" % (f,))

    def isinstance_(self, it, o, c):
        nm = (getattr(c, "name", None) or str(c)).split(".")[-1]
        return tm.boolc(nm == self.kind or nm in self.names)


class NodeFlows:
    """node.inputs / node.outputs: mapping neighbour -> Flow"""

    def __init__(self, n, direction):
        self.n, self.dir = n, direction

    def pred(self, x):
        return tm.app("isflow", (x, self.n) if self.dir == "in" else (self.n, x), "B")

    def flow(self, x):
        return Obj("Flow", (x, self.n) if self.dir == "in" else (self.n, x))

    def iterate(self, it):
        x = tm.fresh("nb", "N")
        s = Seq([Fam((x,), self.pred(x), node(x))])
        s.meta["first"] = node(self.first())
        s.meta["len"] = tm.app("n%s" % self.dir, (self.n,), "I")
        return s

    def first(self):
        return tm.app("first%s" % self.dir, (self.n,), "N")

    def getitem(self, it, k):
        if isinstance(k, Obj) and k.kind == "Node":
            it.raise_if(tm.not_(self.pred(k.key[0])), ExcVal("KeyError"))
            return self.flow(k.key[0])
        it.unsupported("inputs[%r]" % (k,))

    def length(self, it):
        return tm.app("n%s" % self.dir, (self.n,), "I")

    def truth(self, it):
        return tm.lt(tm.ZERO, self.length(it))

    def attr(self, it, name):
        if name == "keys":
            return Builtin("keys", lambda i, a, k: self.iterate(i))
        if name == "values":
            def vals(i, a, k):
                x = tm.fresh("nb", "N")
                s = Seq([Fam((x,), self.pred(x), self.flow(x))])
                s.meta["first"] = self.flow(self.first())
                s.meta["len"] = self.length(i)
                return s
            return Builtin("values", vals)
        if name == "items":
            def items(i, a, k):
                x = tm.fresh("nb", "N")
                s = Seq([Fam((x,), self.pred(x), (node(x), self.flow(x)))])
                s.meta["first"] = (node(self.first()), self.flow(self.first()))
                return s
            return Builtin("items", items)
        if name == "get":
            def get(i, a, k):
                return U([(self.pred(a[0].key[0]), self.flow(a[0].key[0])),
                          (tm.not_(self.pred(a[0].key[0])), a[1] if len(a) > 1 else None)])
            return Builtin("get", get)
        if name == "data":
            return self
        return MISSING

    def subst(self, m):
        return NodeFlows(tm.subst(self.n, m), self.dir)


class KeyMap:
    """symbolic mapping with a presence predicate: key tuple -> value"""

    def __init__(self, owner, sorts, pred, val, mkkey):
        self.owner, self.sorts, self.pred, self.val, self.mkkey = owner, sorts, pred, val, mkkey

    def iterate(self, it):
        xs = [tm.fresh("k", s) for s in self.sorts]
        return Seq([Fam(tuple(xs), self.pred(*xs), self.mkkey(*xs))])

    def getitem(self, it, k):
        ks = to_key(it, k)
        if len(ks) != len(self.sorts):
            it.raise_(ExcVal("KeyError"))
        it.raise_if(tm.not_(self.pred(*ks)), ExcVal("KeyError"))
        return self.val(*ks)

    def truth(self, it):
        return it.nonempty(self.iterate(it))

    def attr(self, it, name):
        if name == "keys":
            return Builtin("keys", lambda i, a, k: self.iterate(i))
        if name in ("items", "values"):
            def items(i, a, k):
                xs = [tm.fresh("k", s) for s in self.sorts]
                v = self.val(*xs)
                return Seq([Fam(tuple(xs), self.pred(*xs),
                                (self.mkkey(*xs), v) if name == "items" else v)])
            return Builtin(name, items)
        if name == "get":
            def get(i, a, k):
                ks = to_key(i, a[0])
                p = self.pred(*ks)
                return i.merge(p, self.val(*ks), a[1] if len(a) > 1 else None)
            return Builtin("get", get)
        return MISSING

    def length(self, it):
        it.unsupported("len of a symbolic mapping")

    def subst(self, m):
        def under(f):
            def g(*x):
                # m speaks of the mapping, not of the key
                ks = [tm.fresh("k", s) for s in self.sorts]
                return subst_value(subst_value(f(*ks), m), dict(zip(ks, x)))
            return g
        return KeyMap(self.owner, self.sorts, under(self.pred), under(self.val), self.mkkey)


def custom_props(o):
    """custom_properties: None or a mapping from (literal) names to numbers"""
    return U([
        (tm.app("%s.cp?None" % o.kind, o.key, "B"), None),
        (tm.not_(tm.app("%s.cp?None" % o.kind, o.key, "B")), PropMap(o)),
    ])


class Concrete:
    """mapping with a fixed list of (node, value) entries; the nodes are
    pairwise different"""

    def __init__(self, ents):
        self.ents = ents

    def iterate(self, it):
        return Seq([Fam((), TRUE, node(k)) for k, _ in self.ents])

    def getitem(self, it, k):
        if not (isinstance(k, Obj) and k.kind == "Node"):
            it.unsupported("key %r" % (k,))
        x = k.key[0]
        cs = [(tm.eq(x, a), v) for a, v in self.ents]
        none = tm.and_(*[tm.not_(c) for c, _ in cs])
        it.raise_if(none, ExcVal("KeyError"))
        return it.simp(U(cs)) if len(cs) > 1 else cs[0][1]

    def length(self, it):
        return len(self.ents)

    def truth(self, it):
        return tm.boolc(bool(self.ents))

    def attr(self, it, name):
        if name == "keys":
            return Builtin("keys", lambda i, a, k: self.iterate(i))
        if name == "values":
            return Builtin("values", lambda i, a, k: Seq(
                [Fam((), TRUE, v) for _, v in self.ents]))
        if name == "items":
            return Builtin("items", lambda i, a, k: Seq(
                [Fam((), TRUE, (node(x), v)) for x, v in self.ents]))
        return MISSING

    def subst(self, m):
        return Concrete([(tm.subst(k, m), subst_value(v, m)) for k, v in self.ents])


class PropMap:
    def __init__(self, o):
        self.o = o

    def has(self, nm):
        return tm.app("%s.cp.has[%s]" % (self.o.kind, nm), self.o.key, "B")

    def val(self, nm):
        if nm in SEQ_PROPS:
            return SymSeqLen("%s.cp[%s]" % (self.o.kind, nm), NT, self.o.key)
        if nm in PARAM_PROPS and self.o.kind == "Flow":
            return param("%s.cp[%s]" % (self.o.kind, nm), NT, self.o.key)
        return tm.app("%s.cp[%s]" % (self.o.kind, nm), self.o.key, "R")

    def getitem(self, it, nm):
        if not isinstance(nm, str):
            it.unsupported("custom property with a symbolic name")
        it.raise_if(tm.not_(self.has(nm)), ExcVal("KeyError"))
        return self.val(nm)

    def contains_(self, it, nm):
        return self.has(nm)

    def truth(self, it):
        return tm.app("%s.cp.nonempty" % self.o.kind, self.o.key, "B")

    def iterate(self, it):
        # membership only
        return _PropKeys(self)

    def attr(self, it, name):
        if name == "keys":
            return Builtin("keys", lambda i, a, k: _PropKeys(self))
        if name == "get":
            def get(i, a, k):
                nm = a[0]
                return i.merge(self.has(nm), self.val(nm), a[1] if len(a) > 1 else None)
            return Builtin("get", get)
        return MISSING

    def subst(self, m):
        return PropMap(subst_value(self.o, m))


SEQ_PROPS = {"H_L_FG_share_max", "H_L_FG_share_min", "P_max_woDH", "P_min_woDH",
             "Eta_el_max_woDH", "Eta_el_min_woDH", "Q_CW_min"}


# any keyword may be chosen by the user; these names stand for all of them
PARAM_PROPS = {"emission_factor", "kw", "kw1", "kw2"}


def param(name, n, key=()):
    """number or series of n numbers"""
    c = tm.app(name + "?scalar", key, "B")
    return U([(c, tm.app(name + "@", key, "R")), (tm.not_(c), SymSeqLen(name, n, key))])


class _PropKeys(Seq):
    def __init__(self, pm):
        super().__init__(())
        self.pm = pm

    def contains_(self, it, nm):
        return self.pm.has(nm)


FLOW_FIELDS = {
    "nominal_capacity": ("opt", "R"),
    "investment": ("opt", ("obj", "Investment")),
    "nonconvex": ("opt", ("obj", "NonConvex")),
    "fixed_costs": ("opt", "seq"),
    "variable_costs": ("opt", "seq"),
    "positive_gradient_limit": ("opt", "seq"),
    "negative_gradient_limit": ("opt", "seq"),
    "full_load_time_max": ("opt", "R"),
    "full_load_time_min": ("opt", "R"),
    "integer": "B",
    "lifetime": ("opt", "I"),
    "age": ("opt", "I"),
    "bidirectional": "B",
    "fix": ("opt", "seq"),
    "maximum": "seq",
    "minimum": "seq",
    # oemof.network.Entity.__init__: never None
    "custom_properties": ("val", lambda it, o: PropMap(o)),
    "label": ("val", lambda it, o: tm.app("flowlabel", o.key, "S")),
    "input": ("val", lambda it, o: node(o.key[0])),
    "output": ("val", lambda it, o: node(o.key[1])),
}

INVEST_FIELDS = {
    "maximum": "seq", "minimum": "seq", "ep_costs": "seq",
    "existing": "R", "nonconvex": "B", "offset": "seq",
    "overall_maximum": ("opt", "R"), "overall_minimum": ("opt", "R"),
    "lifetime": ("opt", "I"), "age": "I",
    "fixed_costs": ("opt", "seq"),
    "custom_properties": ("val", lambda it, o: custom_props(o)),
}

NONCONVEX_FIELDS = {
    "initial_status": "I",
    "minimum_uptime": "iseq", "minimum_downtime": "iseq",
    "maximum_startups": ("opt", "R"), "maximum_shutdowns": ("opt", "R"),
    "startup_costs": ("opt", "seq"), "shutdown_costs": ("opt", "seq"),
    "activity_costs": ("opt", "seq"), "inactivity_costs": ("opt", "seq"),
    "negative_gradient_limit": ("opt", "seq"),
    "positive_gradient_limit": ("opt", "seq"),
    "first_flexible_timestep": "I",
    "custom_properties": ("val", lambda it, o: custom_props(o)),
}


def isnone(kind, attr, key):
    return tm.app("%s.%s?None" % (kind, attr), key, "B")


NODE_FIELDS = {
    "inputs": ("val", lambda it, o: NodeFlows(o.key[0], "in")),
    "outputs": ("val", lambda it, o: NodeFlows(o.key[0], "out")),
    "label": ("val", lambda it, o: tm.app("label", o.key, "S")),
    "custom_properties": ("val", lambda it, o: custom_props(o)),
}


class FlowsMap:
    """m.flows / es.flows(): (i, o) -> Flow for every edge"""

    def pred(self, a, b):
        return tm.app("isflow", (a, b), "B")

    def iterate(self, it):
        a, b = tm.fresh("i", "N"), tm.fresh("o", "N")
        return Seq([Fam((a, b), self.pred(a, b), (node(a), node(b)))])

    def getitem(self, it, k):
        ks = to_key(it, k)
        if len(ks) != 2:
            it.raise_(ExcVal("KeyError"))
        it.raise_if(tm.not_(self.pred(*ks)), ExcVal("KeyError"))
        return Obj("Flow", ks)

    def attr(self, it, name):
        if name == "keys":
            return Builtin("keys", lambda i, a, k: self.iterate(i))
        if name in ("items", "values"):
            def f(i, a, k):
                x, y = tm.fresh("i", "N"), tm.fresh("o", "N")
                v = Obj("Flow", (x, y))
                return Seq([Fam((x, y), self.pred(x, y),
                                ((node(x), node(y)), v) if name == "items" else v)])
            return Builtin(name, f)
        if name == "get":
            def get(i, a, k):
                ks = to_key(i, a[0])
                return i.merge(self.pred(*ks), Obj("Flow", ks), a[1] if len(a) > 1 else None)
            return Builtin("get", get)
        return MISSING


def ordered(seq, n, at=None):
    """ordered Pyomo set: positions 1, ..., n and -1, ..., -n"""
    def f(it, k):
        k = it.term(k)
        up = tm.lt(tm.ZERO, k)
        it.raise_if(tm.not_(tm.or_(
            tm.and_(up, tm.le(k, n)),
            tm.and_(tm.lt(k, tm.ZERO), tm.le(tm.neg(n), k)))), ExcVal("IndexError", ("position in a set",)))
        d = it.decide(up)
        if d is None:
            it.unsupported("position in a set: sign unknown")
        k = tm.sub(k, tm.ONE) if d else tm.add(n, k)
        return at(k) if at else k
    seq.meta["pset"] = f
    return seq


class World:
    """model, energy system and index sets in an arbitrary valid state"""

    def __init__(self, it, single=None, tsam=False):
        self.it = it
        th = it.theory
        th.facts += [tm.le(tm.ONE, NT), tm.le(tm.ONE, NP), tm.le(tm.ONE, END),
                     tm.or_(tm.not_(SINGLE), tm.eq(NP, tm.ONE))]
        if single is True:
            th.facts.append(SINGLE)
        if single is False:
            th.facts.append(tm.not_(SINGLE))
        th.axiom("per", lambda t: tm.and_(
            tm.le(tm.ZERO, tm.app("per", (t,), "I")),
            tm.lt(tm.app("per", (t,), "I"), NP)))
        th.axiom("year", lambda p: tm.le(tm.ZERO, tm.app("year", (p,), "I")))
        th.facts.append(tm.eq(tm.app("year", (tm.ZERO,), "I"), tm.ZERO))
        for d in ("in", "out"):
            th.axiom("n" + d, lambda n, d=d: tm.le(tm.ZERO, tm.app("n" + d, (n,), "I")))
            th.axiom("first" + d, lambda n, d=d: tm.implies(
                tm.lt(tm.ZERO, tm.app("n" + d, (n,), "I")),
                tm.app("isflow", (tm.app("first" + d, (n,), "N"), n) if d == "in"
                       else (n, tm.app("first" + d, (n,), "N")), "B")))
        it.schema["Flow"] = Schema("Flow", dict(FLOW_FIELDS))
        it.schema["Investment"] = Schema("Investment", dict(INVEST_FIELDS))
        it.schema["NonConvex"] = Schema("NonConvex", dict(NONCONVEX_FIELDS))
        it.schema["Node"] = Schema("Node", dict(NODE_FIELDS))
        # Flow.__init__ contract
        th.axiom("Flow.investment?None", lambda *k: tm.or_(
            isnone("Flow", "investment", k), isnone("Flow", "nominal_capacity", k)))
        th.axiom("Flow.nominal_capacity?None", lambda *k: tm.or_(
            isnone("Flow", "investment", k), isnone("Flow", "nominal_capacity", k)))
        for a in ("positive_gradient_limit", "negative_gradient_limit"):
            # gradients are relative to a given capacity
            th.axiom("Flow.%s?None" % a, lambda *k, a=a: tm.or_(
                isnone("Flow", a, k), tm.not_(isnone("Flow", "nominal_capacity", k))))
        th.axiom("Flow.fixed_costs?None", lambda *k: tm.or_(
            isnone("Flow", "fixed_costs", k), tm.not_(isnone("Flow", "nominal_capacity", k))))
        # an on/off flow has a capacity (given or to be decided)
        th.axiom("Flow.nonconvex?None", lambda *k: tm.or_(
            isnone("Flow", "nonconvex", k), tm.not_(isnone("Flow", "nominal_capacity", k)),
            tm.not_(isnone("Flow", "investment", k))))
        for a in ("lifetime",):
            th.axiom("Flow." + a, lambda *k, a=a: tm.le(tm.ZERO, tm.app("Flow." + a, k, "I")))
        # InvestmentFlowBlock: "You have to specify a lifetime" (multi-period)
        th.axiom("Investment.lifetime?None", lambda *k: tm.or_(
            SINGLE, tm.not_(isnone("Investment", "lifetime", k))))
        th.axiom("Investment.lifetime", lambda *k: tm.le(tm.ONE, tm.app("Investment.lifetime", k, "I")))
        # NonConvex.__init__
        th.axiom("NonConvex.first_flexible_timestep", lambda *k: tm.le(
            tm.ZERO, tm.app("NonConvex.first_flexible_timestep", k, "I")))
        for a in ("minimum_uptime", "minimum_downtime"):
            th.axiom("NonConvex." + a, lambda *k, a=a: tm.le(
                tm.ZERO, tm.app("NonConvex." + a, k, "I")))
        model_cls = it.load("oemof.solph._models").attrs["Model"]
        m = Inst(model_cls)
        m.is_block = True
        it.model = m
        self.m = m
        s = m.slots
        s["name"] = "Model"
        s["TIMESTEPS"] = ordered(it.mkrange(tm.ZERO, NT), NT)
        s["TIMEPOINTS"] = ordered(it.mkrange(tm.ZERO, tm.add(NT, tm.ONE)), tm.add(NT, tm.ONE))
        s["PERIODS"] = ordered(it.mkrange(tm.ZERO, NP), NP)
        t = tm.fresh("t", "I")
        s["TIMEINDEX"] = Seq([Fam((t,), tm.and_(tm.le(tm.ZERO, t), tm.lt(t, NT)),
                                  (tm.app("per", (t,), "I"), t))])
        ordered(s["TIMEINDEX"], NT, lambda k: (tm.app("per", (k,), "I"), k))
        s["TIMESTEPS_IN_PERIOD"] = TIP()
        a, b = tm.fresh("i", "N"), tm.fresh("o", "N")
        fl = tm.app("isflow", (a, b), "B")
        bid = tm.app("Flow.bidirectional", (a, b), "B")
        s["FLOWS"] = Seq([Fam((a, b), fl, (node(a), node(b)))])
        s["BIDIRECTIONAL_FLOWS"] = Seq([Fam((a, b), tm.and_(fl, bid), (node(a), node(b)))])
        s["UNIDIRECTIONAL_FLOWS"] = Seq([Fam((a, b), tm.and_(fl, tm.not_(bid)), (node(a), node(b)))])
        n = tm.fresh("n", "N")
        s["NODES"] = Seq([Fam((n,), tm.app("isnode", (n,), "B"), node(n))])
        s["nodes"] = s["NODES"]
        s["flows"] = FlowsMap()
        s["timeincrement"] = SymSeq("dt", ())
        s["objective_weighting"] = SymSeq("ow", ())
        s["tsam_weighting"] = SymSeq("tw", ())
        s["discount_rate"] = tm.var("dr", "R")
        s["TSAM_MODE"] = tsam if isinstance(tsam, bool) else TSAM
        s["previous_timesteps"] = PrevMap()
        es = Obj("EnergySystem", ())
        self.es = es
        it.schema["EnergySystem"] = Schema("EnergySystem", {
            "periods": ("val", lambda i, o: U([(SINGLE, None), (tm.not_(SINGLE), Periods())])),
            "periods_years": ("val", lambda i, o: YearSeq()),
            "end_year_of_optimization": ("val", lambda i, o: END),
            "periods_matrix": ("val", lambda i, o: PMatrix()),
            "timeincrement": ("val", lambda i, o: SymSeqLen("dt", NT)),
            "tsa_parameters": ("const", None),
            "use_remaining_value": "B",
            "nodes": ("val", lambda i, o: s["NODES"]),
            "timeindex": ("val", lambda i, o: SymSeqLen("timeindex", tm.add(NT, tm.ONE))),
        }, methods={"flows": lambda i, o: Builtin("flows", lambda ii, a, k: FlowsMap())})
        s["es"] = es
        fv = PVar([s["FLOWS"], s["TIMESTEPS"]], DOMAINS["Reals"], None, None)
        fv.name = "flow"
        it.var_names.add("flow")
        s["flow"] = fv

    def block(self, module, cls, name=None):
        c = self.it.load(module).attrs[cls]
        b = Inst(c)
        b.is_block = True
        b.parent = self.m
        b.slots["name"] = name or cls
        self.m.slots[name or cls] = b
        return b

    def flow_group(self, gname, facts=lambda i, o: ()):
        """arbitrary finite set of edges, as (source, target, flow) triples"""
        i, o = tm.fresh("i", "N"), tm.fresh("o", "N")

        def ax(a, b):
            return tm.implies(tm.app(gname, (a, b), "B"),
                              tm.and_(tm.app("isflow", (a, b), "B"), *facts(a, b)))
        self.it.theory.axiom(gname, ax)
        return Seq([Fam((i, o), tm.app(gname, (i, o), "B"),
                        (node(i), node(o), Obj("Flow", (i, o))))])

    def all_flows(self, cond=None):
        """every edge of the energy system (that satisfies cond)"""
        i, o = tm.fresh("i", "N"), tm.fresh("o", "N")
        g = tm.app("isflow", (i, o), "B")
        if cond is not None:
            g = tm.and_(g, cond(i, o))
        return Seq([Fam((i, o), g, (node(i), node(o), Obj("Flow", (i, o))))])

    def node_group(self, gname, kind=None, facts=lambda n: ()):
        n = tm.fresh("n", "N")

        def ax(a):
            return tm.implies(tm.app(gname, (a,), "B"), tm.and_(*facts(a)))
        self.it.theory.axiom(gname, ax)
        return Seq([Fam((n,), tm.app(gname, (n,), "B"), node(n))])


class TIP:
    def getitem(self, it, p):
        p = it.term(p)
        t = tm.fresh("t", "I")
        g = tm.and_(tm.le(tm.ZERO, t), tm.lt(t, NT), tm.eq(tm.app("per", (t,), "I"), p))
        s = Seq([Fam((t,), g, t)])
        s.meta["len"] = tm.app("tip_len", (p,), "I")

        def at(i, ix):
            if isinstance(ix, int) and ix == 0:
                return tm.app("tip_first", (p,), "I")
            if isinstance(ix, int) and ix == -1:
                return tm.app("tip_last", (p,), "I")
            i.unsupported("TIMESTEPS_IN_PERIOD index")
        s.meta["at"] = at
        return s

    def iterate(self, it):
        return it.mkrange(tm.ZERO, NP)

    def attr(self, it, name):
        if name == "items":
            def f(i, a, k):
                p = tm.fresh("p", "I")
                return Seq([Fam((p,), tm.and_(tm.le(tm.ZERO, p), tm.lt(p, NP)),
                                (p, self.getitem(i, p)))])
            return Builtin("items", f)
        if name == "keys":
            return Builtin("keys", lambda i, a, k: self.iterate(i))
        return MISSING


class PrevMap:
    def getitem(self, it, t):
        t = it.term(t)
        return tm.ite(tm.eq(t, tm.ZERO), tm.sub(NT, tm.ONE), tm.sub(t, tm.ONE))


class SymSeqLen(SymSeq):
    """parameter sequence with a known length; iterable"""
    __slots__ = ("n",)

    def __init__(self, name, n, key=(), sort="R"):
        super().__init__(name, key, sort)
        self.n = n

    def length(self, it):
        return self.n

    def iterate(self, it):
        k = tm.fresh("k", "I")
        return Seq([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, self.n)), self.at(k))])


class SymSeqConst(SymSeq):
    """parameter given as a scalar"""
    __slots__ = ()

    def at(self, ix):
        return tm.app(self.name + "@", self.key, self.sort)


class YearSeq:
    """es.periods_years: years from the start of the first to each period"""

    def getitem(self, it, p):
        p = it.term(p)
        if tm.const_val(p) == -1:
            p = tm.sub(NP, tm.ONE)
        return tm.app("year", (p,), "I")

    def iterate(self, it):
        k = tm.fresh("k", "I")
        return Seq([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, NP)),
                        tm.app("year", (k,), "I"))])

    def length(self, it):
        return NP

    def attr(self, it, name):
        return MISSING


class Periods:
    def length(self, it):
        return NP

    def iterate(self, it):
        k = tm.fresh("k", "I")
        return Seq([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, NP)), PeriodIdx(k))])

    def getitem(self, it, p):
        return PeriodIdx(it.term(p))

    def truth(self, it):
        return TRUE

    def attr(self, it, name):
        return MISSING


class PeriodIdx:
    def __init__(self, p):
        self.p = p

    def length(self, it):
        return tm.app("tip_len", (self.p,), "I")

    def subst(self, m):
        return PeriodIdx(tm.subst(self.p, m))


def between(r, c):
    return tm.sub(tm.app("year", (c,), "I"), tm.app("year", (r,), "I"))


class PMatrix:
    """es.periods_matrix[row, column]: years between the starts"""

    def compare(self, it, op, a, b):
        if a is self and isinstance(op, ast.GtE):
            return Reached(it.term(b))
        it.unsupported("comparison of the period matrix")

    def getitem(self, it, ix):
        if isinstance(ix, tuple):
            r, c = ix
            if isinstance(r, tuple) or isinstance(c, tuple):
                if isinstance(c, tuple) and c[0] == "slice" and not isinstance(r, tuple):
                    return MRow(it.term(r))
                if isinstance(r, tuple) and r[0] == "slice":
                    return MCol(it.term(c))
                it.unsupported("periods_matrix slice")
            return between(it.term(r), it.term(c))
        return MRow(it.term(ix))


class MRow:
    def __init__(self, r):
        self.r = r

    def getitem(self, it, c):
        return between(self.r, it.term(c))


class MCol:
    def __init__(self, c):
        self.c = c

    def getitem(self, it, r):
        return between(it.term(r), self.c)


class Reached:
    """periods_matrix >= years"""

    def __init__(self, years):
        self.years = years


class Ages:
    """np.where(periods_matrix >= years, periods_matrix, np.inf)"""

    def __init__(self, years):
        self.years = years

    def argmin(self, it):
        return SymSeqLen("retire_at", NP, (self.years,), "I")


def ageing(th):
    """assumed: np.argmin along the rows, the first of the smallest values;
    periods are given in ascending order"""
    at = lambda years, q: tm.app("retire_at", (years, q), "I")
    ok = lambda years, q, c: tm.le(years, between(q, c))
    inside = lambda c: tm.and_(tm.le(tm.ZERO, c), tm.lt(c, NP))
    th.axiom("retire_at", lambda y, q: tm.implies(inside(q), tm.and_(
        inside(at(y, q)), tm.or_(ok(y, q, at(y, q)), tm.eq(at(y, q), tm.ZERO)))))

    def smallest(a, c):
        (y, q), (c,) = a, c
        d = at(y, q)
        return tm.implies(tm.and_(inside(q), inside(c), ok(y, q, c)), tm.and_(
            ok(y, q, d), tm.or_(tm.lt(year(d), year(c)),
                                tm.and_(tm.eq(year(d), year(c)), tm.le(d, c)))))
    year = lambda c: tm.app("year", (c,), "I")
    th.pair("retire_at", "year", smallest)
    th.pair("year", "year", lambda a, b: tm.TRUE if a[0] is b[0] else tm.and_(*[
        tm.implies(tm.and_(inside(p), inside(q), tm.le(p, q)), tm.le(year(p), year(q)))
        for p, q in ((a[0], b[0]), (b[0], a[0]))]))
    # (only there to mention the period in which q's capacity is retired)
    th.pair("Investment.lifetime", "year", lambda a, b: tm.TRUE if b[0].op != "v" else tm.or_(
        tm.not_(inside(b[0])), inside(at(tm.app("Investment.lifetime", a, "I"), b[0]))))
    # the last of the periods q with retire_at(q) = p, if there is one
    last = lambda y, p: tm.app("last_built", (y, p), "I")
    th.pair("retire_at", "last_built", lambda a, b: tm.TRUE if a[0] is not b[0] else tm.implies(
        tm.and_(inside(a[1]), tm.eq(at(*a), b[1])), tm.and_(
            inside(last(*b)), tm.le(a[1], last(*b)), tm.eq(at(a[0], last(*b)), b[1]))))
    return last
