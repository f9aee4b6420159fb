"""Units: results.  Assumed of pandas: a table has columns with one value for
each row, arithmetic of a column works by row, and assigning a column adds it
(class Table).  Assumed of Pyomo: the value of a variable is a number."""

from . import terms as tm
from .data import NODE_FIELDS, NP, NT, SINGLE, Schema, node
from .interp import (Builtin, Cut, Entry, ExcVal, Fam, Inst, LamSeq, MISSING, Obj, Opaque, SDict, Seq,
                     SymSeq, T, U, subst_value)
from .libmodel import to_key
from .terms import FALSE, TRUE
from .units import UNITS, Unit

RESULTS = "oemof.solph._results"
INDEXED = (SymSeq, LamSeq)


class Values:
    """column of a table: row -> value"""

    def __init__(self, rows, at):
        self.rows, self.at = rows, at

    def subst(self, m):
        return Values(tm.subst(self.rows, m), lambda t: shifted(self.at, t, m))

    def getitem(self, it, k):
        k = it.term(k)
        it.raise_if(tm.not_(tm.and_(tm.le(tm.ZERO, k), tm.lt(k, self.rows))), ExcVal("KeyError"))
        return self.at(k)

    def length(self, it):
        return self.rows

    def truth(self, it):
        it.raise_(ExcVal("ValueError"))

    def binop(self, it, op, a, b):
        def at(x):
            if isinstance(x, Values):
                return x.at
            if isinstance(x, (T, int, float)):
                return lambda t: x
            if isinstance(x, Obj) or isinstance(x, (str, bool)):
                it.unsupported("arithmetic of a column")
            if isinstance(x, Cut):
                it.raise_if(tm.not_(tm.eq(x.n, self.rows)),
                            ExcVal("ValueError"))
            elif isinstance(x, SymSeq):
                # given sequences have at least one value per step, maybe more
                it.raise_if(tm.app("longer:" + x.name, x.key, "B"), ExcVal("ValueError"))
            return lambda t: it.getitem(x, t)
        fa, fb = at(a), at(b)
        return Values(self.rows, lambda t: it.binop(op, fa(t), fb(t), None))

    def attr(self, it, name):
        if name in ("iloc", "values", "loc", "array"):
            return self
        if name in ("mul", "multiply"):
            import ast
            return Builtin(name, lambda i, a, k: self.binop(i, ast.Mult(), self, a[0]))
        return MISSING


def shifted(f, t, m):
    x = tm.fresh("t", "I")
    return subst_value(subst_value(f(x), m), {x: t})


class Table:
    """DataFrame; families: [(binders, guard, key)], at(*key terms) -> Values.
    New columns are kept in a dictionary."""

    def __init__(self, it, families=(), at=None, data=None, rows=None):
        self.families, self.at, self.rows = list(families), at, rows
        self.data = data if data is not None else it.mkdict([])
        self.fixed = at is not None

    def truth(self, it):
        it.raise_(ExcVal("ValueError"))

    def pred(self, it, key):
        """is it a column?"""
        ks = to_key(it, key)
        out = []
        for bs, g, v in self.families:
            vs = to_key(it, v)
            if len(vs) == len(ks):
                out.append(tm.subst(g, dict(zip(vs, ks))))
        return tm.or_(*out), ks

    def getitem(self, it, k):
        if not self.fixed:
            return it.getitem(self.data, k)

        def f(x):
            c, ks = self.pred(it, x)
            it.raise_if(tm.not_(c), ExcVal("KeyError"))
            return self.at(*ks)
        return it.lift(f, k)

    def setitem(self, it, k, v):
        if self.fixed:
            it.unsupported("change of given results")
        it.setitem(self.data, k, v)

    def length(self, it):
        return self.rows if self.rows is not None else it.unsupported("rows of a table")

    def contains_(self, it, k):
        return self.pred(it, k)[0] if self.fixed else it.contains(self.data, k, None)

    def iterate(self, it):
        if not self.fixed:
            it.unsupported("columns of a new table")
        out = []
        for bs, g, v in self.families:
            m = {b: tm.fresh("c", b.sort) for b in bs}
            out.append(Fam(tuple(m.values()), tm.subst(g, m), subst_value(v, m)))
        return Seq(out)

    def attr(self, it, name):
        if name == "columns":
            return self.iterate(it)
        if name == "index" and self.rows is not None:
            return Values(self.rows, lambda t: t)
        if name == "empty" and self.fixed:
            return tm.not_(it.nonempty(self.iterate(it)))
        if name == "items" and self.fixed:
            def f(i, a, k):
                return Seq([Fam(p.binders, p.guard, (p.value, self.at(*to_key(i, p.value))))
                            for p in self.iterate(i).parts])
            return Builtin(name, f)
        return MISSING


def frame(it, a, k):
    """pd.DataFrame(): nothing; pd.DataFrame([{column: value}]): one row;
    pd.DataFrame({column: value}, index=[0]): one row"""
    if a and isinstance(a[0], Values1) and set(k) == {"index"}:
        return Wide(a[0].v)
    if k:
        it.unsupported("arguments of a table")
    if not a:
        return Table(it)
    x = it.simp(a[0])
    if isinstance(x, SDict):
        return Table(it, data=x)
    if isinstance(x, (list, tuple)):
        x = Seq([Fam((), TRUE, v) for v in x])
    if isinstance(x, Seq) and x.concrete() and len(x.parts) == 1 and isinstance(x.values()[0], SDict):
        d = x.values()[0]
        return Table(it, data=it.mkdict([Entry(e.kind, e.binders, e.guard, e.key,
                                               Values(tm.ONE, lambda t, v=e.value: v)) for e in d.entries]))
    it.unsupported("content of a table")


def cells(it, t, rows):
    """{(nodes, row): value}; rows: range of the rows, or None for a single one"""
    out = []
    for e in t.data.entries:
        if e.kind != "set":
            it.unsupported("table that is not built column by column")
        k = e.key if isinstance(e.key, tuple) else (e.key,)
        v = it.simp(e.value)
        if not isinstance(v, Values):
            it.unsupported("column without rows")
        r = tm.fresh("r", "I")
        g = tm.and_(e.guard, tm.le(tm.ZERO, r), tm.lt(r, v.rows))
        sv = it.pc
        it.pc = tm.and_(sv, g)
        x = v.at(r)
        it.pc = sv
        out.append(Entry("set", e.binders + (r,), g, (k, r), x))
    return it.mkdict(out)


def storages(it):
    """some of the nodes are storages, they may be decided on"""
    f = dict(NODE_FIELDS)
    f["investment"] = ("opt", ("obj", "Investment"))
    s = Schema("Node", f)

    def kind(i, o, c):
        nm = (getattr(c, "name", None) or str(c)).split(".")[-1]
        if nm == "GenericStorage":
            return tm.app("isstorage", o.key, "B")
        return tm.boolc(nm in ("Node", "Entity"))
    s.isinstance_ = kind
    it.schema["Node"] = s


def the_results(w, **slots):
    it = w.it
    cls = it.load(RESULTS).attrs["Results"]
    it.load(RESULTS).attrs["pd"] = Pandas()
    r = Inst(cls)
    r.slots["_model"] = w.m
    for k, v in slots.items():
        r.slots[k] = v
    it.models["warnings"].attrs["warn"] = Builtin("warn", lambda i, a, k: None)
    return r


class Pandas:
    """the module, as far as it is used"""

    def attr(self, it, name):
        if name == "DataFrame":
            return Builtin(name, lambda i, a, k: frame(i, a, k))
        if name == "concat":
            return Builtin(name, lambda i, a, k: concat(i, a, k))
        return Opaque("pandas." + name)


def returns(**tables):
    """contract of Results.get: the values of the variable; None (or what the
    caller prefers) if there is none"""
    def f(it, a, k):
        kw = dict(zip(("key", "default"), a[1:]), **k)
        if kw["key"] not in tables:
            return kw.get("default")
        return tables[kw["key"]]
    return {RESULTS + ".Results.get": f}


def a_variable_costs(w, run):
    it = w.it
    r = the_results(w)
    i, o = tm.fresh("i", "N"), tm.fresh("o", "N")
    flow = Table(it, [((i, o), tm.app("isflow", (i, o), "B"), (node(i), node(o)))],
                 lambda a, b: Values(NT, lambda t: tm.app("value:flow", (a, b, t), "R")), rows=NT)
    it.contracts.update(returns(flow=flow))

    def cargs(t):
        class FlowValues:
            def getitem(self, it, k):
                return tm.app("value:flow", to_key(it, k), "R")
        return [cells(it, it.simp(t), NT), w.all_flows(), FlowValues(), w.m.slots["TIMESTEPS"],
                Builtin("label", lambda i, a, k: a[0])]
    return lambda it: it.call(it.getattr_(r, "_calc_variable_costs"), [], {}), cargs


UNITS["Results.variable_costs"] = Unit(
    "Results.variable_costs", ["C22"], a_variable_costs, "results.py", "variable_costs",
    lambda o: "C22", [RESULTS + ".Results._calc_variable_costs"])


def a_capex(w, run):
    it = w.it
    storages(it)
    r = the_results(w, _solver_results=it.mkdict([]), _meta_results=it.mkdict([]))
    i, o, n = tm.fresh("i", "N"), tm.fresh("o", "N"), tm.fresh("n", "N")

    def invested(*k):
        if len(k) == 2:
            return tm.and_(tm.app("isflow", k, "B"), tm.not_(tm.app("Flow.investment?None", k, "B")))
        return tm.and_(tm.app("isnode", k, "B"), tm.app("isstorage", k, "B"),
                       tm.not_(tm.app("Node.investment?None", k, "B")))

    def table(name, cond):
        return Table(it, [((i, o), cond(i, o), (node(i), node(o))), ((n,), cond(n), node(n))],
                     lambda *k: Values(tm.ONE, lambda t: tm.app("value:" + name, k + (t,), "R")))

    def status(*k):
        return tm.and_(invested(*k), tm.app("Investment.nonconvex", k, "B"))
    it.contracts.update(returns(invest=table("invest", invested),
                                invest_status=table("invest_status", status)))

    def cargs(t):
        inv = []
        for k in ((i, o), (n,)):
            m = {x: tm.fresh("k", "N") for x in k}
            x = tuple(m.values())
            inv.append(Fam(x, invested(*x), (
                tuple(node(y) for y in x), Obj("Investment", x),
                tm.app("value:invest", x + (tm.ZERO,), "R"),
                tm.app("value:invest_status", x + (tm.ZERO,), "R"))))
        return [cells(it, it.simp(t), None), Seq(inv)]
    return lambda it: it.call(it.getattr_(r, "_calc_capex"), [], {}), cargs


UNITS["Results.investment_costs"] = Unit(
    "Results.investment_costs", ["C22"], a_capex, "results.py", "investment_costs",
    lambda o: "C22", [RESULTS + ".Results._calc_capex"], world=dict(single=True))


# ------------------------------------------------------------ Results.get
class Labels:
    """index of a table: row -> label"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def subst(self, m):
        return Labels(tm.subst(self.n, m), lambda t: shifted(self.at, t, m))

    def length(self, it):
        return self.n

    def slice_(self, it, lo, hi, st):
        if lo is not None or st is not None:
            it.unsupported("part of an index")
        hi = self.n if hi is None else it.term(hi)
        if not it.solver.infeasible(tm.and_(it.pc, tm.lt(hi, tm.ZERO))):
            it.unsupported("part of an index counted from the end")
        return Labels(tm.ite(tm.lt(hi, self.n), hi, self.n), self.at)

    def getitem(self, it, k):
        if isinstance(k, tuple) and k and k[0] == "slice":
            return self.slice_(it, *k[1:])
        k = it.term(k)
        it.raise_if(tm.not_(tm.and_(tm.le(tm.ZERO, k), tm.lt(k, self.n))), ExcVal("IndexError"))
        return self.at(k)

    def attr(self, it, name):
        if name == "get_level_values":
            def f(i, a, k):
                if tm.const_val(i.term(a[0])) != -1:
                    i.unsupported("level of an index")
                return self
            return Builtin(name, f)
        if name == "size":
            return self.n
        return MISSING


class Stacked:
    """table with a column for each key without its last entry, which is the
    row; families: [(binders, guard, key, at)]"""

    def __init__(self, families, rows, state=None):
        self.families, self.rows = families, rows
        self.state = state or Inst(None)
        if state is None:
            self.state.slots["index"] = Labels(rows, lambda t: t)

    def truth(self, it):
        it.raise_(ExcVal("ValueError"))

    def length(self, it):
        return self.rows

    def attr(self, it, name):
        if name == "index":
            return it.getattr_(self.state, "index")
        return MISSING

    def setattr_(self, it, name, v):
        if name != "index":
            it.unsupported("attribute of a table")
        it.raise_if(tm.not_(tm.eq(it.term(it.length(v)), self.rows)), ExcVal("ValueError"))
        it.setattr_(self.state, "index", v)

    def cells(self, it):
        out = []
        for bs, g, k, at in self.families:
            r = tm.fresh("r", "I")
            out.append(Entry("set", tuple(bs) + (r,), tm.and_(g, tm.le(tm.ZERO, r), tm.lt(r, self.rows)),
                             (k, r), at(r)))
        return it.mkdict(out)


class Wide:
    """table with one row and a column for each index of the variable"""

    def __init__(self, v):
        self.v = v

    def attr(self, it, name):
        if name == "stack":
            def f(i, a, k):
                if a or k != {"future_stack": True}:
                    i.unsupported("arguments of stack")
                return Stacked([self.v.family], self.v.rows)
            return Builtin(name, f)
        return MISSING


class Values1:
    """Var.extract_values(): {index: value} of all indices"""

    def __init__(self, v):
        self.v = v


class Variable:
    """variable of the model: one value for each element of a family and each
    entry of a range (time steps, time points, periods)"""

    def __init__(self, binders, guard, key, value, ranges, rows):
        self.family, self.rows, self.ranges = (binders, guard, key, value), rows, ranges

    def attr(self, it, name):
        if name == "extract_values":
            return Builtin(name, lambda i, a, k: Values1(self))
        if name == "index_set":
            def last(i, a, k):
                s = Inst(None)
                s.slots["name"] = self.ranges
                first = Inst(None)
                first.slots["name"] = "FIRST"
                return Seq([Fam((), TRUE, first), Fam((), TRUE, s)])
            s = Inst(None)
            s.slots["subsets"] = Builtin("subsets", last)
            return Builtin(name, lambda i, a, k: s)
        return MISSING

    def all(self, it):
        """{index: value}"""
        bs, g, k, at = self.family
        m = {b: tm.fresh("v", b.sort) for b in bs}
        t = tm.fresh("t", "I")
        k = subst_value(k, m)
        return it.mkdict([Entry("set", tuple(m.values()) + (t,),
                                tm.and_(tm.subst(g, m), tm.le(tm.ZERO, t), tm.lt(t, self.rows)),
                                (k if isinstance(k, tuple) else (k,)) + (t,), subst_value(at(t), m))])


def concat(it, a, k):
    xs = it.simp(a[0])
    if isinstance(xs, Seq) and xs.concrete():
        xs = [it.simp(x) for x in xs.values()]
    if not isinstance(xs, (list, tuple)) or not xs or k != {"axis": 1} or not all(isinstance(x, Stacked) for x in xs):
        it.unsupported("tables put together")
    if any(x.rows is not xs[0].rows for x in xs):
        it.unsupported("tables of different length put together")
    return Stacked([f for x in xs for f in x.families], xs[0].rows)


def value_of(name):
    return lambda *k: lambda t: tm.app("value:" + name, k + (t,), "R")


def a_table(name, ranges):
    """Results.get(name): variables over ranges"""
    def setup(w, run):
        it = w.it
        i, o, n = tm.fresh("i", "N"), tm.fresh("o", "N"), tm.fresh("n", "N")
        rows = {"TIMESTEPS": NT, "TIMEPOINTS": tm.add(NT, tm.ONE), "PERIODS": NP}[ranges]
        flows = Variable((i, o), tm.app("has:" + name, (i, o), "B"), (node(i), node(o)),
                         value_of(name)(i, o), ranges, rows)
        of_nodes = Variable((n,), tm.app("has:" + name, (n,), "B"), (node(n),), value_of(name)(n), ranges, rows)
        have = {"flow": [flows], "storage_content": [of_nodes], "invest": [flows, of_nodes]}[name]
        variables = it.mkdict([Entry("set", (), TRUE, name, it.mkdict(
            [Entry("set", (), TRUE, "block%d" % j, v) for j, v in enumerate(have)]))])
        r = the_results(w, _variables=variables)
        n = tm.ite(SINGLE, tm.add(NT, tm.ONE), NT)
        times = Labels(n, lambda t: tm.app("hour", (t,), "R"))
        it.schema["EnergySystem"].fields["timeindex"] = ("val", lambda i, o: times)

        def cargs(t):
            t = it.simp(t)
            if not isinstance(t, Stacked):
                it.unsupported("kind of table")
            k = tm.fresh("k", "I")
            rng = Seq([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, rows)), k)])
            # labels are the points in time where there is one for each row
            want = {"TIMESTEPS": times, "PERIODS": Labels(rows, lambda t: t),
                    "TIMEPOINTS": U([(SINGLE, times), (tm.not_(SINGLE), Labels(rows, lambda t: t))])}[ranges]
            return [t.cells(it), it.getattr_(t, "index"), name, Seq([Fam((), TRUE, (name, v.all(it))) for v in have]),
                    want, rng]
        return lambda it: it.call(it.getattr_(r, "get"), [name], {}), cargs
    return setup


for _n, _r in (("flow", "TIMESTEPS"), ("storage_content", "TIMEPOINTS"), ("invest", "PERIODS")):
    _u = "Results.get_" + _n
    UNITS[_u] = Unit(_u, ["C22"], a_table(_n, _r), "results.py", "labelled_table", lambda o: "C22",
                     [RESULTS + ".Results.get"])


# ------------------------------------------------------------------- views
def a_selection(option):
    def setup(w, run):
        it = w.it
        i, o, n = tm.fresh("i", "N"), tm.fresh("o", "N"), tm.fresh("n", "N")
        d = it.mkdict([Entry("set", (i, o), tm.app("hasflow", (i, o), "B"), (node(i), node(o)), Opaque("tables")),
                       Entry("set", (n,), tm.app("hasnode", (n,), "B"), (node(n), None), Opaque("tables"))])
        buses = tm.var("buses", "B")

        def kind(it, o, c):
            return tm.app("isbus", o.key, "B")
        w.it.schema["Node"].isinstance_ = lambda i, o, c: kind(i, o, c)
        w.it.schema["Node"].fields["__class__"] = ("val", lambda i, o: ClassOf(o))

        def cargs(have):
            return [have, Seq([Fam(e.binders, e.guard, e.key) for e in d.entries]), option, buses]
        kw = {"exclude_busses": tm.not_(buses)}
        if option != "all":
            kw["option"] = option
        f = it.load("oemof.solph.views").attrs["filter_nodes"]
        return lambda it: it.call(f, [d], kw), cargs
    return setup


class ClassOf:
    """class of a node; only whether it is named Bus is known"""

    def __init__(self, o):
        self.o = o

    def attr(self, it, name):
        return self if name == "__name__" else MISSING

    def eq_(self, it, a, b):
        if "Bus" not in (a, b):
            it.unsupported("class of a node")
        return tm.app("isbus", self.o.key, "B")


for _o in ("all", "has_outputs", "has_inputs", "has_only_outputs", "has_only_inputs"):
    _u = "views.filter_nodes_" + _o
    UNITS[_u] = Unit(_u, ["C22"], a_selection(_o), "results.py", "selected", lambda o: "C22",
                     ["oemof.solph.views.filter_nodes"])


# ------------------------------------------------------------ meta_results
class Reported:
    """value reported by the solver; Pyomo writes <undefined> if there is none"""

    def __init__(self, number, defined=TRUE):
        self.number, self.defined = number, defined

    def str_(self, it):
        return U([(self.defined, "some value"), (tm.not_(self.defined), "<undefined>")])

    def eq_(self, it, a, b):
        if a is b:
            return TRUE
        o = b if a is self else a
        if o == "<undefined>":
            return tm.not_(self.defined)
        if isinstance(o, T):
            return tm.and_(self.defined, tm.eq(self.number, o))
        it.unsupported("comparison of a reported value")

    def binop(self, it, op, a, b):
        # only the bounds are used as numbers; the solver reports them
        f = lambda x: x.number if isinstance(x, Reported) else x
        it.raise_if(tm.not_(tm.and_(*[x.defined for x in (a, b) if isinstance(x, Reported)])),
                    ExcVal("TypeError"))
        return it.binop(op, f(a), f(b), None)


def a_meta(w, run):
    it = w.it
    v = {"problem": {"Name": Reported(tm.var("name", "R"), tm.var("name:defined", "B")),
                     "Lower bound": Reported(tm.var("lower", "R")),
                     "Upper bound": Reported(tm.var("upper", "R")),
                     "Sense": Reported(tm.var("sense", "R"), tm.var("sense:defined", "B"))},
         "solver": {"Status": Reported(tm.var("status", "R"), tm.var("status:defined", "B")),
                    "Time": Reported(tm.var("time", "R"), tm.var("time:defined", "B"))}}
    both = lambda d: it.mkdict([Entry("set", (), TRUE, k, x) for k, x in d.items()])
    results = it.mkdict([Entry("set", (), TRUE, p, it.mklist([Fam((), TRUE, both(d))])) for p, d in v.items()])
    it.schema["EnergySystem"].fields["results"] = ("val", lambda i, o: results)
    value = tm.var("objective", "R")
    w.m.slots["objective"] = Builtin("objective", lambda i, a, k: value)
    undefined = tm.var("undefined", "B")
    f = it.load("oemof.solph.processing").attrs["meta_results"]

    def cargs(have):
        given = it.mkdict([Entry("set", (), TRUE, p, both(d)) for p, d in v.items()])
        return [have, value, given, undefined, v["problem"]["Lower bound"].number,
                v["problem"]["Upper bound"].number]
    return lambda it: it.call(f, [w.m], {"undefined": undefined}), cargs


UNITS["processing.meta_results"] = Unit(
    "processing.meta_results", ["C22"], a_meta, "results.py", "meta", lambda o: "C22",
    ["oemof.solph.processing.meta_results"])


# ---------------------------------------------------------- access by name
def a_results(w):
    """results with any of these names"""
    it = w.it

    def some(kind, **kw):
        return it.mkdict([Entry("set", (), tm.var("%s:%s" % (kind, k), "B"), k, v) for k, v in kw.items()])
    t = lambda n: tm.var(n, "R")
    solver = some("solver", Solver=t("solver"), flow=t("odd"))
    meta = some("meta", objective=t("objective"))
    variables = some("variables", flow=t("flow"), invest=t("invest"))
    derived = some("derived", variable_costs=None, investment_costs=None)
    r = the_results(w, _solver_results=solver, _meta_results=meta, _variables=variables, _economy=derived)
    return it, r, solver, meta, variables, derived


def a_lookup(method, key):
    def setup(w, run):
        it, r, solver, meta, variables, derived = a_results(w)
        table = U([(tm.var("known", "B"), tm.var("table", "R")), (tm.not_(tm.var("known", "B")), None)])

        def get(it, a, k):
            if a[1:] != [key] or k:
                it.unsupported("arguments of Results.get")
            return table
        it.contracts[RESULTS + ".Results.get"] = get
        if method == "to_df":
            return lambda it: it.call(it.getattr_(r, "to_df"), [key], {}), lambda x: [x, table]
        return lambda it: it.getitem(r, key), lambda x: [x, key, solver, meta, table]
    return setup


def a_membership(key):
    def setup(w, run):
        it, r, solver, meta, variables, derived = a_results(w)
        return lambda it: it.contains(r, key, None), lambda x: [x, key, solver, variables]
    return setup


def a_names(w, run):
    it, r, solver, meta, variables, derived = a_results(w)
    return lambda it: it.call(it.getattr_(r, "keys"), [], {}), lambda x: [x, solver, meta, variables, derived]


def access(uid, setup, fn, function):
    UNITS[uid] = Unit(uid, ["C22"], setup, "access.py", fn, lambda o: "C22",
                      [RESULTS + ".Results." + function])


for _k in ("Solver", "objective", "flow", "variable_costs", "nothing"):
    access("Results.getitem_" + _k, a_lookup("[]", _k), "looked_up", "__getitem__")
access("Results.to_df", a_lookup("to_df", "flow"), "converted", "to_df")
for _k in ("Solver", "flow", "nothing"):
    access("Results.contains_" + _k, a_membership(_k), "contained", "__contains__")
access("Results.keys", a_names, "names", "keys")


def a_key(nodes, steps):
    def setup(w, run):
        it = w.it
        w.it.schema["Node"].isinstance_ = lambda i, o, c: tm.boolc(
            (getattr(c, "name", None) or str(c)).split(".")[-1] in ("Node", "Entity"))
        parts = tuple(node(tm.fresh("n", "N")) for _ in range(nodes))
        step = tm.var("step", "I") if steps else None
        x = parts + ((step,) if steps else ())
        mod = it.load("oemof.solph.processing").attrs
        return (lambda it: (it.call(mod["get_timestep"], [x], {}), it.call(mod["remove_timestep"], [x], {})),
                lambda r: [r[0], r[1], parts, step])
    return setup


for _i, _s in ((1, False), (2, False), (1, True), (2, True)):
    _u = "processing.key_%d%s" % (_i, "_step" if _s else "")
    UNITS[_u] = Unit(_u, ["C22"], a_key(_i, _s), "access.py", "split_key", lambda o: "C22",
                     ["oemof.solph.processing.get_timestep", "oemof.solph.processing.remove_timestep"])


def a_renaming(keep):
    """results of flows (from, to) and nodes (node, None); labels are unique"""
    def setup(w, run):
        it = w.it
        i, o, n = tm.fresh("i", "N"), tm.fresh("o", "N"), tm.fresh("n", "N")
        it.schema["Node"].str_ = lambda i, o: Obj("Label", o.key)
        it.schema["Label"] = Schema("Label", {})
        d = it.mkdict([
            Entry("set", (i, o), tm.app("hasflow", (i, o), "B"), (node(i), node(o)), Obj("Tables", (i, o))),
            Entry("set", (n,), tm.app("hasnode", (n,), "B"), (node(n), None), Obj("Tables", (n,)))])

        def string(it, a, k):
            def one(x):
                if x is None:
                    return None if keep else "None"
                return Obj("Label", x.key)
            x = it.simp(a[0])
            return tuple(one(it.simp(y)) for y in x)
        f = it.load("oemof.solph.processing").attrs["convert_keys_to_strings"]
        kw = {"keep_none_type": True} if keep else {}
        return lambda it: it.call(f, [d], kw), lambda r: [r, d, Builtin("string", string)]
    return setup


def a_index(nodes, steps):
    """(block, variable, index), the index of a single node is not a tuple"""
    def setup(w, run):
        it = w.it
        w.it.schema["Node"].isinstance_ = lambda i, o, c: tm.boolc(
            (getattr(c, "name", None) or str(c)).split(".")[-1] in ("Node", "Entity"))
        parts = tuple(node(tm.fresh("n", "N")) for _ in range(nodes))
        index = parts + ((tm.var("step", "I"),) if steps else ())
        x = ("Block", "variable", index if len(index) > 1 else index[0])
        f = it.load("oemof.solph.processing").attrs["get_tuple"]
        return lambda it: it.call(f, [x], {}), lambda r: [r, index]
    return setup


for _i, _s in ((1, False), (2, False), (1, True), (2, True)):
    _u = "processing.index_%d%s" % (_i, "_step" if _s else "")
    UNITS[_u] = Unit(_u, ["C22"], a_index(_i, _s), "access.py", "index_of", lambda o: "C22",
                     ["oemof.solph.processing.get_tuple"])


def a_by_type(name):
    """joining the tables is left to pandas (convert_to_multiindex)"""
    def setup(w, run):
        it = w.it
        i, o, n = tm.fresh("i", "N"), tm.fresh("o", "N"), tm.fresh("n", "N")
        it.schema["Node"].isinstance_ = lambda i, o, c: tm.app("oftype", o.key, "B")
        t = Schema("Tables", {})
        t.getitem = lambda it, o, k: Obj("Series", o.key) if k == "sequences" else it.raise_(ExcVal("KeyError"))
        it.schema["Tables"], it.schema["Series"] = t, Schema("Series", {})
        d = it.mkdict([
            Entry("set", (i, o), tm.app("hasflow", (i, o), "B"), (node(i), node(o)), Obj("Tables", (i, o))),
            Entry("set", (n,), tm.app("hasnode", (n,), "B"), (node(n), None), Obj("Tables", (n, n)))])
        mod = it.load("oemof.solph.views")
        it.contracts["oemof.solph.views.convert_to_multiindex"] = lambda it, a, k: a[0] if a else k["group"]
        kind = it.load("oemof.solph.components._generic_storage").attrs["GenericStorage"]

        def wanted(it, a, k):
            x = [it.simp(y) for y in it.simp(a[0])]
            def of(y):
                return FALSE if y is None else tm.app("oftype", y.key, "B")
            if name == "node_input_by_type":
                return of(x[1])
            return tm.and_(of(x[0]), tm.boolc((x[1] is None) == (name == "node_weight_by_type")))
        return lambda it: it.call(mod.attrs[name], [d, kind], {}), lambda r: [r, d, Builtin("wanted", wanted)]
    return setup


for _u in ("node_input_by_type", "node_output_by_type", "node_weight_by_type"):
    UNITS["views." + _u] = Unit("views." + _u, ["C22"], a_by_type(_u), "access.py", "of_type", lambda o: "C22",
                                ["oemof.solph.views." + _u])


def a_node_by_name(several):
    """any results and any name, also one that no node has"""
    def setup(w, run):
        it = w.it
        i, o, n, q = tm.fresh("i", "N"), tm.fresh("o", "N"), tm.fresh("n", "N"), tm.var("asked", "N")
        it.schema["Node"].str_ = lambda i, o: Obj("Label", o.key)
        it.schema["Label"] = Schema("Label", {})
        d = it.mkdict([Entry("set", (i, o), tm.app("hasflow", (i, o), "B"), (node(i), node(o)), Opaque("tables")),
                       Entry("set", (n,), tm.app("hasnode", (n,), "B"), (node(n), None), Opaque("tables"))])
        f = it.load("oemof.solph.views").attrs["get_node_by_name"]
        names = [Obj("Label", (q,))] + ([Obj("Label", (tm.var("other", "N"),))] if several else [])

        def go(it):
            r = it.call(f, [d] + names, {})
            return it.getitem(r, 0) if several else r
        return go, lambda r: [r, Seq([Fam(e.binders, e.guard, e.key) for e in d.entries]),
                              Builtin("labels", lambda i, a, k: i.lift(lambda x: Obj("Label", x.key), a[0])), names[0]]
    return setup


for _i, _s in ((False, "one"), (True, "several")):
    _u = "views.get_node_by_name_" + _s
    UNITS[_u] = Unit(_u, ["C22"], a_node_by_name(_i), "access.py", "by_name", lambda o: "C22",
                     ["oemof.solph.views.get_node_by_name"])


for _i, _s in ((False, "labels"), (True, "labels_none")):
    _u = "processing.convert_keys_to_" + _s
    UNITS[_u] = Unit(_u, ["C22"], a_renaming(_i), "access.py", "renamed", lambda o: "C22",
                     ["oemof.solph.processing.convert_keys_to_strings"])
