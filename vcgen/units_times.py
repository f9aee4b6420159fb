"""Units: the time structure of energy system and model."""

from . import data, inputs as inp, pdmodel, terms as tm
from .data import NP, NT, FlowsMap, Periods, Schema, SymSeqLen, World, node
from .interp import Builtin, ExcVal, Fam, Inst, MISSING, Obj, Opaque, Seq
from .terms import TRUE
from .units import UNITS, Unit

MODELS = "oemof.solph._models"


def plen(p):
    """number of steps of a period"""
    return tm.app("tip_len", (p,), "I")


def index_range(it, lo, hi, f):
    k = tm.fresh("k", "I")
    return Seq([Fam((k,), tm.and_(tm.le(lo, k), tm.lt(k, hi)), f(k))])


class Lengths:
    """number of steps of each period"""

    def length(self, it):
        return NP

    def getitem(self, it, p):
        return plen(it.term(p))

    def iterate(self, it):
        return index_range(it, tm.ZERO, NP, plen)


class Tsa:
    """es.tsa_parameters: one dictionary for each period"""

    def __init__(self, n):
        self.n = n

    def length(self, it):
        return self.n

    def getitem(self, it, p):
        return TsaPeriod(it.term(p))

    def iterate(self, it):
        return index_range(it, tm.ZERO, it.term(self.n), TsaPeriod)

    def truth(self, it):
        return TRUE

    def attr(self, it, name):
        return MISSING


class TsaPeriod:
    def __init__(self, p):
        self.p = p

    def subst(self, m):
        return TsaPeriod(tm.subst(self.p, m))

    def getitem(self, it, name):
        if name == "timesteps":
            return tm.app("ts", (self.p,), "I")
        if name == "order":
            return SymSeqLen("order", tm.app("norder", (self.p,), "I"), (self.p,), "I")
        if name == "occurrences":
            return Occurrences(self.p)
        it.unsupported("tsa_parameters[...][%r]" % (name,))


class Occurrences:
    """how many original periods each typical period stands for"""

    def __init__(self, p):
        self.p = p

    def subst(self, m):
        return Occurrences(tm.subst(self.p, m))

    def length(self, it):
        return tm.app("ntyp", (self.p,), "I")

    def getitem(self, it, k):
        return tm.app("occ", (self.p, it.term(k)), "I")


class Instant:
    """a point in time; its year"""

    def __init__(self, y):
        self.y = y

    def subst(self, m):
        return Instant(tm.subst(self.y, m))

    def attr(self, it, name):
        return self.y if name == "year" else MISSING


class PeriodIndex:
    """time index of a period (in ascending order)"""

    def __init__(self, p):
        self.p = p

    def subst(self, m):
        return PeriodIndex(tm.subst(self.p, m))

    def end(self, which):
        return Instant(tm.app("year:" + which, (self.p,), "I"))

    def length(self, it):
        return plen(self.p)

    def truth(self, it):
        it.raise_(ExcVal("ValueError"))

    def getitem(self, it, ix):
        t = it.term(ix)
        if tm.const_val(t) == 0:
            return self.end("first")
        if tm.const_val(t) == -1:
            return self.end("last")
        it.unsupported("entry of the index of a period")

    def attr(self, it, name):
        if name in ("min", "max"):
            return Builtin(name, lambda i, a, k: self.end("first" if name == "min" else "last"))
        return MISSING


class PeriodList:
    """es.periods: one index for each period"""

    def length(self, it):
        return NP

    def truth(self, it):
        return TRUE

    def iterate(self, it):
        return index_range(it, tm.ZERO, NP, PeriodIndex)

    def getitem(self, it, ix):
        return it.getitem(self.iterate(it), ix)

    def attr(self, it, name):
        return MISSING


def year(it, a, k):
    return a[0].y


def start(it, a, k):
    return a[0].end("first")


def stop(it, a, k):
    return a[0].end("last")


def before(it, a, k):
    x, p = a[0], it.term(a[1])
    q = tm.fresh("q", "I")
    return tm.mksum((q,), tm.and_(tm.le(tm.ZERO, q), tm.lt(q, p)), it.term(it.getitem(x, q)))


def count(it, a, k):
    x = a[0]
    if isinstance(x, SymSeqLen) and x.name == "order":
        return tm.app("occ", x.key + (it.term(a[1]),), "I")
    it.unsupported("count in %r" % (x,))


def typical(it, a, k):
    return tm.app("ntyp", (a[0].p,), "I")


def s_sets(single, tsam):
    def setup(w, run):
        it = w.it
        it.naming = True
        th = it.theory
        facts = [(lambda f, lo: th.axiom(f, lambda *k: tm.le(lo, tm.app(f, k, "I"))))]
        for f, lo in (("tip_len", tm.ONE), ("ts", tm.ONE), ("norder", tm.ONE), ("ntyp", tm.ONE),
                      ("occ", tm.ONE)):
            facts[0](f, lo)
        if not single:
            th.facts.append(tm.eq(NT, before(it, [Lengths(), NP], {})))
        sc = it.schema["EnergySystem"].fields
        sc["periods"] = ("const", None) if single else ("val", lambda i, o: Periods())
        if tsam:
            sc["tsa_parameters"] = ("val", lambda i, o: Tsa(1 if single else NP))
        cls = it.load(MODELS).attrs["Model"]
        m = Inst(cls)
        m.is_block = True
        m.slots["es"] = w.es
        m.slots["timeincrement"] = SymSeqLen("dt", NT)
        m.slots["flows"] = FlowsMap()
        return (lambda i: i.call(i.getattr_(m, "_add_parent_block_sets"), [], {}),
                lambda r: [m, w.es, NT, None if single else Lengths()])
    return setup


for single in (True, False):
    for tsam in (False, True):
        uid = "Model.sets." + ("single" if single else "multi") + (".tsam" if tsam else "")
        UNITS[uid] = Unit(uid, ["C19", "C21"], s_sets(single, tsam), "sets.py", "model_sets",
                          lambda o: "C19", [MODELS + ".Model._add_parent_block_sets"],
                          world={"single": single}, callees={})


def s_step(w, run):
    it = w.it
    it.naming = True
    for f in ("tip_len", "ts"):
        it.theory.axiom(f, lambda *k, f=f: tm.le(tm.ONE, tm.app(f, k, "I")))
    it.schema["EnergySystem"].fields["tsa_parameters"] = ("val", lambda i, o: Tsa(NP))
    m = Inst(it.load(MODELS).attrs["Model"])
    m.slots["es"] = w.es
    m.slots["TIMESTEPS_IN_PERIOD"] = w.m.slots["TIMESTEPS_IN_PERIOD"] if isinstance(w.m, Inst) \
        else it.getattr_(w.m, "TIMESTEPS_IN_PERIOD")
    p, k, g = tm.var("p", "I"), tm.var("k", "I"), tm.var("g", "I")
    it.theory.facts += [tm.le(tm.ZERO, p), tm.lt(p, NP), tm.le(tm.ZERO, k), tm.le(tm.ZERO, g)]
    return (lambda i: i.call(i.getattr_(m, "get_timestep_from_tsam_timestep"), [p, k, g], {}),
            lambda r: [r, m, Lengths(), p, k, g, tm.app("ts", (p,), "I")])


UNITS["Model.step_of_typical"] = Unit(
    "Model.step_of_typical", ["C19"], s_step, "sets.py", "step_of_typical", lambda o: "C19",
    [MODELS + ".Model.get_timestep_from_tsam_timestep"], world={"single": False}, callees={})


ENERGY = "oemof.solph._energy_system"


def s_periods(w, run):
    it = w.it
    it.naming = True
    it.theory.facts.append(tm.le(tm.ONE, NP))
    it.theory.axiom("year:first", lambda p: tm.le(tm.app("year:first", (p,), "I"),
                                                  tm.app("year:last", (p,), "I")))
    e = Inst(it.load(ENERGY).attrs["EnergySystem"])
    e.slots["periods"] = PeriodList()

    def go(i):
        for f in ("_extract_periods_years", "_extract_periods_matrix",
                  "_extract_end_year_of_optimization"):
            i.call(i.getattr_(e, f), [], {})
    return go, lambda r: [e, e.slots["periods"]]


UNITS["EnergySystem.periods"] = Unit(
    "EnergySystem.periods", ["C19", "C08", "C09"], s_periods, "energy.py", "period_years",
    lambda o: "C19", [ENERGY + ".EnergySystem." + f for f in (
        "_extract_periods_years", "_extract_periods_matrix", "_extract_end_year_of_optimization",
        "get_period_duration")], world={"single": False}, callees={})


class TsaParams:
    """given parameters of the aggregation of one period; what the constructor
    adds is kept in the heap"""
    KEYS = ("order", "timesteps_per_period", "segments")

    def __init__(self, p, own=True):
        self.p, self.own = p, own

    def subst(self, m):
        return TsaParams(tm.subst(self.p, m), self.own)

    def cell(self):
        return Obj("TsaParams", (self.p,))

    def isinstance_(self, it, c):
        return tm.boolc(str(getattr(c, "name", c)).split(".")[-1] in ("dict", "Mapping"))

    def truth(self, it):
        return TRUE

    def attr(self, it, name):
        return MISSING

    def segmented(self):
        return tm.app("segmented", (self.p,), "B")

    def contains_(self, it, k):
        if k == "segments":
            return self.segmented()
        if k in ("order", "timesteps_per_period"):
            return TRUE
        it.unsupported("%r in tsa_parameters" % (k,))

    def iterate(self, it):
        it.unsupported("iteration over tsa_parameters")

    def setitem(self, it, k, v):
        if k not in ("occurrences", "timesteps") or not self.own:
            it.unsupported("tsa_parameters[...][%r] set" % (k,))
        it.setattr_(self.cell(), k, v)

    def getitem(self, it, k):
        if k == "order":
            return SymSeqLen("order", tm.app("norder", (self.p,), "I"), (self.p,), "I")
        if k == "timesteps_per_period":
            return tm.app("tspp", (self.p,), "I")
        if k == "segments":
            it.raise_if(tm.not_(self.segmented()), ExcVal("KeyError"))
            return Segments(self.p)
        if k in ("occurrences", "timesteps") and self.own:
            return it.getattr_(self.cell(), k)
        it.unsupported("tsa_parameters[...][%r]" % (k,))


class Segments:
    """durations of the segments of the typical periods: the same number of
    segments for each"""

    def __init__(self, p):
        self.p = p

    def subst(self, m):
        return Segments(tm.subst(self.p, m))

    def length(self, it):
        return tm.mul(tm.app("nseg", (self.p,), "I"), tm.app("ntyp", (self.p,), "I"))

    def truth(self, it):
        return TRUE

    def attr(self, it, name):
        if name == "values":
            return Builtin(name, lambda i, a, k: SymSeqLen("segment", self.length(i), (self.p,)))
        return MISSING


class TsaList(Tsa):
    own = True

    def __init__(self, n, own=True):
        self.n, self.own = n, own

    def isinstance_(self, it, c):
        return tm.boolc(str(getattr(c, "name", c)).split(".")[-1] in ("list", "Iterable", "Sequence"))

    def getitem(self, it, p):
        if isinstance(p, tuple) and p and p[0] == "slice":
            lo, hi, st = [it.simp(x) for x in p[1:4]]
            if st is None and lo in (None, 0) and (
                    hi is None or it.decide(tm.eq(it.term(hi), it.term(self.n))) is True):
                return self
            it.unsupported("some of the tsa_parameters")
        return TsaParams(it.term(p), self.own)

    def iterate(self, it):
        if self.n == 1:
            return Seq([Fam((), TRUE, TsaParams(tm.ZERO, self.own))])
        return index_range(it, tm.ZERO, it.term(self.n), lambda p: TsaParams(p, self.own))


def s_energy(single, aggregated):
    def setup(w, run):
        it = w.it
        it.naming = True
        th = it.theory
        for f in ("norder", "ntyp", "occ", "nseg", "tspp"):
            th.axiom(f, lambda *k, f=f: tm.le(tm.ONE, tm.app(f, k, "I")))
        th.facts.append(tm.le(tm.ONE, NP))
        th.axiom("year:first", lambda p: tm.le(tm.app("year:first", (p,), "I"),
                                               tm.app("year:last", (p,), "I")))
        it.schema["TsaParams"] = Schema("TsaParams", {})
        ti = pdmodel.TimeIndex("ti", tm.var("len:ti", "I")).start(it)
        nums = inp.series(it, "tn")
        th.facts.append(tm.le(tm.num(2), nums.n))
        kw = {"timeindex": inp.choice("timeindex", none=None, points=ti, numbers=nums),
              "timeincrement": inp.choice("timeincrement", none=None, given=inp.series(it, "inc")),
              "infer_last_interval": tm.var("infer", "B"),
              "use_remaining_value": tm.var("remaining", "B"),
              "periods": None if single else PeriodList(), "tsa_parameters": None}
        given = dict(kw)
        if aggregated:
            n = 1 if single else NP
            kw["tsa_parameters"] = TsaParams(tm.ZERO) if aggregated == ".tsam" else TsaList(n)
            given["tsa_parameters"] = TsaList(n, False)
        own = it.mklist([Fam((), TRUE, Opaque("grouping of the user"))])
        kw["groupings"] = given["groupings"] = inp.choice("groupings", none=None, given=own)
        cls = it.load(ENERGY).attrs["EnergySystem"]
        given["standard"] = it.load("oemof.solph._groupings").attrs["GROUPINGS"]
        return (lambda i: i.call(cls, [], dict(kw))), lambda r: ([r], given)
    return setup


for single in (True, False):
    for aggregated in ("", ".tsam", ".tsamlist"):
        if aggregated == ".tsam" and not single:
            continue            # one dictionary: one period
        uid = "EnergySystem.init." + ("single" if single else "multi") + aggregated
        UNITS[uid] = Unit(uid, ["C19", "C21", "C08", "C09"], s_energy(single, aggregated), "energy.py",
                          "energy_system", lambda o: "C19",
                          [ENERGY + ".EnergySystem." + f for f in (
                              "__init__", "_init_timeincrement", "_extract_periods_years",
                              "_extract_periods_matrix", "_extract_end_year_of_optimization",
                              "get_period_duration")], world={"single": single}, callees={})


def s_time_index(w, run):
    """a year or a number of intervals is given"""
    it = w.it
    h, n, y = tm.var("interval", "R"), tm.var("number", "I"), tm.var("year", "I")
    it.theory.facts += [tm.lt(tm.ZERO, h), tm.le(tm.ZERO, n)]
    kw = {"interval": h, "year": inp.choice("year", none=None, year=y),
          "number": inp.choice("number", none=None, number=n),
          "start": inp.choice("start", none=None, moment=pdmodel.Moment(tm.var("start", "R")))}
    none = {k: tm.var(k + ":is_none", "B") for k in ("year", "number", "start")}
    it.theory.facts.append(tm.or_(tm.not_(none["year"]), tm.and_(
        tm.not_(none["start"]), tm.not_(none["number"]))))
    f = it.load("oemof.solph._helpers").attrs["create_time_index"]
    return lambda it: it.call(f, [], kw), lambda r: ([r], kw)


UNITS["create_time_index"] = Unit(
    "create_time_index", ["C19"], s_time_index, "energy.py", "time_index", lambda o: "C19",
    ["oemof.solph._helpers.create_time_index"], callees={})
