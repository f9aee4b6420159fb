"""Units: functions of the model that are no blocks."""

from . import terms as tm
from .data import Schema
from .interp import Builtin, Entry, NativeClass, Obj, U
from .inputs import choice
from .terms import FALSE, TRUE
from .units import UNITS, Unit

MODELS = "oemof.solph._models"


# ---------------------------------------------------------------------- solve
class Solver:
    """assumed: a solver has options, and its solve() returns an outcome"""

    def __init__(self, options, called, outcome):
        self.options, self.called, self.outcome = options, called, outcome

    def attr(self, it, name):
        if name == "options":
            return self.options
        if name == "solve":
            def f(i, a, k):
                self.called.append((i.pc, a[0], i.mkdict([Entry("set", (), TRUE, x, v)
                                                    for x, v in k.items()])))
                return self.outcome
            return Builtin("solve", f)
        it.unsupported("solver." + name)

    def setattr_(self, it, name, v):
        it.unsupported("solver.%s = ..." % name)


STATUS = ("ok", "warning", "error", "aborted", "unknown")
ENDS = ("optimal", "feasible", "infeasible", "unbounded", "maxTimeLimit", "other")


def a_solve(w, run):
    it = w.it
    it.naming = True
    status = choice("status", **{x: x for x in STATUS})
    end = choice("termination", **{x: x for x in ENDS})
    info = {n: ("val", lambda i, o, v=v: v) for n, v in (
        ("Status", status), ("status", status), ("Termination_condition", end),
        ("termination_condition", end))}
    it.schema["SolverInfo"] = Schema("SolverInfo", info)
    it.schema["Outcome"] = Schema("Outcome", {
        n: ("val", lambda i, o: Obj("SolverInfo", ())) for n in ("Solver", "solver")})
    outcome = Obj("Outcome", ())

    def mapping(*names):
        return it.mkdict([Entry("set", (), TRUE, x, tm.var("value of " + x, "R")) for x in names])
    options, made, called, warned = mapping("own"), [], [], []

    def factory(i, a, k):
        made.append((a[0], k.get("solver_io")))
        if len(a) != 1 or set(k) - {"solver_io"}:
            i.unsupported("arguments of SolverFactory")
        return Solver(options, called, outcome)
    ns = it.load(MODELS).attrs
    ns["SolverFactory"] = Builtin("SolverFactory", factory)
    it.models["warnings"].attrs["warn"] = Builtin("warn", lambda i, a, k: warned.append(i.pc))
    kw = {"solver": "mysolver", "solver_io": choice("solver_io", lp="lp", nl="nl"),
          "allow_nonoptimal": tm.var("allow_nonoptimal", "B"),
          "solve_kwargs": choice("solve_kwargs", none=None, empty=mapping(), dict=mapping("tee", "x")),
          "cmdline_options": choice("cmdline_options", none=None, empty=mapping(),
                                    dict=mapping("a", "b"))}

    def cargs(r):
        never, cases = TRUE, []
        for g, m, k in called:
            if not it.solver.infeasible(tm.and_(g, tm.not_(never))):
                it.unsupported("several calls of the solver")
            cases.append((tm.and_(never, g), (m, k)))
            never = tm.and_(never, tm.not_(g))
        cases.append((never, (None, mapping())))
        return ([r, w.m, made[0], options, U(cases), outcome, mapping("own"), tm.or_(*warned)], kw)
    return lambda it: it.call(it.getattr_(w.m, "solve"), [], dict(kw)), cargs


UNITS["Model.solve"] = Unit(
    "Model.solve", ["C23"], a_solve, "solve.py", "solve", lambda o: "C23", [MODELS + ".Model.solve"],
    callees={"oemof.solph._results.Results.__init__": lambda it, a, k: None})


# ------------------------------------------------------- thin methods of Model
class Suffix:
    """assumed: Pyomo's suffix imports what its direction says"""

    def __init__(self, direction):
        self.direction = direction

    def attr(self, it, name):
        if name == "direction":
            return self.direction
        if name in ("import_enabled", "export_enabled"):
            return Builtin(name, lambda i, a, k: self.direction in (name[:6], "both"))
        it.unsupported("suffix." + name)


def a_duals(w, run):
    it = w.it
    cls = NativeClass("Suffix", lambda i, a, k: Suffix(
        k.get("direction", a[0] if a else "local")))
    cls.attrs = {"LOCAL": "local", "IMPORT": "import", "EXPORT": "export", "IMPORT_EXPORT": "both"}
    for n in ("pyomo.environ", "pyomo"):
        if n in it.models:
            it.models[n].attrs["Suffix"] = cls
    return lambda it: it.call(it.getattr_(w.m, "receive_duals"), [], {}), lambda r: [r, w.m]


UNITS["Model.receive_duals"] = Unit(
    "Model.receive_duals", ["C22"], a_duals, "solve.py", "receive_duals", lambda o: "C22",
    [MODELS + ".Model.receive_duals"])


def a_processed(w, run):
    it = w.it
    expected, called = it.mkdict([]), []

    def results(i, a, k):
        given = dict(zip(("model", "remove_last_time_point"), a), **k)
        if set(given) - {"model", "remove_last_time_point"}:
            i.unsupported("arguments of processing.results")
        called.append((given.get("model"), given.get("remove_last_time_point", False)))
        return expected
    it.contracts["oemof.solph.processing.results"] = results
    it.models["warnings"].attrs["warn"] = Builtin("warn", lambda i, a, k: None)
    return lambda it: it.call(it.getattr_(w.m, "results"), [], {}), lambda r: [
        r, w.m, expected] + list(called[0] if len(called) == 1 else (None, False))


UNITS["Model.results"] = Unit(
    "Model.results", ["C22"], a_processed, "solve.py", "processed", lambda o: "C22",
    [MODELS + ".Model.results"])
