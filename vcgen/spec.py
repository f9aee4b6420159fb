"""Contract language, symbolic side.

A contract is an ordinary python function (text in /verif/contracts) that
states, with the statements below, everything the verified function must have
put into the model.  The same text is executed by CPython against a concrete
Pyomo model in conc/native.py.

    require(prop, relation)               a constraint the model must contain
    variable(prop, var, domain=, lb=, ub=, fix=)
                                          final domain/bounds/fixing of a variable
    equal(prop, a, b, what)               two expressions/values agree
    holds(prop, condition, what)          a fact about the result
"""

import time

from . import terms as tm
from .interp import (Builtin, Dead, Effect, ExcVal, Fam, Frame, Env, Interp, Inst,
                     MISSING, ModuleVal, Obj, Opaque, Rel, Row, Seq, SDict, SList,
                     Solver, T, Theory, U, UNDEF, Unsupported)
from .libmodel import PVar, DOMAINS, add_row, models, to_key
from .oblig import Ob, Prover
from .terms import FALSE, TRUE

NOFIX = Opaque("NOFIX")

# integrality, lower, upper bound of a Pyomo domain
DOMAIN_BOUNDS = {
    "Reals": ("R", None, None),
    "NonNegativeReals": ("R", 0, None),
    "NonPositiveReals": ("R", None, 0),
    "PositiveReals": ("R", 0, None),
    "UnitInterval": ("R", 0, 1),
    "PercentFraction": ("R", 0, 1),
    "Integers": ("Z", None, None),
    "NonNegativeIntegers": ("Z", 0, None),
    "Binary": ("Z", 0, 1),
    "Boolean": ("Z", 0, 1),
}


class SpecVar:
    def __init__(self, prop, ref, dom, lb, ub, fix, guard, binders):
        self.prop, self.ref, self.dom = prop, ref, dom
        self.lb, self.ub, self.fix = lb, ub, fix
        self.guard, self.binders = guard, tuple(binders)


class SpecEq:
    def __init__(self, prop, a, b, what, guard, binders):
        self.prop, self.a, self.b, self.what = prop, a, b, what
        self.guard, self.binders = guard, tuple(binders)


class SpecHolds:
    def __init__(self, prop, c, what, guard, binders):
        self.prop, self.c, self.what = prop, c, what
        self.guard, self.binders = guard, tuple(binders)


class Sink:
    """records what a contract states"""

    def __init__(self):
        self.rows, self.vars, self.eqs, self.holds = [], [], [], []
        self.pc_after = TRUE

    def builtins(self, it):
        sink = self

        def require(i, a, k):
            prop, rel = a[0], a[1]
            before = len(i.rows)
            add_row(i, rel, "spec")
            for r in i.rows[before:]:
                r.tag = prop

        def variable(i, a, k):
            prop, ref = a[0], a[1]
            i.effects.append(Effect("specvar", prop, (
                ref, k.get("domain", "Reals"), k.get("lb"), k.get("ub"),
                k.get("fix", NOFIX)), i.pc, i.binders, i.where))

        def equal(i, a, k):
            i.effects.append(Effect("speceq", a[0], (
                a[1], a[2], a[3] if len(a) > 3 else k.get("what", "value")),
                i.pc, i.binders, i.where))

        def holds(i, a, k):
            c = i.truth(a[1])
            i.effects.append(Effect("specholds", a[0], (
                c, a[2] if len(a) > 2 else "condition"), i.pc, i.binders, i.where))

        def first(i, a, k):
            return i.seq_index(i.lift_iter(a[0], None), 0, None)

        def at(i, a, k):
            from .callee import element
            return i.lift(lambda x: i.getitem(x, a[1]) if isinstance(x, Seq)
                          else element(i, x, a[1]), i.simp(a[0]))

        from . import inputs as inp
        from .libmodel import isinst, _isfinite

        def rejects(i, a, k):
            i.raise_if(i.truth(a[1]), ExcVal("<rejected>", (a[0], a[2] if len(a) > 2 else "call")))

        def returned(i, a, k):
            i.raise_if(tm.not_(sink.pc_after), ExcVal("<not returned>"))

        def is_class(i, a, k):
            def f(x):
                return i.pybool(tm.boolc(getattr(x, "name", None) == a[1]))
            return i.lift(f, a[0])

        d = {"rejects": rejects, "returned": returned,
             "is_series": lambda i, a, k: i.pybool(inp.is_series(i, a[0])),
             "steps": lambda i, a, k: inp.steps(i, a[0]),
             "shortest": inp.shortest,
             "lowest": lambda i, a, k: inp.extremum(i, a[0], "min"),
             "highest": lambda i, a, k: inp.extremum(i, a[0], "max"),
             "finite": _isfinite,
             "number": lambda i, a, k: i.pybool(isinst(i, a[0], Opaque("Real"))),
             "is_a": lambda i, a, k: i.pybool(isinst(i, a[0], Opaque(a[1]))),
             "is_class": is_class,
             "at": at, "first": first, "require": require, "variable": variable, "equal": equal, "holds": holds}
        from . import order, units_times
        d["ordered"] = lambda i, a, k: order.ordered(i, *a)
        d["before"] = units_times.before
        from .libmodel import pieces
        d["pieces"] = pieces
        d["count"] = units_times.count
        d["typical"] = units_times.typical
        from . import pdmodel
        for _n in ("hours", "regular", "one_more", "new_year", "year_hours"):
            d[_n] = getattr(pdmodel, _n)
        d["groupings_of"] = lambda i, a, k: i.getattr_(a[0], "_groupings")
        for _n in ("year", "start", "stop"):
            d[_n] = getattr(units_times, _n)
        out = {n: Builtin(n, f) for n, f in d.items()}
        out["NOFIX"] = NOFIX
        out["has"] = Builtin("has", lambda i, a, k: i.models["builtins"].attrs["hasattr"].fn(i, a, k))
        out["product"] = it.models["math"].attrs["prod"]
        out["annuity"] = i_annuity(it)
        return out


def i_annuity(it):
    return it.models["oemof.tools.economics"].attrs["annuity"]


class Run:
    """one symbolic execution of a unit: code first, then its contract"""

    def __init__(self, src):
        self.it = Interp(src, Theory(), models())
        self.uncaught = []

    def code(self, f):
        """run f(it); returns value.  Uncaught exceptions are collected."""
        it = self.it
        it.exc_stack = [[]]
        self.pc_before = it.pc
        try:
            v = f(it)
        except Dead:
            v = None
        self.uncaught = [(g, e) for g, e in it.exc_stack[0]
                         if g is not FALSE and not it.solver.infeasible(g)]
        self.pc_after = it.pc
        self.code_rows, self.code_effects = it.rows, it.effects
        it.rows, it.effects = [], []
        return v

    def load_contract(self, text, path):
        it = self.it
        name = "contract:" + path
        if name not in it.modules:
            sink = Sink()
            sink.pc_after = getattr(self, "pc_after", TRUE)
            mod_pre = sink.builtins(it)
            bi = it.models["builtins"].attrs
            for k, v in mod_pre.items():
                bi[k] = v
            it.load_source(name, text, path)
            if any(name in n for n in it.notes):
                raise Unsupported("contract module: %s" % it.notes[-1])
        return name

    def assume(self, qual, text, path, fn, args):
        """calls of `qual` (itself checked elsewhere) are replaced by the
        rows its contract `fn` states"""
        name = self.load_contract(text, path)

        def callee(it, a, k):
            it.call(it.modules[name].attrs[fn], list(args), {})
            return None
        self.it.contracts[qual] = callee

    def contract(self, text, path, fn, args, extra=None):
        it = self.it
        name = self.load_contract(text, path)
        it.exc_stack = [[]]
        it.rows, it.effects = [], []
        c = it.modules[name].attrs[fn]
        saved = it.contracts
        it.contracts = {}
        self.rejecting = "rejects(" in text and "returned(" in text
        if self.rejecting:
            # the contract decides itself when the function returns
            it.pc = self.pc_before
        if it.pc is FALSE:
            it.pc = TRUE
        pc0 = it.pc
        ex0 = dict(it.executed)
        it.spec_mode = True
        try:
            it.call(c, list(args), dict(extra or {}))
        except Dead:
            pass
        it.spec_mode = False
        it.contracts = saved
        it.executed = ex0
        it.pc = pc0
        bad = [(g, e) for g, e in it.exc_stack[0]
               if g is not FALSE and not it.solver.infeasible(g)]
        self.spec_rejects = [(g, e.args) for g, e in bad if e.cls == "<rejected>"]
        bad = [(g, e) for g, e in bad if e.cls not in ("<rejected>", "<not returned>")]
        if bad:
            raise Unsupported("contract %s raises %r" % (fn, bad[0]))
        self.spec_rows = it.rows
        eff = it.effects
        it.rows, it.effects = [], []
        self.spec_vars, self.spec_eqs, self.spec_holds = [], [], []
        for e in eff:
            if e.kind == "specvar":
                ref, dom, lb, ub, fix = e.args
                self.spec_vars.append(SpecVar(e.target, ref, dom, lb, ub, fix,
                                              e.guard, e.binders))
            elif e.kind == "speceq":
                self.spec_eqs.append(SpecEq(e.target, e.args[0], e.args[1], e.args[2],
                                            e.guard, e.binders))
            elif e.kind == "specholds":
                self.spec_holds.append(SpecHolds(e.target, e.args[0], e.args[1],
                                                 e.guard, e.binders))
            else:
                raise Unsupported("contract has an effect: %r" % (e,))


# ------------------------------------------------------------- obligations
def short(t, n=300):
    s = str(t)
    return s if len(s) <= n else s[:n] + "..."


def obligations(run, unit, owner_prop, seconds=60):
    """list of Ob for one finished run"""
    it = run.it
    pv = Prover(it)
    pv.deadline = time.time() + seconds
    obs = []

    def ob(prop, text, status, t0, detail=""):
        o = Ob("%s/%d" % (unit, len(obs) + 1), prop, unit, text)
        if status == "failed" and time.time() > pv.deadline:
            status = "timeout"
        o.status, o.detail = status, detail
        o.time = time.time() - t0
        obs.append(o)
        return o

    # --- the function returns normally under its precondition
    t0 = time.time()
    if run.rejecting:
        rejections(run, ob, owner_prop)
    elif run.uncaught:
        g, e = run.uncaught[0]
        ob(owner_prop(None), "no exception escapes", "refuted", t0,
           "%r when %s" % (e, short(g, 800)))
    else:
        ob(owner_prop(None), "no exception escapes", "proved", t0)

    code_rows = expand(it, run.code_rows)
    code_rows = merge_rows(it, code_rows)
    spec_rows = expand(it, run.spec_rows)
    virtual = trivial_rows(it)
    code0, spec0 = code_rows, spec_rows
    code_rows = [pv.normalise(r) for r in code_rows]
    spec_rows = [pv.normalise(r) for r in spec_rows]
    code_alt = [a for a, b in zip(code0, code_rows) if a is not b]
    spec_alt = [a for a, b in zip(spec0, spec_rows) if a is not b]
    # --- every required row is there
    for s in spec_rows:
        t0 = time.time()
        ok, rem = pv.covers(s, code_rows + virtual + code_alt)
        txt = "row required: %s %s 0 when %s" % (short(s.expr), s.kind, short(s.guard))
        if ok:
            ob(s.tag, txt, "proved", t0)
        else:
            ob(s.tag, txt, "failed", t0, "not covered when %s" % short(rem, 900))
    # --- and nothing else
    vspec = virtual_spec(it)
    for c in code_rows:
        t0 = time.time()
        ok, rem = pv.covers(c, spec_rows + vspec + spec_alt)
        txt = "row allowed [%s]: %s %s 0 when %s" % (c.owner, short(c.expr), c.kind, short(c.guard))
        if ok:
            ob(owner_prop(c.owner), txt, "proved", t0)
        else:
            ob(owner_prop(c.owner), txt, "failed", t0, "not required when %s" % short(rem, 900))
    # --- variables
    variables(run, pv, ob, owner_prop)
    # --- values
    for s in run.spec_eqs:
        t0 = time.time()
        ok = val_equal(it, pv, s.guard, s.a, s.b)
        ob(s.prop, "%s as specified" % (s.what,), "proved" if ok else "failed", t0,
           "" if ok else "%s  vs  %s  when %s" % (short(s.a, 1500), short(s.b, 1500), short(s.guard)))
    for s in run.spec_holds:
        t0 = time.time()
        ok = it.solver.entails(s.guard, s.c)
        ob(s.prop, "%s" % (s.what,), "proved" if ok else "failed", t0,
           "" if ok else "%s when %s" % (short(s.c, 1500), short(s.guard)))
    return obs


def rejections(run, ob, owner_prop):
    """an error is raised if and only if the contract says so"""
    it = run.it
    wanted = tm.or_(*[g for g, _ in run.spec_rejects])
    raised = tm.or_(*[g for g, _ in run.uncaught])
    for g, e in run.uncaught:
        t0 = time.time()
        left = tm.and_(g, tm.not_(wanted))
        ok = left is FALSE or it.solver.infeasible(left)
        ob(owner_prop(None), "error only for arguments that are to be rejected: %r" % (e,),
           "proved" if ok else "failed", t0, "" if ok else "when %s" % short(left, 900))
    if not run.uncaught:
        ob(owner_prop(None), "no error for arguments that are fine", "proved", time.time())
    for g, (prop, what) in run.spec_rejects:
        t0 = time.time()
        left = tm.and_(g, tm.not_(raised))
        ok = left is FALSE or it.solver.infeasible(left)
        ob(prop, "rejected: %s" % what, "proved" if ok else "failed", t0,
           "" if ok else "no error when %s" % short(left, 900))


def val_equal(it, pv, pc, a, b):
    sv = it.pc
    it.pc = pc
    try:
        ca, cb = it.cases(a), it.cases(b)
    except Dead:
        it.pc = sv
        return True
    finally:
        it.pc = sv
    for g, x in ca:
        for h, y in cb:
            p = tm.and_(pc, g, h)
            if p is FALSE or it.solver.infeasible(p):
                continue
            if x is None or y is None:
                if x is not y:
                    return False
                continue
            if isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
                if type(x) is type(y):
                    if x != y:
                        return False
                    continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y) or not all(val_equal(it, pv, p, u, v) for u, v in zip(x, y)):
                    return False
                continue
            if hasattr(x, "at") and hasattr(y, "at") and not isinstance(x, T) and not isinstance(y, T):
                k = tm.fresh("ix", "I")
                if not val_equal(it, pv, p, x.at(k), y.at(k)):
                    return False
                continue
            if isinstance(x, Obj) and isinstance(y, Obj):
                if x.kind != y.kind or not all(
                        it.solver.entails(p, tm.eq(u, v)) for u, v in zip(x.key, y.key)):
                    return False
                continue
            it.pc = p
            try:
                tx, ty = it.term(x), it.term(y)
            except (Dead, Unsupported):
                if x is y:
                    continue
                return False
            finally:
                it.pc = sv
            if tx.sort == "B" or ty.sort == "B":
                if tx.sort != ty.sort:
                    return False
                if not it.solver.entails(p, tm.eq(tx, ty)):
                    return False
                continue
            if not (tm.is_num_sort(tx.sort) and tm.is_num_sort(ty.sort)):
                if tx.sort != ty.sort or not it.solver.entails(p, tm.eq(tx, ty)):
                    return False
                continue
            if not pv.zero(p, tm.sub(tx, ty)):
                return False
    return True


def expand(it, rows):
    """split disjunctive/ite guards lightly; drop infeasible rows"""
    out = []
    for r in rows:
        if r.kind == "bool":
            # a constant relation: Pyomo rejects it, unless the code filtered
            out.append(Row("==", tm.ite(r.expr, tm.ZERO, tm.ONE), r.guard, r.owner,
                           r.tag, r.where, r.binders))
            continue
        if r.guard is FALSE or it.solver.infeasible(r.guard):
            continue
        out.append(r)
    return out


def merge_rows(it, rows):
    return rows


def trivial_rows(it):
    """`expr is True` tests: under the guard atom the relation holds"""
    out = []
    for b, kind, ex, val in getattr(it, "trivials", []):
        if val is True:
            r = Row(kind, ex, b, "trivially true", binders=tuple(v for v in ex.fv if "!" in v.args[0]))
            out.append(r)
    return out


def virtual_spec(it):
    return []


# --------------------------------------------------------------- variables
class Final:
    """final state of a variable, as a fold over the writes to it"""

    def __init__(self, it, effects):
        self.it = it
        self.by = {}
        for e in effects:
            if e.kind in ("domain", "lb", "ub", "fix", "value"):
                self.by.setdefault(e.target.args[0], []).append(e)

    def match(self, e, ref):
        """(condition, substitution, rest-binders) under which e writes ref"""
        it = self.it
        bs = set(e.binders)
        m = {}
        conds = []
        for a, b in zip(e.target.args[1:], ref.args[1:]):
            a = tm.subst(a, m)
            if a in bs and a not in m:
                m[a] = b
            else:
                un = tuple(v for v in a.fv if v in bs and v not in m)
                s = tm.solve_point(tm.eq(a, b), un) if un and a.sort == b.sort else None
                if s is not None:
                    m[s[0]] = s[1]
                else:
                    conds.append((a, b))
        c = tm.and_(*[tm.eq(tm.subst(a, m), b) for a, b in conds])
        g = tm.subst(e.guard, m)
        # equalities in the guard may determine the remaining binders
        changed = True
        while changed:
            changed = False
            free = tuple(b for b in e.binders if b not in m and b in g.fv)
            for q in tm.conj(g):
                s = tm.solve_point(q, free) if free else None
                if s is not None:
                    m[s[0]] = s[1]
                    g = tm.subst(g, {s[0]: s[1]})
                    changed = True
                    break
        free = tuple(b for b in e.binders if b not in m and (b in g.fv or any(
            isinstance(x, T) and b in x.fv for x in e.args)))
        return tm.and_(c, g), m, free

    def state(self, ref):
        """ordered writes applicable to ref: [(kind, cond, value)]"""
        out = []
        for e in self.by.get(ref.args[0], ()):
            c, m, free = self.match(e, ref)
            vals = [tm.subst(x, m) if isinstance(x, T) else x for x in e.args]
            if free:
                if any(isinstance(x, T) and (x.fv & set(free)) for x in vals):
                    raise Unsupported("bound written several times by %r" % (e,))
                c = tm.exists(free, c, TRUE)
            if c is FALSE:
                continue
            out.append((e.kind, c, vals))
        return out


def domkey(d):
    nm = d if isinstance(d, str) else getattr(d, "name", str(d))
    return nm.split(".")[-1]


def variables(run, pv, ob, owner_prop):
    it = run.it
    fin = Final(it, run.code_effects)
    for s in run.spec_vars:
        t0 = time.time()
        bad = None
        sv = it.pc
        it.pc = s.guard
        try:
            ref = s.ref.as_term() if isinstance(s.ref, PVar) else it.term(s.ref)
            st = fin.state(ref)
            bad = check_var(it, pv, s, ref, st)
        except Dead:
            bad = None
        except Unsupported as e:
            bad = "undecided: %s" % e
        finally:
            it.pc = sv
        txt = "variable %s: domain %s lb %s ub %s fix %s when %s" % (
            short(s.ref), s.dom, short(s.lb), short(s.ub), short(s.fix), short(s.guard))
        ob(s.prop, txt, "proved" if bad is None else "failed", t0, bad or "")
    # every variable created or written is specified
    for e in run.code_effects:
        if e.kind not in ("domain", "lb", "ub", "fix", "value"):
            continue
        if it.solver.infeasible(e.guard):
            continue
        t0 = time.time()
        rem = e.guard
        for s in run.spec_vars:
            sv = it.pc
            it.pc = s.guard
            try:
                ref = s.ref.as_term() if isinstance(s.ref, PVar) else it.term(s.ref)
            except Dead:
                it.pc = sv
                continue
            it.pc = sv
            if ref.args[0] != e.target.args[0]:
                continue
            f = Final(it, [])
            x = Effect("domain", ref, (), s.guard, s.binders)
            c, m, free = f.match(x, e.target)
            c = tm.exists(free, c, TRUE)
            rem = tm.and_(rem, tm.not_(c))
            if rem is FALSE or it.solver.infeasible(rem):
                rem = FALSE
                break
        ob(owner_prop(e.target.args[0]), "write of %s to %s is specified" % (e.kind, e.target),
           "proved" if rem is FALSE else "failed", t0,
           "" if rem is FALSE else "unspecified when %s" % short(rem, 900))


def check_var(it, pv, s, ref, st):
    pc = s.guard
    # exists with the right domain
    doms = [(c, v[0]) for k, c, v in st if k == "domain"]
    ex = tm.or_(*[c for c, _ in doms])
    if ref.args[0] != "flow" or doms:
        if not it.solver.entails(pc, ex):
            return "variable does not exist when %s" % short(tm.and_(pc, tm.not_(ex)))
    want, dlo, dhi = DOMAIN_BOUNDS[domkey(s.dom)]
    dcases = doms or [(TRUE, "Reals")]
    for c, d in dcases:
        p0 = tm.and_(pc, c)
        if it.solver.infeasible(p0):
            continue
        got, lo, hi = DOMAIN_BOUNDS[domkey(d)]
        if got != want:
            return "domain %s instead of %s" % (domkey(d), s.dom)
        # fixing
        fixed = tm.or_(*[c2 for k, c2, _ in st if k == "fix"])
        if s.fix is NOFIX:
            if not it.solver.infeasible(tm.and_(p0, fixed)):
                return "fixed when %s" % short(tm.and_(p0, fixed))
        else:
            if not it.solver.entails(p0, fixed):
                return "not fixed when %s" % short(tm.and_(p0, tm.not_(fixed)))
            val = UNDEF
            for k, c2, v in st:
                if k == "value":
                    val = it.merge(c2, v[0], val)
            if not val_equal(it, pv, p0, val, s.fix):
                return "fixed to %s instead of %s" % (short(val), short(s.fix))
            continue
        for kind, dom_b, want_dom, want_b in (("lb", lo, dlo, s.lb), ("ub", hi, dhi, s.ub)):
            cur = None
            for k, c2, v in st:
                if k == kind:
                    cur = it.merge(c2, v[0], cur)
            if not bound_equal(it, pv, p0, kind, eff(it, p0, kind, cur, dom_b),
                               eff(it, p0, kind, want_b, want_dom)):
                return "%s is %s instead of %s when %s" % (kind, short(cur), short(want_b), short(p0))
    return None


def eff(it, pc, kind, b, dom):
    """effective bound cases: [(cond, None|term)]"""
    out = []
    sv = it.pc
    it.pc = pc
    try:
        cs = it.cases(b)
        for g, x in cs:
            if x is None:
                out.append((g, None if dom is None else tm.num(dom)))
                continue
            it.pc = tm.and_(pc, g)
            try:
                t = it.term(x)
            except Dead:
                continue
            finally:
                it.pc = pc
            # an infinite bound is no bound
            p = tm.to_poly(t)
            if len(p) == 1 and ((tm.INF, 1),) in p:
                out.append((g, None if dom is None else tm.num(dom)))
                continue
            if dom is not None:
                d = tm.num(dom)
                c = tm.le(t, d)
                t = tm.ite(c, d, t) if kind == "lb" else tm.ite(c, t, d)
            out.append((g, t))
    except Dead:
        pass
    finally:
        it.pc = sv
    return out


def bound_equal(it, pv, pc, kind, a, b):
    for g, x in a:
        for h, y in b:
            p = tm.and_(pc, g, h)
            if p is FALSE or it.solver.infeasible(p):
                continue
            if x is None or y is None:
                if x is not y:
                    return False
                continue
            if not pv.zero(p, tm.sub(x, y)):
                return False
    return True
