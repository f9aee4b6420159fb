"""Symbolic arguments of functions: what users may pass.

A parameter of the API is nothing, a number or a series (a list; arrays and
pandas objects are covered by the concrete runs)."""

import ast

from . import terms as tm
from .interp import (Builtin, ExcVal, Fam, Inst, LamSeq, MISSING, NativeClass, Opaque, Seq,
                     SymSeq, T, U, Unsupported, subst_value)
from .terms import FALSE, TRUE


class InSeq(SymSeq):
    """a list of numbers with at least one element"""
    __slots__ = ("n",)
    NAMES = ("list", "Iterable", "Sequence", "Sized", "Collection", "Container")
    ABSENT = ("freq",)       # only points in time have a frequency

    def __init__(self, name, n, key=(), sort="R"):
        super().__init__(name, key, sort)
        self.n = n

    def length(self, it):
        return self.n

    def iterate(self, it):
        k = tm.fresh("k", "I")
        sv = it.pc
        it.pc = tm.and_(sv, self.range(k))
        v = self.at(k)
        it.pc = sv
        return Seq([Fam((k,), self.range(k), v)])

    def range(self, k):
        return tm.and_(tm.le(tm.ZERO, k), tm.lt(k, self.n))

    def isinstance_(self, it, c):
        return tm.boolc(str(getattr(c, "name", c)).split(".")[-1] in self.NAMES)

    def truth(self, it):
        return TRUE

    def eq_(self, it, a, b):
        if a is b:
            return TRUE
        o = b if a is self else a
        if isinstance(o, (int, float, str, T, Inst)):
            return FALSE
        it.unsupported("equality of series")

    def attr(self, it, name):
        if name == "__len__":
            return Builtin("__len__", lambda i, a, k: self.n)
        return MISSING

    def extremum(self, which):
        return tm.app("%s:%s" % (which, self.name), self.key, self.sort)

    def subst(self, m):
        return InSeq(self.name, tm.subst(self.n, m), tuple(tm.subst(x, m) for x in self.key),
                     self.sort)


class NdSeq(InSeq):
    """np.array of a series"""
    __slots__ = ("src",)
    NAMES = ("ndarray", "Iterable", "Sized", "Collection", "Container")

    def __init__(self, src):
        super().__init__(src.name, src.n, src.key, src.sort)
        self.src = src

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def at(self, t):
        return self.src.at(t)

    def truth(self, it):
        """ambiguous unless there is exactly one element"""
        it.raise_if(tm.not_(tm.eq(self.n, tm.ONE)), ExcVal("ValueError", ("ambiguous truth",)))
        return it.truth(it.getitem(self, tm.ZERO))

    def eq_(self, it, a, b):
        it.unsupported("comparison of arrays")

    def compare(self, it, op, a, b):
        return elementwise(it, self.n, lambda *v: it.compare(op, *v, None), a, b)

    def getitem(self, it, ix):
        if isinstance(ix, tuple):
            if not ix or ix[0] == "slice" or any(isinstance(x, tuple) for x in ix):
                it.unsupported("slice of an array")
            x = self
            for i in ix:
                x = it.getitem(x, i)
            return x
        t = it.term(ix)
        if it.decide(tm.lt(t, tm.ZERO)) is True:
            t = tm.add(self.n, t)
        if it.bounds:
            it.raise_if(tm.not_(self.range(t)), ExcVal("IndexError"))
        return self.at(t)

    def attr(self, it, name):
        if name == "size":
            return self.n
        if name in ("min", "max"):
            return Builtin(name, lambda i, a, k: self.src.extremum(name))
        if name == "clip":
            def clip(i, a, k):
                v = dict(zip(("min", "max"), a), **k)
                v = {x.replace("a_", ""): y for x, y in v.items()}
                x = self
                for w, f in (("min", "max"), ("max", "min")):
                    if v.get(w) is not None:
                        x = elementwise(i, self.n, lambda *e, f=f: i.call(
                            i.models["builtins"].attrs[f], list(e), {}), x, v[w])
                return x
            return Builtin(name, clip)
        if name == "tolist":
            return Builtin(name, lambda i, a, k: self.iterate(i))
        return InSeq.attr(self, it, name)

    def subst(self, m):
        return NdSeq(subst_value(self.src, m))

    def binop(self, it, op, a, b):
        return arith(it, op, a, b, self)


class LamInSeq:
    """series defined by its elements"""

    def __init__(self, n, k, value):
        self.n, self.k, self.value = n, k, value
        self.name, self.key, self.sort = "lam", (), "R"

    def at(self, t):
        return subst_value(self.value, {self.k: t})

    def subst(self, m):
        return LamInSeq(tm.subst(self.n, m) if isinstance(self.n, T) else self.n, self.k,
                        subst_value(self.value, m))

    def extremum(self, which):
        raise Unsupported("extremum of a computed series")


def computed(it, n, body):
    """array of the values body(k), k = 0 .. n-1"""
    k = tm.fresh("k", "I")
    sv, bs = it.pc, it.binders
    it.pc = tm.and_(sv, tm.le(tm.ZERO, k), tm.lt(k, it.term(n)))
    it.binders = bs + (k,)
    v = body(k)
    it.pc, it.binders = sv, bs
    return NdSeq(LamInSeq(n, k, v))


def elementwise(it, n, f, *xs):
    return computed(it, n, lambda t: f(*[x.at(t) if isinstance(x, InSeq) else x for x in xs]))


def np_where(it, a, k):
    return it.lift(lambda *x: where_(it, x, k), *a)


def where_(it, a, k):
    from .data import Ages, PMatrix, Reached
    n = next((x.n for x in a if isinstance(x, InSeq)), None)
    if len(a) == 3 and isinstance(a[0], Reached) and isinstance(a[1], PMatrix) \
            and a[2] == float("inf") and not k:
        return Ages(a[0].years)
    if n is None or len(a) != 3 or k:
        it.unsupported("np.where")
    return elementwise(it, n, lambda c, x, y: it.merge(it.truth(c), x, y), *a)


def np_argmin(it, a, k):
    from .data import Ages
    if len(a) == 1 and isinstance(a[0], Ages) and k == {"axis": 1}:
        return a[0].argmin(it)
    it.unsupported("np.argmin")


def np_pairwise(which):
    def f(it, a, k):
        n = next((x.n for x in a if isinstance(x, InSeq)), None)
        g = lambda *v: it.call(it.models["builtins"].attrs[which], list(v), {})
        return g(*a) if n is None else elementwise(it, n, g, *a)
    return f


def arith(it, op, a, b, me):
    for x in (a, b):
        if isinstance(x, Inst) or not isinstance(op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
            return NotImplemented

    def body(t):
        va = a.at(t) if isinstance(a, InSeq) else a
        vb = b.at(t) if isinstance(b, InSeq) else b
        return it.binop(op, va, vb, None)
    return computed(it, me.n, body)


def series(it, name, sort="R"):
    n = tm.var("len:" + name, "I")
    s = InSeq(name, n, (), sort)
    th = it.theory
    th.facts.append(tm.le(tm.ONE, n))
    lo, hi = s.extremum("min"), s.extremum("max")
    th.axiom(name, lambda k: tm.implies(s.range(k), tm.and_(
        tm.le(lo, s.at(k)), tm.le(s.at(k), hi))))
    for w, e in (("lowest", lo), ("highest", hi)):
        k = tm.var("%s:%s" % (w, name), "I")
        th.facts.append(tm.and_(s.range(k), tm.eq(s.at(k), e)))
    return s


def keyed(it, name, key):
    """numbers or series, one for each key"""
    n = tm.app("len:" + name, key, "I")
    c = tm.app(name + ":is_series", key, "B")
    return U([(c, InSeq(name + "[]", n, key)), (tm.not_(c), tm.app(name, key, "R"))])


def choice(name, **kinds):
    """one of several kinds of arguments; the kind is an arbitrary choice"""
    cases, rest = [], TRUE
    ks = list(kinds.items())
    for k, v in ks[:-1]:
        c = tm.var("%s:is_%s" % (name, k), "B")
        cases.append((tm.and_(rest, c), v))
        rest = tm.and_(rest, tm.not_(c))
    cases.append((rest, ks[-1][1]))
    return U(cases) if len(cases) > 1 else cases[0][1]


def numeric(it, name, none=False, sort="R", series_=True, **more):
    """nothing, number or series"""
    k = {}
    if none:
        k["none"] = None
    if series_:
        k["series"] = series(it, name + "[]", sort)
    k.update(more)
    k["number"] = tm.var(name, sort)
    return choice(name, **k)


def boolean(name):
    return tm.var(name, "B")


# --------------------------------------------------------- contract language
def is_series(it, x):
    x = it.simp(x)
    if isinstance(x, U):
        return tm.or_(*[tm.and_(g, is_series(it, v)) for g, v in x.cases])
    return tm.boolc(isinstance(x, (InSeq, Seq, tuple)))


def extremum(it, x, which):
    def f(v):
        if isinstance(v, InSeq):
            return v.extremum(which)
        if isinstance(v, NdSeq):
            return v.src.extremum(which)
        if isinstance(v, (T, int, float)):
            return v
        h = it.attr_or_missing(v, which)
        if h is not MISSING:
            return it.call(h, [], {})
        it.unsupported("%s of %r" % (which, v))
    return it.lift(f, x)


def shortest(it, a, k):
    """number of steps all series have"""
    from .libmodel import guarded
    parts = []
    for x in a:
        x = it.simp(x)
        for c, v in (x.cases if isinstance(x, U) else [(TRUE, x)]):
            if isinstance(v, InSeq):
                parts.append(((), c, v.n))
            elif not isinstance(v, (T, int, float, Inst)):
                it.unsupported("length of %r" % (v,))
    return guarded(it, "min", parts, {"default": 3})


def steps(it, x):
    k = tm.fresh("k", "I")
    x = it.simp(x)
    g = tm.le(tm.ZERO, k)
    for c, v in (x.cases if isinstance(x, U) else [(TRUE, x)]):
        if isinstance(v, InSeq):
            g = tm.and_(g, tm.implies(c, tm.lt(k, v.n)))
        elif isinstance(v, (Seq, tuple)):
            return it.lift(lambda y: it.mkrange(tm.ZERO, it.term(it.length(y))), x)
    return Seq([Fam((k,), g, k)])
