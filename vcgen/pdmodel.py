"""The pandas objects the time structure is built with.

A point in time is a number of hours.  An index with a frequency is a series
of points, each of which is the successor of the previous one; the frequency
(a successor function) is given or can be inferred."""

import ast

from . import inputs as inp, terms as tm
from .inputs import InSeq, LamInSeq, NdSeq, computed
from .interp import (Builtin, ExcVal, Fam, Inst, MISSING, NativeClass, Opaque, Seq, T, U,
                     SymStr, Unsupported, subst_value)
from .terms import FALSE, TRUE


def _span(a, b):
    return Delta(tm.sub(a.x, b.x))


class Moment:
    """a point in time: hours"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Moment) and o.x is self.x

    def __hash__(self):
        return hash(self.x)

    def subst(self, m):
        return Moment(tm.subst(self.x, m))

    def attr(self, it, name):
        return MISSING

    def eq_(self, it, a, b):
        if isinstance(a, Moment) and isinstance(b, Moment):
            return tm.eq(a.x, b.x)
        it.unsupported("comparison of a point in time")

    def compare(self, it, op, a, b):
        if isinstance(a, Moment) and isinstance(b, Moment):
            return it.compare(op, a.x, b.x, None)
        it.unsupported("comparison of a point in time")

    def binop(self, it, op, a, b):
        if isinstance(op, ast.Sub) and isinstance(a, Moment) and isinstance(b, Moment):
            return _span(a, b)
        if isinstance(a, Moment) and b is None or isinstance(b, Moment) and a is None:
            it.raise_(ExcVal("TypeError"))
        if isinstance(op, ast.Add):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Moment) and isinstance(y, Freq):
                    return Moment(y.next(x.x))
                if isinstance(x, Moment) and isinstance(y, Delta):
                    return Moment(tm.add(x.x, y.x))
        it.unsupported("arithmetic with a point in time")


class Delta:
    """a span of time: hours"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Delta) and o.x is self.x

    def __hash__(self):
        return hash(self.x)

    def subst(self, m):
        return Delta(tm.subst(self.x, m))

    def attr(self, it, name):
        if name == "total_seconds":
            return Builtin(name, lambda i, a, k: tm.mul(tm.num(3600), self.x))
        return MISSING

    def compare(self, it, op, a, b):
        if isinstance(a, Delta) and isinstance(b, Delta):
            return it.compare(op, a.x, b.x, None)
        it.raise_(ExcVal("TypeError"))

    def binop(self, it, op, a, b):
        if isinstance(op, ast.Div) and isinstance(a, Delta):
            if isinstance(b, Delta):
                return it.binop(op, a.x, b.x, None)
            if isinstance(b, (T, int, float)):
                return Delta(it.term(it.binop(op, a.x, b, None)))
        if isinstance(op, ast.Div):
            it.raise_(ExcVal("TypeError"))          # number / span
        it.unsupported("arithmetic with a span of time")


class Freq:
    """frequency of a time index"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Freq) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def next(self, x):
        return tm.app("next:" + self.name, (x,), "R")

    def subst(self, m):
        return self

    def attr(self, it, name):
        return MISSING

    def truth(self, it):
        return TRUE

    def eq_(self, it, a, b):
        if a is b:
            return TRUE
        it.unsupported("comparison of frequencies")


class TimeIndex(InSeq):
    """pd.DatetimeIndex; given: it has a frequency from the start; known: the
    frequency can be inferred"""
    __slots__ = ("state", "given", "known", "src")
    NAMES = ("DatetimeIndex", "Index", "Iterable", "Sized", "Collection", "Container")

    def __init__(self, name, n):
        super().__init__(name, n)
        self.src = None
        self.given, self.known = tm.var(name + ":freq", "B"), tm.var(name + ":inferable", "B")
        self.state = Inst(NativeClass("DatetimeIndexState"))

    def start(self, it):
        it.setattr_(self.state, "freq", it.merge(self.given, Freq(self.name), None))
        th = it.theory
        th.facts.append(tm.le(tm.num(2), self.n))
        regular = tm.or_(self.given, self.known)
        up = tm.var(self.name + ":up", "B")
        nxt = lambda x: tm.app("next:" + self.name, (x,), "R")
        th.axiom(self.name, lambda j: tm.implies(
            tm.and_(regular, tm.le(tm.ZERO, j), tm.lt(tm.add(j, tm.ONE), self.n)),
            tm.and_(tm.eq(self.x(tm.add(j, tm.ONE)), nxt(self.x(j))),
                    tm.ite(up, tm.lt(self.x(j), self.x(tm.add(j, tm.ONE))),
                           tm.lt(self.x(tm.add(j, tm.ONE)), self.x(j))))))
        # the steps of a frequency all have the same direction
        th.axiom("next:" + self.name, lambda x: tm.ite(up, tm.lt(x, nxt(x)), tm.lt(nxt(x), x)))
        # what monotonic means, with a witness of a step back
        mono, k = self.monotonic(), tm.var(self.name + ":back", "I")
        th.axiom(self.name, lambda j: tm.implies(
            tm.and_(mono, tm.le(tm.ZERO, j), tm.lt(tm.add(j, tm.ONE), self.n)),
            tm.le(self.x(j), self.x(tm.add(j, tm.ONE)))))
        th.facts.append(tm.or_(mono, tm.and_(
            tm.le(tm.ZERO, k), tm.lt(tm.add(k, tm.ONE), self.n),
            tm.lt(self.x(tm.add(k, tm.ONE)), self.x(k)))))
        # x(0) <= x(1) = next(x(0))
        th.facts.append(tm.implies(tm.and_(mono, regular), up))
        return self

    def subst(self, m):
        return self

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def x(self, t):
        return tm.app(self.name, (t,), "R")

    def at(self, t):
        return Moment(self.x(t))

    def getitem(self, it, ix):
        return position(it, self, ix)

    def attr(self, it, name):
        if name == "freq":
            return it.getattr_(self.state, "freq")
        if name == "is_monotonic_increasing":
            return it.pybool(self.monotonic())
        if name == "union":
            return Builtin(name, self.union)
        if name == "size":
            return self.n
        return MISSING

    def monotonic(self):
        return tm.var(self.name + ":monotonic", "B")

    def setattr_(self, it, name, v):
        if name != "freq":
            it.unsupported("attribute %s of an index" % name)
        it.setattr_(self.state, "freq", v)

    def union(self, it, a, k):
        o = it.simp(a[0])
        if isinstance(o, U):
            return it.lift(lambda x: self.union(it, [x], k), o)
        if not isinstance(o, OnePoint) or k:
            it.unsupported("union of indices")
        last = self.x(tm.sub(self.n, tm.ONE))
        if not it.solver.entails(it.pc, tm.and_(self.monotonic(), tm.lt(last, o.x))):
            it.unsupported("union of indices that are not in order")
        return MoreIndex(self, o.x)


class MoreIndex(InSeq):
    """a time index and one more point"""
    __slots__ = ("src", "last")
    NAMES = TimeIndex.NAMES

    def __init__(self, src, last):
        super().__init__(src.name + "+", tm.add(src.n, tm.ONE))
        self.src, self.last = src, last

    def subst(self, m):
        return MoreIndex(self.src, tm.subst(self.last, m))

    def __eq__(self, o):
        return isinstance(o, MoreIndex) and (o.src, o.last) == (self.src, self.last)

    def __hash__(self):
        return hash((self.src, self.last))

    def at(self, t):
        return Moment(tm.ite(tm.lt(t, self.src.n), self.src.x(t), self.last))

    def getitem(self, it, ix):
        return position(it, self, ix)

    def attr(self, it, name):
        return self.n if name == "size" else MISSING


class Steps(InSeq):
    """points in time of equal distance"""
    __slots__ = ("first", "step")
    NAMES = TimeIndex.NAMES

    def __init__(self, first, step, n):
        super().__init__("steps", n)
        self.first, self.step = first, step

    def subst(self, m):
        return Steps(*[tm.subst(x, m) for x in (self.first, self.step, self.n)])

    def __eq__(self, o):
        return isinstance(o, Steps) and (o.first, o.step, o.n) == (self.first, self.step, self.n)

    def __hash__(self):
        return hash((self.first, self.step, self.n))

    def at(self, t):
        return Moment(tm.add(self.first, tm.mul(t, self.step)))

    def getitem(self, it, ix):
        return position(it, self, ix)

    def attr(self, it, name):
        return self.n if name == "size" else MISSING


def new_year(it, a, k):
    """the first hour of a year"""
    return it.lift(lambda y: Moment(tm.app("newyear", (it.term(y),), "R")), a[0])


def year_hours(it, a, k):
    """24 hours times 365 or 366 days"""
    return it.lift(lambda y: tm.ite(tm.app("isleap", (it.term(y),), "B"), tm.num(24 * 366),
                                    tm.num(24 * 365)), a[0])


class OnePoint:
    """index with a single point in time"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, OnePoint) and o.x is self.x

    def __hash__(self):
        return hash(self.x)

    def subst(self, m):
        return OnePoint(tm.subst(self.x, m))

    def attr(self, it, name):
        return MISSING


def position(it, x, ix):
    if isinstance(ix, tuple):
        it.unsupported("slice of an index")
    t = it.term(ix)
    if it.decide(tm.lt(t, tm.ZERO)) is True:
        t = tm.add(x.n, t)
    return x.at(t)


def infer_freq(it, a, k):
    def f(x):
        if not isinstance(x, TimeIndex):
            it.raise_(ExcVal("TypeError"))
        it.raise_if(tm.lt(x.n, tm.num(3)), ExcVal("ValueError"))
        return it.merge(tm.or_(x.given, x.known), Freq(x.name), None)
    return it.lift(f, a[0])


def date_range(it, a, k):
    v = dict(zip(("start", "end", "periods", "freq"), a), **k)
    one = it.simp(v.get("periods")) == 1 and v.get("end") is None
    n, freq = v.get("periods"), it.simp(v.get("freq"))
    step = None
    if isinstance(freq, SymStr) and len(freq.parts) == 2 and freq.parts[1] in ("h", "H"):
        step = it.term(freq.parts[0])

    def f(s):
        if isinstance(s, Moment) and one:
            return OnePoint(s.x)
        if isinstance(s, SymStr) and len(s.parts) == 2 and s.parts[0] == "1/1/":
            s = new_year(it, [s.parts[1]], {})
        if isinstance(s, Moment) and step is not None and n is not None and v.get("end") is None:
            return Steps(s.x, step, it.term(n))
        it.unsupported("date_range")
    return it.lift(f, v.get("start"))


# ------------------------------------------------------- one column of values
class Nan(Opaque):
    def eq_(self, it, a, b):
        return FALSE


NAN = Nan("nan")


class Column:
    """Series or DataFrame with one column: values at positions 0 .. n-1; the
    first label is `base`; the first `nans` values are missing"""

    def __init__(self, n, at, base=0, nans=0, frame=False):
        self.n, self.f, self.base, self.nans, self.frame = n, at, base, nans, frame

    def with_(self, **k):
        d = dict(n=self.n, at=self.f, base=self.base, nans=self.nans, frame=self.frame)
        d.update(k)
        return Column(**d)

    def value(self, t):
        return self.f(t)

    def subst(self, m):
        n = tm.subst(self.n, m) if isinstance(self.n, T) else self.n
        return self.with_(n=n, at=lambda t: shifted(self.f, t, m))

    def length(self, it):
        return self.n

    def iterate(self, it):
        if self.nans or self.frame:
            it.unsupported("iteration over missing values")
        k = tm.fresh("k", "I")
        g = tm.and_(tm.le(tm.ZERO, k), tm.lt(k, it.term(self.n)))
        sv = it.pc
        it.pc = tm.and_(sv, g)
        v = self.f(k)
        it.pc = sv
        return Seq([Fam((k,), g, v)])

    def isinstance_(self, it, c):
        return tm.boolc(str(getattr(c, "name", c)).split(".")[-1] in (
            "DataFrame" if self.frame else "Series", "NDFrame", "Iterable", "Sized"))

    def truth(self, it):
        it.raise_(ExcVal("ValueError"))

    def getitem(self, it, ix):
        if self.frame:
            it.unsupported("column of a frame")
        if isinstance(ix, tuple) and ix and ix[0] == "slice":
            lo, hi, st = [it.simp(x) for x in ix[1:4]]
            if st is not None or hi is not None or not isinstance(lo, int) or lo < 0 or self.base:
                it.unsupported("slice of a series")
            f = self.f
            return self.with_(n=tm.sub(it.term(self.n), tm.num(lo)), base=lo,
                              nans=max(self.nans - lo, 0), at=lambda t: f(tm.add(t, tm.num(lo))))
        if self.nans or self.base:
            it.unsupported("entry of a series that is not numbered from zero")
        return self.f(it.term(ix))

    def map(self, f):
        g = self.f
        return self.with_(at=lambda t: f(g(t)))

    def binop(self, it, op, a, b):
        if isinstance(a, Column) and isinstance(b, (Delta, T, int, float)):
            return self.map(lambda x: it.binop(op, x, b, None))
        return NotImplemented

    def compare(self, it, op, a, b):
        if self.nans:
            it.unsupported("comparison of missing values")
        if a is self and isinstance(b, (T, int, float)):
            return self.map(lambda x: it.compare(op, x, b, None))
        it.unsupported("comparison of series")

    def attr(self, it, name):
        def method(f):
            return Builtin(name, f)
        if name == "size":
            return self.n
        if name == "diff":
            f = self.f

            def diff(i, a, k):
                if a or k or self.nans:
                    i.unsupported("diff")
                return self.with_(nans=1, at=lambda t: i.binop(
                    ast.Sub(), f(t), f(tm.sub(t, tm.ONE)), None))
            return method(diff)
        if name == "squeeze" and self.frame:
            def squeeze(i, a, k):
                if i.decide(tm.le(tm.num(2), i.term(self.n))) is not True:
                    i.unsupported("squeeze of a single value")
                return self.with_(frame=False)
            return method(squeeze)
        if name == "reset_index":
            def reset(i, a, k):
                if a or i.simp(k.get("drop")) is not True or len(k) != 1:
                    i.unsupported("reset_index")
                return self.with_(base=0)
            return method(reset)
        if name in ("any", "all") and not self.frame:
            return method(lambda i, a, k: i.call(i.models["builtins"].attrs[name],
                                                 [self.iterate(i)], {}))
        if name == "tolist":
            return method(lambda i, a, k: self.iterate(i))
        return MISSING


def shifted(f, t, m):
    k = tm.fresh("k", "I")
    v = subst_value(f(k), m)
    return subst_value(v, {k: t})


class Flat:
    """Series made of a list whose elements are not numbered: only any/all"""

    def __init__(self, seq):
        self.seq = seq

    def subst(self, m):
        return Flat(subst_value(self.seq, m))

    def truth(self, it):
        it.raise_(ExcVal("ValueError"))

    def compare(self, it, op, a, b):
        if a is not self:
            it.unsupported("comparison of series")
        parts = []
        for p in self.seq.parts:
            bs, g, v = it.generic(p)
            sv, sb = it.pc, it.binders
            it.pc, it.binders = tm.and_(sv, g), sb + tuple(bs)
            c = it.compare(op, v, b, None)
            it.pc, it.binders = sv, sb
            parts.append(Fam(bs, g, c))
        return Flat(Seq(parts))

    def attr(self, it, name):
        if name in ("any", "all"):
            return Builtin(name, lambda i, a, k: i.call(i.models["builtins"].attrs[name],
                                                        [self.seq], {}))
        return MISSING


def data(it, frame):
    def make(it, a, k):
        if len(a) != 1 or k:
            it.unsupported("DataFrame or Series with options")

        def f(x):
            if isinstance(x, Column):
                return x.with_(frame=frame)
            if isinstance(x, (TimeIndex, MoreIndex)):
                return Column(x.n, x.at, frame=frame)
            if isinstance(x, InSeq):
                return Column(x.n, x.at, frame=frame)
            if isinstance(x, Seq) and not frame:
                return Flat(x)
            it.unsupported("DataFrame or Series of %r" % (x,))
        return it.lift(f, a[0])
    return Builtin("DataFrame" if frame else "Series", make)


def timedelta64(it, a, k):
    unit = {"h": 1, "D": 24, "W": 168}.get(it.simp(a[1]) if len(a) > 1 else None)
    if unit is None:
        if len(a) > 1 and it.simp(a[1]) in ("m", "s"):
            d = tm.num(60 if it.simp(a[1]) == "m" else 3600)
            return Delta(it.term(it.binop(ast.Div(), it.term(a[0]), d, None)))
        it.unsupported("timedelta64")
    return Delta(tm.mul(it.term(a[0]), tm.num(unit)))


def cumsum(it, a, k):
    if len(a) != 1 or k:
        it.unsupported("cumsum")

    def f(x):
        if isinstance(x, InSeq):
            return computed(it, x.n, lambda t: partial(it, x.at, t))
        if isinstance(x, Seq):
            lead, rest = [], None
            for p in x.parts:
                if isinstance(p, Fam) and p.binders:
                    if rest is not None:
                        it.unsupported("cumsum of a list")
                    rest = p
                elif rest is None and p.guard is TRUE:
                    lead.append(it.term(p.value))
                else:
                    it.unsupported("cumsum of a list")
            if rest is None or len(rest.binders) != 1:
                it.unsupported("cumsum of a list")
            from .interp import range_guard
            b = rest.binders[0]
            r = range_guard(rest.guard, b)
            if r is None or r[2] is not TRUE or r[0] is not tm.ZERO:
                it.unsupported("cumsum of a list")
            g = lambda t: tm.subst(it.term(rest.value), {b: t})
            c = len(lead)

            def body(t):
                pre = tm.ZERO
                for j, v in enumerate(lead):
                    pre = tm.add(pre, v if j == 0 else tm.ite(tm.le(tm.num(j), t), v, tm.ZERO))
                return tm.add(pre, partial(it, g, tm.sub(t, tm.num(c))))
            return computed(it, it.length(x), body)
        it.unsupported("cumsum of %r" % (x,))
    return it.lift(f, a[0])


def partial(it, f, t):
    """f(0) + ... + f(t)"""
    q = tm.fresh("q", "I")
    return tm.mksum((q,), tm.and_(tm.le(tm.ZERO, q), tm.le(q, t)), it.term(f(q)))


# ------------------------------------------------------------- contract side
def hours(it, a, k):
    def f(x):
        def d(t):
            p, q = x.at(tm.add(t, tm.ONE)), x.at(t)
            return tm.sub(p.x, q.x) if isinstance(p, Moment) else tm.sub(it.term(p), it.term(q))
        return computed(it, tm.sub(it.term(x.n), tm.ONE), d)
    return it.lift(f, a[0])


def regular(it, a, k):
    def f(x):
        if not isinstance(x, TimeIndex):
            return False
        return it.pybool(tm.or_(x.given, tm.and_(x.known, tm.le(tm.num(3), x.n))))
    return it.lift(f, a[0])


def one_more(it, a, k):
    def f(x):
        if not isinstance(x, TimeIndex):
            it.raise_(ExcVal("<not returned>"))
        return MoreIndex(x, Freq(x.name).next(x.x(tm.sub(x.n, tm.ONE))))
    return it.lift(f, a[0])


def pandas_module(ModuleVal):
    frame = data(None, True)
    return ModuleVal("pandas", {
        "DataFrame": frame, "Series": data(None, False), "DatetimeIndex": Opaque("DatetimeIndex"),
        "infer_freq": Builtin("infer_freq", infer_freq),
        "date_range": Builtin("date_range", date_range)})
