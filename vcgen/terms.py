"""Term language of the verification-condition generator.

Hash-consed terms over reals, integers, booleans and uninterpreted sorts, a
polynomial (Laurent) normal form in which finite sums over symbolic index
sets are atoms, and the translation to z3.

Sorts: 'R' real, 'I' integer, 'B' boolean, anything else: uninterpreted.
"""

import itertools
from fractions import Fraction

import z3


class T:
    __slots__ = ("op", "args", "sort", "_h", "_key", "_fv", "_poly", "__weakref__")
    _tab = {}

    def __new__(cls, op, args, sort):
        k = (op, args, sort)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.sort = op, args, sort
            t._h = hash(k)
            t._key = None
            t._fv = None
            t._poly = None
            cls._tab[k] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a python boolean: %s" % self)

    @property
    def key(self):
        if self._key is None:
            self._key = show(self)
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            self._fv = _fv(self)
        return self._fv


def is_num_sort(s):
    return s in ("R", "I")


TRUE = T("c", (True,), "B")
FALSE = T("c", (False,), "B")


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return mul(num(-1), INF)
        f = Fraction(repr(v))
        return T("c", (f,), "R")
    if isinstance(v, int):
        return T("c", (Fraction(v),), "I")
    if isinstance(v, Fraction):
        return T("c", (v,), "R")
    raise TypeError(v)


INF = T("v", ("INF",), "R")
ZERO = num(0)
ONE = num(1)


def var(name, sort):
    return T("v", (name,), sort)


def app(name, args, sort):
    return T("f", (name,) + tuple(args), sort)


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- traversal
def _fv(t):
    if t.op == "c":
        return frozenset()
    if t.op == "v":
        return frozenset((t,))
    if t.op == "f":
        r = frozenset()
        for a in t.args[1:]:
            r |= a.fv
        return r
    if t.op in BINDERS:
        bs, g, b = t.args
        return (g.fv | b.fv) - frozenset(bs)
    r = frozenset()
    for a in t.args:
        if isinstance(a, T):
            r |= a.fv
    return r


BINDERS = ("sum", "exists", "maxs", "mins", "anyone", "prod")


def show(t):
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            return str(v)
        return str(v)
    if t.op == "v":
        return t.args[0]
    if t.op == "f":
        return t.args[0] + "(" + ",".join(a.key for a in t.args[1:]) + ")"
    if t.op in BINDERS:
        bs, g, b = t.args
        return "%s{%s|%s}(%s)" % (
            t.op, ",".join(x.args[0] for x in bs), g.key, b.key)
    return "(" + t.op + " " + " ".join(
        a.key if isinstance(a, T) else str(a) for a in t.args) + ")"


def walk(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, T):
            yield from walk(a, seen)


_fresh = itertools.count(1)


def fresh(prefix, sort):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def subst(t, m):
    """Capture-avoiding substitution of variables (dict T->T)."""
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not (t.fv & m.keys()) and t.op == "v":
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "v"):
        r = t
    elif not any(k in t.fv for k in m if k.op == "v") and not any(
            k.op != "v" for k in m):
        r = t
    elif t.op == "f":
        r = T("f", (t.args[0],) + tuple(_subst(a, m, memo)
                                        for a in t.args[1:]), t.sort)
    elif t.op in BINDERS:
        bs, g, b = t.args
        clash = set()
        for k, v in m.items():
            clash |= v.fv
        ren = {}
        nbs = []
        for x in bs:
            if x in clash or x in m:
                y = fresh(x.args[0].split("!")[0], x.sort)
                ren[x] = y
                nbs.append(y)
            else:
                nbs.append(x)
        if ren:
            g = subst(g, ren)
            b = subst(b, ren)
        r = rebuild(t.op, (tuple(nbs), subst(g, m), subst(b, m)), t.sort)
    else:
        r = rebuild(t.op, tuple(_subst(a, m, memo) if isinstance(a, T) else a
                                for a in t.args), t.sort)
    memo[t] = r
    return r


def rebuild(op, args, sort):
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "inv":
        return inv(args[0])
    if op == "pow":
        return power(args[0], args[1])
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "<=":
        return le(*args)
    if op == "<":
        return lt(*args)
    if op == "=":
        return eq(*args)
    if op == "sum":
        return mksum(*args)
    if op == "exists":
        return exists(*args)
    return T(op, args, sort)


# ---------------------------------------------------------------- booleans
def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in (x.args if x.op == "and" else (x,)):
            if y in seen:
                continue
            if neg_of(y) in seen:
                return FALSE
            seen.add(y)
            out.append(y)
    out = _propagate(out, seen)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", tuple(out), "B")


def _alts(y):
    """alternatives of a disjunction"""
    if y.op == "or":
        return y.args
    if y.op == "not" and y.args[0].op == "and":
        return tuple(not_(a) for a in y.args[0].args)
    return None


def _propagate(out, seen):
    """unit propagation: a and (not a or b) -> a and b, a and (a or b) -> a"""
    if not any(_alts(y) for y in out) or len(out) < 2:
        return out
    for _ in range(4):
        new, changed = [], False
        for y in out:
            al = _alts(y)
            if al is None:
                new.append(y)
                continue
            if any(a in seen for a in al):
                changed = True
                continue
            keep = [a for a in al if neg_of(a) not in seen and not_(a) not in seen]
            if len(keep) == len(al):
                new.append(y)
                continue
            changed = True
            if not keep:
                return None
            z = or_(*keep)
            if z is TRUE:
                continue
            if z is FALSE:
                return None
            new.append(z)
        if not changed:
            return out
        out, seen = [], set()
        for x in new:
            for y in (x.args if x.op == "and" else (x,)):
                if y in seen:
                    continue
                if neg_of(y) in seen:
                    return None
                seen.add(y)
                out.append(y)
    return out


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in (x.args if x.op == "or" else (x,)):
            if y in seen:
                continue
            if neg_of(y) in seen:
                return TRUE
            seen.add(y)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # a or (not a and b) -> a or b, a or (a and b) -> a
    if any(y.op == "and" for y in out):
        new, changed = [], False
        for y in out:
            if y.op != "and":
                new.append(y)
                continue
            if any(a in seen for a in y.args):
                changed = True
                continue
            keep = [a for a in y.args if neg_of(a) not in seen and not_(a) not in seen]
            if len(keep) == len(y.args):
                new.append(y)
            else:
                changed = True
                new.append(and_(*keep))
        if changed:
            return or_(*new)
    # absorption: (a and b) or (a and not b) -> a
    if len(out) == 2:
        c0 = set(conj(out[0]))
        c1 = set(conj(out[1]))
        d0, d1 = c0 - c1, c1 - c0
        if len(d0) == 1 and len(d1) == 1:
            (a,), (b,) = d0, d1
            if neg_of(a) is b or neg_of(b) is a:
                common = [x for x in conj(out[0]) if x in c1]
                return and_(*common)
        if not d0:
            return out[0]
        if not d1:
            return out[1]
    return T("or", tuple(out), "B")


def neg_of(x):
    if x.op == "not":
        return x.args[0]
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    return T("not", (x,), "B")


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == "<=":
        return lt(x.args[1], x.args[0])
    if x.op == "<":
        return le(x.args[1], x.args[0])
    if x.op == "or":
        return and_(*[not_(a) for a in x.args])
    return T("not", (x,), "B")


def conj(t):
    if t is TRUE:
        return ()
    if t.op == "and":
        return t.args
    return (t,)


def implies(a, b):
    return or_(not_(a), b)


_WITNESS = {}


def witness(t):
    """the same with constants for what is said to exist (in positive places):
    satisfiable if and only if t is"""
    if t is None or t.sort != "B":
        return t
    r = _WITNESS.get(t)
    if r is not None:
        return r
    if t.op in ("and", "or"):
        xs = [witness(a) for a in t.args]
        r = t if all(x is a for x, a in zip(xs, t.args)) else (and_ if t.op == "and" else or_)(*xs)
    elif t.op == "exists":
        bs, g, b = t.args
        m = {x: var("witness%d.%d" % (len(_WITNESS), k), x.sort) for k, x in enumerate(bs)}
        r = witness(and_(subst(g, m), subst(b, m)))
    else:
        r = t
    _WITNESS[t] = r
    return r


def exists(bs, g, b):
    body = and_(g, b)
    if body is FALSE:
        return FALSE
    bs = tuple(x for x in bs if x in body.fv)
    if not bs:
        return body
    # factor out independent conjuncts
    ind = [c for c in conj(body) if not (c.fv & set(bs))]
    dep = [c for c in conj(body) if c.fv & set(bs)]
    # one point rule
    for c in dep:
        s = solve_point(c, bs)
        if s is not None:
            x, e = s
            rest = tuple(y for y in bs if y is not x)
            return and_(*ind, exists(rest, subst(and_(*[d for d in dep if d is not c]), {x: e}), TRUE))
    ren = {x: var("@e%d" % k, x.sort) for k, x in enumerate(bs)}
    # alpha-normal
    depth = max([_depth(c) for c in dep] + [0])
    ren = {x: var("@e%d_%d" % (depth, k), x.sort) for k, x in enumerate(bs)}
    d2 = subst(and_(*sorted(dep, key=lambda c: subst(c, ren).key)), ren)
    return and_(*ind, T("exists", (tuple(ren.values()), d2, TRUE), "B"))


def _depth(t):
    d = 0
    for s in walk(t):
        if s.op in BINDERS:
            d = max(d, 1 + max(_depth(s.args[1]), _depth(s.args[2])))
    return d


def solve_point(c, bs):
    """c is an equality that determines one of the binders linearly."""
    if c.op != "=":
        return None
    a, b = c.args
    for x, e in ((a, b), (b, a)):
        if x in bs and x not in e.fv:
            return x, e
    if is_num_sort(a.sort):
        p = to_poly(sub(a, b))
        for x in bs:
            if not any(x in at.fv for m in p for at, _ in m):
                continue
            mono = ((x, 1),)
            if mono in p and abs(p[mono]) == 1 and x.sort == "I":
                others = {m: v for m, v in p.items() if m != mono}
                if any(x in at.fv for m in others for at, _ in m):
                    continue
                k = -1 / p[mono]
                return x, from_poly({m: v * k for m, v in others.items()}, "I")
    return None


# ------------------------------------------------------------- arithmetic
def res_sort(xs):
    return "I" if all(x.sort == "I" for x in xs) else "R"


def add(*xs):
    p = {}
    for x in xs:
        padd(p, to_poly(x))
    return from_poly(p, res_sort(xs))


def sub(a, b):
    return add(a, mul(num(-1), b))


def neg(a):
    return mul(num(-1), a)


def mul(*xs):
    p = {(): Fraction(1)}
    for x in xs:
        p = pmul(p, to_poly(x))
    return from_poly(p, res_sort(xs))


def inv(x):
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        out = from_poly({mono([(a, -e) for a, e in m if a.op != "inv"]): 1 / c}, "R")
        for a, e in m:
            if a.op == "inv":      # the inverse of an inverse
                for _ in range(abs(int(e))):
                    out = mul(out, a.args[0] if e > 0 else a)
        return out
    if not p:
        return T("inv", (ZERO,), "R")
    # common factors are inverted on their own
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {
            a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        if not common:
            break
    if common:
        f = {mono([(a, e) for a, e in common.items()]): Fraction(1)}
        fi = {mono([(a, -e) for a, e in common.items()]): Fraction(1)}
        return mul(from_poly(fi, "R"), inv(from_poly(pmul(p, fi), "R")))
    # normalise sign/scale: leading coefficient 1
    lead = sorted(p, key=mono_key)[0]
    c = p[lead]
    q = from_poly({m: v / c for m, v in p.items()}, "R")
    return from_poly({((T("inv", (q,), "R"), 1),): 1 / c}, "R")


def div(a, b):
    return mul(a, inv(b))


def power(b, e):
    pe = to_poly(e)
    if not pe:
        return ONE
    if len(pe) == 1 and () in pe:
        c = pe[()]
        if c.denominator == 1:
            k = int(c)
            if 0 < k <= 4:
                return mul(*([b] * k))
            if -4 <= k < 0:
                return inv(mul(*([b] * -k)))
    pb = to_poly(b)
    if len(pb) == 1 and () in pb and pb[()] == 1:
        return ONE
    return T("pow", (from_poly(pb, b.sort), from_poly(pe, e.sort)), "R")


def mono_key(m):
    return tuple((a.key, e) for a, e in m)


def mono(items):
    d = {}
    pows = {}
    for a, e in items:
        if a.op == "pow":
            b, x = a.args
            pows[b] = add(pows.get(b, ZERO), mul(num(e), x))
        elif a.op == "inv":
            d[a] = d.get(a, 0) + e
        else:
            d[a] = d.get(a, 0) + e
    for b, x in pows.items():
        if not to_poly(x):
            continue
        t = power(b, x)
        if t.op == "pow":
            d[t] = d.get(t, 0) + 1
        else:
            p = to_poly(t)
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1:
                    for a, e in m:
                        d[a] = d.get(a, 0) + e
                    continue
            d[T("pow", (b, x), "R")] = d.get(T("pow", (b, x), "R"), 0) + 1
    return tuple(sorted(((a, e) for a, e in d.items() if e),
                        key=lambda q: (q[0].key, q[1])))


def padd(p, q, k=1):
    for m, c in q.items():
        v = p.get(m, 0) + c * k
        if v:
            p[m] = v
        else:
            p.pop(m, None)
    return p


def pmul(p, q):
    if len(p) == 1 and () in p:
        c = p[()]
        return {m: v * c for m, v in q.items()} if c else {}
    if len(q) == 1 and () in q:
        c = q[()]
        return {m: v * c for m, v in p.items()} if c else {}
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            padd(r, {mono(m1 + m2): c1 * c2})
    return r


def to_poly(t):
    if t._poly is None:
        t._poly = _to_poly(t)
    return t._poly


def _to_poly(t):
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            v = Fraction(int(v))
        return {(): v} if v else {}
    if t.op == "+":
        p = {}
        for a in t.args:
            padd(p, to_poly(a))
        return p
    if t.op == "*":
        p = {(): Fraction(1)}
        for a in t.args:
            p = pmul(p, to_poly(a))
        return p
    return {((t, 1),): Fraction(1)}


def from_poly(p, sort):
    if not p:
        return T("c", (Fraction(0),), "I" if sort == "I" else "R") if sort != "I" else ZERO
    terms = []
    for m in sorted(p, key=mono_key):
        c = p[m]
        fs = []
        for a, e in m:
            fs.append((a, e))
        if not fs:
            terms.append(num(int(c)) if sort == "I" and c.denominator == 1
                         else T("c", (c,), "R" if sort != "I" else "R"))
            continue
        if len(fs) == 1 and fs[0][1] == 1 and c == 1:
            terms.append(fs[0][0])
            continue
        flat = []
        if c != 1:
            flat.append(num(int(c)) if c.denominator == 1 else num(c))
        for a, e in fs:
            if e > 0:
                flat.extend([a] * e)
            else:
                flat.extend([_invatom(a)] * (-e))
        if len(flat) == 1:
            terms.append(flat[0])
        else:
            t = T("*", tuple(flat), sort)
            t._poly = {m: c}
            terms.append(t)
    if len(terms) == 1:
        return terms[0]
    t = T("+", tuple(terms), sort)
    if t._poly is None:
        t._poly = dict(p)
    return t


def _invatom(a):
    t = T("inv", (a,), "R")
    if t._poly is None:
        t._poly = {((a, -1),): Fraction(1)}
    return t


def const_val(t):
    """Fraction value of a constant numeric term or None."""
    if t.op == "c" and not isinstance(t.args[0], bool):
        return t.args[0]
    return None


# -------------------------------------------------------------- comparison
def le(a, b):
    p = to_poly(sub(a, b))
    if not p:
        return TRUE
    if len(p) == 1 and () in p:
        return boolc(p[()] <= 0)
    if a.sort == "I" and b.sort == "I":
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "ite":
                x = m[0][0]
                k = minmax(x)
                if k is None:
                    continue
                rest = from_poly({q: v for q, v in p.items() if q != m}, "I")
                u, v = (le(add(e, rest) if c == 1 else sub(rest, e), ZERO) for e in x.args[1:])
                return and_(u, v) if (k == "max") == (c == 1) else or_(u, v)
        return _intle(p)
    return T("<=", (a, b), "B")


def minmax(x):
    c, a, b = x.args
    if a.sort != "I" or b.sort != "I":
        return None
    d = sub(a, b)
    if c is _intle(to_poly(d)) or c is _intle(to_poly(add(d, ONE))):
        return "min"
    d = sub(b, a)
    if c is _intle(to_poly(d)) or c is _intle(to_poly(add(d, ONE))):
        return "max"
    return None


def _scale_key(p):
    return sorted(p, key=mono_key)


def _intle(p):
    # p <= 0 over the integers, canonical: positive part <= negative part
    pos = {m: c for m, c in p.items() if m != () and c > 0}
    negp = {m: -c for m, c in p.items() if m != () and c < 0}
    c = p.get((), Fraction(0))
    # put the constant on the right:  pos <= neg - c
    negp2 = dict(negp)
    if c:
        negp2[()] = -c
    return T("<=", (from_poly(pos, "I"), from_poly(negp2, "I")), "B")


def lt(a, b):
    if a.sort == "I" and b.sort == "I":
        return le(add(a, ONE), b)
    p = to_poly(sub(a, b))
    if not p:
        return FALSE
    if len(p) == 1 and () in p:
        return boolc(p[()] < 0)
    return T("<", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return T("=", tuple(sorted((a, b), key=lambda x: x.key)), "B")
    if is_num_sort(a.sort) and is_num_sort(b.sort):
        p = to_poly(sub(a, b))
        if not p:
            return TRUE
        if len(p) == 1 and () in p:
            return FALSE
        lead = sorted(p, key=mono_key)[-1]
        if a.sort == "I" and b.sort == "I":
            sgn = 1 if p[lead] > 0 else -1
            l = {m: c * sgn for m, c in p.items() if c * sgn > 0 and m != ()}
            r = {m: -c * sgn for m, c in p.items() if c * sgn < 0 and m != ()}
            if p.get((), 0):
                r[()] = -p[()] * sgn
            return T("=", (from_poly(l, "I"), from_poly(r, "I")), "B")
        return T("=", tuple(sorted((a, b), key=lambda x: x.key)), "B")
    if a.op == "c" and b.op == "c":
        return boolc(a.args[0] == b.args[0])
    if a.sort != b.sort:
        return FALSE
    if {a.op, b.op} <= {"f"} and a.args[0] == b.args[0] == "lit":
        return FALSE
    return T("=", tuple(sorted((a, b), key=lambda x: x.key)), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return and_(or_(not_(c), a), or_(c, b))
    if is_num_sort(a.sort) and is_num_sort(b.sort):
        pa, pb = to_poly(a), to_poly(b)
        common = {m: k for m, k in pa.items() if pb.get(m) == k}
        if len(common) == len(pa) == len(pb):
            return a
        srt = res_sort((a, b))
        if srt == "R" and common:
            # keep what does not depend on the condition outside
            x = from_poly({m: k for m, k in pa.items() if m not in common}, "R")
            y = from_poly({m: k for m, k in pb.items() if m not in common}, "R")
            return add(from_poly(common, "R"), T("ite", (c, x, y), "R"))
        return T("ite", (c, a, b), srt)
    return T("ite", (c, a, b), a.sort)


# --------------------------------------------------------------------- sums
def find_ite(t):
    """An ite atom at the top level (not under a function / binder)."""
    for m in to_poly(t):
        for a, e in m:
            if a.op == "ite":
                return a
            if a.op in ("pow", "inv"):
                for x in a.args:
                    r = find_ite(x)
                    if r is not None:
                        return r
            if a.op == "f":
                for x in a.args[1:]:
                    if x.op == "ite":
                        return x
                    if is_num_sort(x.sort):
                        r = find_ite(x)
                        if r is not None:
                            return r
    return None


def mksum(bs, g, body):
    """Sum of body over all binder values satisfying g, normalised."""
    if g is FALSE:
        return ZERO
    if g.op == "or":
        # disjoint split a | b = a + (not a and b)
        a, rest = g.args[0], or_(*g.args[1:])
        return add(mksum(bs, a, body), mksum(bs, and_(not_(a), rest), body))
    p = to_poly(body)
    if not p:
        return ZERO
    # case split on conditions inside the summand
    it = find_ite(body)
    if it is not None:
        c, x, y = it.args
        return add(
            mksum(bs, and_(g, c), replace(body, it, x)),
            mksum(bs, and_(g, not_(c)), replace(body, it, y)),
        )
    # conditional bounds inside g
    for c in conj(g):
        if c.op in ("<=", "<", "=") and c.fv & set(bs):
            for side in c.args:
                if not is_num_sort(side.sort):
                    continue
                q = find_ite(side)
                if q is not None:
                    cc, x, y = q.args
                    return add(
                        mksum(bs, and_(*[replace(d, q, x) for d in conj(g)], cc), body),
                        mksum(bs, and_(*[replace(d, q, y) for d in conj(g)], not_(cc)), body),
                    )
    # disjunctive conjuncts inside g
    for c in conj(g):
        if c.op == "or" and (c.fv & set(bs)):
            others = and_(*[d for d in conj(g) if d is not c])
            a, rest = c.args[0], or_(*c.args[1:])
            return add(
                mksum(bs, and_(others, a), body),
                mksum(bs, and_(others, not_(a), rest), body),
            )
    bset = set(bs)
    ind = [c for c in conj(g) if not (c.fv & bset)]
    dep = [c for c in conj(g) if c.fv & bset]
    if ind:
        inner = mksum(bs, and_(*dep), body)
        return ite(and_(*ind), inner, ZERO)
    # one point rule
    for c in dep:
        s = solve_point(c, bs)
        if s is not None:
            x, e = s
            rest = tuple(y for y in bs if y is not x)
            m = {x: e}
            ng = and_(*[subst(d, m) for d in dep if d is not c])
            if rest:
                return mksum(rest, ng, subst(body, m))
            return ite(ng, subst(body, m), ZERO)
    out = {}
    for m, c in p.items():
        outer = [(a, e) for a, e in m if not (a.fv & bset)]
        inner = [(a, e) for a, e in m if a.fv & bset]
        padd(out, pmul({mono(outer): c}, to_poly(_sumatom(bs, dep, inner))))
    return from_poly(out, "R")


def _sumatom(bs, dep, inner):
    # flatten a nested sum that is the only dependent factor ... only when the
    # inner atom is a plain sum
    bset = set(bs)
    sums = [(a, e) for a, e in inner if a.op == "sum" and e == 1]
    if len(sums) == 1:
        s = sums[0][0]
        ibs, ig, ib = s.args
        ren = {x: fresh("n", x.sort) for x in ibs}
        ibs2 = tuple(ren[x] for x in ibs)
        ig2, ib2 = subst(ig, ren), subst(ib, ren)
        rest = [(a, e) for a, e in inner if a is not s]
        body = mul(from_poly({mono(rest): Fraction(1)}, "R"), ib2)
        return mksum(tuple(bs) + ibs2, and_(*dep, ig2), body)
    body = from_poly({mono(inner): Fraction(1)}, "R") if inner else ONE
    used = body.fv | frozenset().union(*[d.fv for d in dep]) if dep else body.fv
    # independent components of binders could be factored; keep simple
    order = sorted(bs, key=lambda x: x.sort)
    depth = max([_depth(body)] + [_depth(d) for d in dep])
    best = None
    # canonical renaming: try all permutations of same-sorted binders (few)
    perms = _perms(order)
    for perm in perms:
        ren = {x: var("@%d_%d%s" % (depth, k, x.sort), x.sort)
               for k, x in enumerate(perm)}
        d2 = tuple(sorted((subst(d, ren) for d in dep), key=lambda c: c.key))
        b2 = subst(body, ren)
        k = (b2.key, tuple(x.key for x in d2))
        if best is None or k < best[0]:
            best = (k, tuple(ren[x] for x in perm), d2, b2)
    _, nbs, d2, b2 = best
    return T("sum", (nbs, and_(*d2), b2), "R")


def _perms(order):
    groups = [list(g) for _, g in itertools.groupby(order, key=lambda x: x.sort)]
    n = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            n *= k
    if n > 24:
        return [order]
    out = [[]]
    for g in groups:
        out = [o + list(q) for o in out for q in itertools.permutations(g)]
    return out


def replace(t, old, new):
    """Replace every occurrence of the (non-variable) subterm old."""
    memo = {}

    def go(x):
        if x is old:
            return new
        if x in memo:
            return memo[x]
        if x.op in ("c", "v"):
            r = x
        elif x.op == "f":
            r = T("f", (x.args[0],) + tuple(go(a) for a in x.args[1:]), x.sort)
        elif x.op in BINDERS:
            bs, g, b = x.args
            r = x if old.fv & set(bs) else rebuild(x.op, (bs, go(g), go(b)), x.sort)
        else:
            r = rebuild(x.op, tuple(go(a) if isinstance(a, T) else a
                                    for a in x.args), x.sort)
        memo[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------- z3
class Z:
    """Translation to z3 (one shared context)."""

    sorts = {}
    memo = {}
    funcs = {}
    stats = {"queries": 0, "time": 0.0, "unknown": 0}

    @classmethod
    def sort(cls, s):
        if s == "R":
            return z3.RealSort()
        if s == "I":
            return z3.IntSort()
        if s == "B":
            return z3.BoolSort()
        if s not in cls.sorts:
            cls.sorts[s] = z3.DeclareSort(s)
        return cls.sorts[s]

    @classmethod
    def cv(cls, t):
        r = cls.memo.get(t)
        if r is None:
            r = cls._cv(t)
            cls.memo[t] = r
        return r

    @classmethod
    def real(cls, t):
        z = cls.cv(t)
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    @classmethod
    def fn(cls, name, args, sort):
        k = (name, tuple(a.sort for a in args), sort)
        if k not in cls.funcs:
            cls.funcs[k] = z3.Function(
                name + "/" + "".join(k[1]), *[cls.sort(a.sort) for a in args],
                cls.sort(sort))
        return cls.funcs[k]

    @classmethod
    def _cv(cls, t):
        op = t.op
        if op == "c":
            v = t.args[0]
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if t.sort == "I":
                return z3.IntVal(int(v))
            return z3.RealVal(str(v))
        if op == "v":
            return z3.Const(t.args[0], cls.sort(t.sort))
        if op == "f":
            args = t.args[1:]
            if not args:
                return z3.Const(t.args[0] + "()", cls.sort(t.sort))
            return cls.fn(t.args[0], args, t.sort)(*[cls.cv(a) for a in args])
        if op in ("+", "*"):
            cv = cls.cv if t.sort == "I" else cls.real
            xs = [cv(a) for a in t.args]
            if t.sort == "I":
                xs = [z3.ToInt(x) if x.sort() == z3.RealSort() else x for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if op == "+" else r * x
            return r
        if op == "inv":
            f = cls.funcs.setdefault("inv", z3.Function("inv", z3.RealSort(), z3.RealSort()))
            return f(cls.real(t.args[0]))
        if op == "pow":
            f = cls.funcs.setdefault("pow", z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort()))
            return f(cls.real(t.args[0]), cls.real(t.args[1]))
        if op == "ite":
            c, a, b = t.args
            if t.sort == "R":
                return z3.If(cls.cv(c), cls.real(a), cls.real(b))
            return z3.If(cls.cv(c), cls.cv(a), cls.cv(b))
        if op == "and":
            return z3.And(*[cls.cv(a) for a in t.args])
        if op == "or":
            return z3.Or(*[cls.cv(a) for a in t.args])
        if op == "not":
            return z3.Not(cls.cv(t.args[0]))
        if op in ("<=", "<", "="):
            a, b = t.args
            if is_num_sort(a.sort) and a.sort != b.sort:
                x, y = cls.real(a), cls.real(b)
            else:
                x, y = cls.cv(a), cls.cv(b)
            return x <= y if op == "<=" else x < y if op == "<" else x == y
        if op in BINDERS:
            if op == "exists":
                bs, g, b = t.args
                zs = [cls.cv(x) for x in bs]
                return z3.Exists(zs, z3.And(cls.cv(g), cls.cv(b)))
            # opaque atom, alpha-normal, parameterised by its free variables
            fvs = sorted(t.fv, key=lambda x: x.key)
            name = "[" + t.key + "]"
            ren = {x: var("#%d%s" % (k, x.sort), x.sort) for k, x in enumerate(fvs)}
            name = "[" + subst(t, ren).key + "]"
            if not fvs:
                return z3.Const(name, cls.sort(t.sort))
            return cls.fn(name, fvs, t.sort)(*[cls.cv(a) for a in fvs])
        raise NotImplementedError(op)
