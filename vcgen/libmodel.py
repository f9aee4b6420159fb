"""Assumed contracts of the libraries the verified functions call
(Python builtins, Pyomo component semantics, oemof.tools.economics, warnings).
These are the trusted external contracts; they are listed in the evidence.
"""

import ast
import itertools
from fractions import Fraction

from . import terms as tm
from .interp import (Bound, Builtin, ClassVal, Closure, Dead, Effect, ExcVal, Fam,
                     Inst, Interp, LamSeq, MISSING, ModuleVal, NativeClass, Obj,
                     Opaque, SomeClass, Poison, Rel, Row, SDict, SList, Seq, SymSeq, SymStr,
                     U, UNDEF, Undef, Unsupported, EXC_PARENTS, exc_isinstance,
                     flat_index, subst_value)
from .terms import FALSE, TRUE, T

TRUSTED = [
    "Pyomo: Set/Var/Constraint/Expression/BuildAction/setub/setlb/fix/Skip "
    "behave as their documentation says (abstracted by vcgen/libmodel.py)",
    "Python semantics of the supported subset as implemented by vcgen/interp.py",
    "machine floats treated as mathematical reals; integers unbounded",
    "denominators are non-zero and bases of powers positive wherever the code "
    "divides (Laurent normal form)",
    "z3 4.x (SMT back end)",
]


# ------------------------------------------------------------------ helpers
def make_set(it, seq):
    """Pyomo Set / python set from an iterable: duplicates removed"""
    out = []
    conc = []
    for p in seq.parts:
        if not p.binders and p.guard is TRUE:
            if any(it.same(p.value, q) or (isinstance(p.value, T) and p.value is q)
                   for q in conc):
                continue
            conc.append(p.value)
            out.append(p)
            continue
        if p.binders and not injective(p):
            p = project(it, p)
        out.append(p)
    if len(out) > 1 and any(p.binders for p in out):
        # make the parts disjoint
        res = [out[0]]
        for k, p in enumerate(out[1:], 1):
            bs, g, v = it.generic(p)
            prev = Seq(out[:k])
            sv = it.pc
            it.pc = tm.and_(sv, g)
            if it.pc is FALSE or it.solver.infeasible(it.pc):
                it.pc = sv
                continue
            c = it.truth(it.contains(prev, v, None))
            it.pc = sv
            res.append(Fam(bs, tm.and_(g, tm.not_(c)), v))
        out = res
    s = Seq(out)
    if seq.rng is not None:
        s.rng = seq.rng
    for k, v in seq.meta.items():
        if k != "repeat":
            s.meta[k] = v
    return s


def leaves(v):
    out = []
    for x in flat_index(v):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, Obj):
            out.extend(x.key)
    return out


def injective(p):
    """the binders can be computed from the value"""
    ls = leaves(p.value)
    known = {b for b in p.binders if b in ls}
    while len(known) < len(p.binders):
        for b in p.binders:
            if b not in known and any(linear_in(x, b, set(p.binders) - known - {b}) for x in ls):
                known.add(b)
                break
        else:
            return False
    return True


def linear_in(x, b, unknown):
    """x is a constant times b plus something without b and the unknown"""
    if not tm.is_num_sort(x.sort) or b not in x.fv or x.fv & unknown:
        return False
    p = tm.to_poly(x)
    return ((b, 1),) in p and not any(b in a.fv for m in p if m != ((b, 1),) for a, _ in m)


def project(it, p):
    """{v(b1,b2) | g} with v not mentioning some binder: quantify it away"""
    ls = leaves(p.value)
    keep = tuple(b for b in p.binders if b in ls)
    drop = tuple(b for b in p.binders if b not in ls)
    if any(set(drop) & x.fv for x in ls):
        raise Unsupported("set built by a non-injective expression")
    if not all(isinstance(x, (T, Obj)) or x is None or isinstance(x, (str, int))
               for x in flat_index(p.value)):
        raise Unsupported("set of complex values")
    return Fam(keep, tm.exists(drop, p.guard, TRUE), p.value)


def isinst(it, v, c):
    """term: isinstance(v, c)"""
    v = it.simp(v)
    if isinstance(v, U):
        return tm.or_(*[tm.and_(g, isinst(it, x, c)) for g, x in v.cases])
    if isinstance(c, tuple):
        return tm.or_(*[isinst(it, v, x) for x in c])
    h = getattr(v, "isinstance_", None)
    if h is not None:
        return h(it, c)
    nm = getattr(c, "name", None) or str(c)
    nm = nm.split(".")[-1]
    if v is None:
        return tm.boolc(nm in ("NoneType",))
    if isinstance(v, bool):
        return tm.boolc(nm in ("bool", "int", "Real", "Number", "Integral"))
    if isinstance(v, int):
        return tm.boolc(nm in ("int", "Real", "Number", "Integral", "Rational"))
    if isinstance(v, float):
        return tm.boolc(nm in ("float", "Real", "Number"))
    if isinstance(v, str) or isinstance(v, SymStr):
        return tm.boolc(nm in ("str", "Iterable", "Hashable", "Sequence"))
    if isinstance(v, T):
        if v.sort == "B":
            return tm.boolc(nm in ("bool", "int", "Real", "Number"))
        if tm.is_num_sort(v.sort):
            if nm in ("Real", "Number"):
                return TRUE
            if nm in ("int", "float", "Integral"):
                if v.sort == "I":
                    return tm.boolc(nm != "float")
                it.unsupported("isinstance of a symbolic number")
            return FALSE
        return FALSE
    if isinstance(v, Obj):
        sc = it.schema.get(v.kind)
        g = getattr(sc, "isinstance_", None)
        if g is not None:
            return g(it, v, c)
        return tm.boolc(nm == v.kind)
    if isinstance(v, Inst):
        if nm in ("Iterable", "Sized") and isinstance(v.cls, ClassVal):
            m = {"Iterable": "__iter__", "Sized": "__len__"}[nm]
            if v.cls.find(m)[0] is not None:
                return TRUE
        if isinstance(v.cls, ClassVal):
            return tm.boolc(any(getattr(x, "name", "").split(".")[-1] == nm
                                and (x is c or not isinstance(c, ClassVal))
                                for x in v.cls.mro()))
        return tm.boolc(v.cls is c)
    if isinstance(v, SDict):
        return tm.boolc(nm in ("dict", "Mapping", "MutableMapping", "Iterable", "Sized"))
    if isinstance(v, SList):
        return tm.boolc(nm in ("list", "Iterable", "Sequence", "Sized"))
    if isinstance(v, tuple):
        return tm.boolc(nm in ("tuple", "Iterable", "Sequence", "Sized"))
    if isinstance(v, Seq):
        return tm.boolc(nm in ("Iterable", "Set"))
    if isinstance(v, (SymSeq, LamSeq)):
        if nm in ("Iterable", "Sized"):
            return TRUE
        if nm in ("_FakeSequence", "ndarray"):
            it.unsupported("kind of a parameter sequence")
        return FALSE
    if isinstance(v, Rel):
        return FALSE
    it.unsupported("isinstance(%r, %s)" % (v, nm))


def bi(name):
    def deco(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return deco


BUILTINS = {}


@bi("len")
def _len(it, a, k):
    return it.length(a[0])


@bi("range")
def _range(it, a, k):
    ts = [it.term(x) for x in a]
    if len(ts) == 1:
        return it.mkrange(tm.ZERO, ts[0])
    if len(ts) == 2:
        return it.mkrange(ts[0], ts[1])
    st = tm.const_val(ts[2])
    if st == 1:
        return it.mkrange(ts[0], ts[1])
    lo, hi = tm.const_val(ts[0]), tm.const_val(ts[1])
    if None not in (st, lo, hi):
        return Seq([Fam((), TRUE, x) for x in range(int(lo), int(hi), int(st))])
    if st == -1:
        # reversed range: same elements, order not represented
        s = it.mkrange(tm.add(ts[1], tm.ONE), tm.add(ts[0], tm.ONE))
        s.rng = None
        return s
    it.unsupported("range with a step")


@bi("sum")
def _sum(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    v = it.simp(a[0])
    h = getattr(v, "sum_", None)
    if h is not None:
        return h(it)
    return it.sum_(it.lift_iter(v, None), start)


def _minmax(op):
    def f(it, a, k):
        if len(a) == 1:
            seq = it.lift_iter(a[0], None)
            if "key" in k:
                it.unsupported("min/max key")
            if seq.concrete() and seq.parts:
                a = seq.values()
            else:
                parts = []
                for p in seq.parts:
                    parts.append((p.binders, p.guard, it.term(p.value)))
                if all(not bs for bs, g, b in parts) and (parts or "default" in k):
                    return guarded(it, op, parts, k)
                if len(parts) == 1 and "default" not in k:
                    bs, g, b = parts[0]
                    return opaque_reduce("maxs" if op == "max" else "mins", bs, g, b)
                it.unsupported("min/max of several families")
        out = None
        for x in a:
            if out is None:
                out = x
                continue

            def two(p, q):
                if isinstance(p, (int, float)) and isinstance(q, (int, float)):
                    return max(p, q) if op == "max" else min(p, q)
                P, Q = it.term(p), it.term(q)
                c = tm.le(P, Q)
                d = it.decide(c)
                if d is not None:
                    c = tm.boolc(d)
                return tm.ite(c, Q, P) if op == "max" else tm.ite(c, P, Q)
            out = it.lift(two, out, x)
        return out
    return f


def guarded(it, op, parts, k):
    """extremum of values some of which may be absent"""
    parts = sorted(parts, key=lambda p: (str(p[1]), str(p[2])))
    some = tm.or_(*[g for _, g, v in parts])
    if len(parts) == 1:
        out = parts[0][2]
    elif parts:
        memo = it.__dict__.setdefault("extrema", {})
        key = (op, tuple((str(g), str(v)) for _, g, v in parts))
        out = memo.get(key)
        if out is None:
            out = memo[key] = tm.app("%s%d" % (op, len(memo)), tuple(it.binders), parts[0][2].sort)
            for _, g, v in parts:
                it.theory.facts.append(tm.implies(g, tm.le(v, out) if op == "max" else tm.le(out, v)))
            it.theory.facts.append(tm.implies(some, tm.or_(*[
                tm.and_(g, tm.eq(out, v)) for _, g, v in parts])))
    if parts and it.decide(some) is True:
        return out
    if "default" not in k:
        it.raise_if(tm.not_(some), ExcVal("ValueError"))
        return out
    d = it.term(k["default"])
    return tm.ite(some, out, d) if parts else d


def opaque_reduce(op, bs, g, b):
    order = sorted(bs, key=lambda x: x.sort)
    ren = {x: tm.var("@%s%d%s" % (op, k, x.sort), x.sort) for k, x in enumerate(order)}
    return T(op, (tuple(ren[x] for x in order), tm.subst(g, ren), tm.subst(b, ren)), b.sort)


BUILTINS["min"] = Builtin("min", _minmax("min"))
BUILTINS["max"] = Builtin("max", _minmax("max"))


@bi("any")
def _any(it, a, k):
    outs = []
    for p in it.lift_iter(a[0], None).parts:
        sv = it.pc
        it.pc = tm.and_(sv, p.guard)
        c = it.truth(p.value) if it.pc is not FALSE else FALSE
        it.pc = sv
        outs.append(tm.exists(p.binders, tm.and_(p.guard, c), TRUE))
    return it.pybool(tm.or_(*outs))


@bi("all")
def _all(it, a, k):
    outs = []
    for p in it.lift_iter(a[0], None).parts:
        sv = it.pc
        it.pc = tm.and_(sv, p.guard)
        c = it.truth(p.value) if it.pc is not FALSE else TRUE
        it.pc = sv
        outs.append(tm.not_(tm.exists(p.binders, tm.and_(p.guard, tm.not_(c)), TRUE)))
    return it.pybool(tm.and_(*outs))


@bi("list")
def _list(it, a, k):
    if not a:
        return it.mklist(())
    s = it.lift_iter(a[0], None)
    r = it.mklist(s.parts)
    r.rng = s.rng
    r.meta.update(s.meta)
    return r


@bi("tuple")
def _tuple(it, a, k):
    if not a:
        return ()
    v = it.simp(a[0])
    s = it.lift_iter(v, None)
    if s.concrete():
        return tuple(s.values())
    return s


@bi("set")
def _set(it, a, k):
    if not a:
        return it.mklist(())
    return make_set(it, it.lift_iter(a[0], None))


BUILTINS["frozenset"] = BUILTINS["set"]


@bi("sorted")
def _sorted(it, a, k):
    s = it.lift_iter(a[0], None)
    if s.concrete() and "key" not in k:
        vs = s.values()
        if all(isinstance(x, int) for x in vs):
            return it.mklist([Fam((), TRUE, x) for x in sorted(vs, reverse=bool(k.get("reverse", False)))])
    r = it.mklist(s.parts)
    if s.rng is not None and not k:
        r.rng = s.rng
    return r


@bi("reversed")
def _reversed(it, a, k):
    s = it.lift_iter(a[0], None)
    if s.concrete():
        return it.mklist([Fam((), TRUE, x) for x in reversed(s.values())])
    r = it.mklist(s.parts)
    return r


@bi("dict")
def _dict(it, a, k):
    d = it.mkdict()
    if a:
        v = it.simp(a[0])
        if isinstance(v, SDict):
            d.slots["entries"] = v.entries
        else:
            for p in it.lift_iter(v, None).parts:
                kv = it.tuple_of(it.simp(p.value), None)
                from .interp import Entry
                d.slots["entries"] += (Entry("set", p.binders, p.guard, kv[0], kv[1]),)
    for kk, vv in k.items():
        it.dict_set(d, kk, vv)
    return d


@bi("defaultdict")
def _defaultdict(it, a, k):
    return it.mkdict((), a[0] if a else None)


@bi("enumerate")
def _enumerate(it, a, k):
    s = it.lift_iter(a[0], None)
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if s.concrete():
        return it.mklist([Fam((), TRUE, (it.binop(ast.Add(), st, n, None), v))
                          for n, v in enumerate(s.values())])
    if s.rng is not None and len(s.parts) == 1:
        p = s.parts[0]
        lo = s.rng[0]
        return Seq([Fam(p.binders, p.guard,
                        (tm.add(tm.sub(p.value, lo), it.term(st)), p.value))])
    r = as_indexed(it, s)
    if r is not None:
        b, lo, hi, val = r
        return Seq([Fam((b,), tm.and_(tm.le(lo, b), tm.lt(b, hi)),
                        (tm.add(tm.sub(b, lo), it.term(st)), val))])
    it.unsupported("enumerate of an unordered symbolic set")


def as_indexed(it, s):
    """sequence position -> value representation of an ordered list"""
    from .interp import range_guard
    if len(s.parts) == 1 and len(s.parts[0].binders) == 1:
        p = s.parts[0]
        b = p.binders[0]
        if b.sort == "I":
            r = range_guard(p.guard, b)
            if r is not None and r[2] is TRUE:
                return b, r[0], r[1], p.value
    return None


@bi("zip")
def _zip(it, a, k):
    if len(a) == 1 and type(a[0]).__name__ == "StarArg":
        # zip(*pairs): the sequences of the components
        ps = it.lift_iter(a[0].v, None).parts
        ps = [it.generic(p) for p in ps]
        n = {len(v) if isinstance(v, tuple) else None for _, _, v in ps}
        if len(n) != 1 or None in n:
            it.unsupported("zip(*...) of elements of unknown size")
        return it.mklist([Fam((), TRUE, Seq([Fam(b, g, v[j]) for b, g, v in ps])) for j in range(n.pop())])
    seqs = [it.lift_iter(x, None) for x in a]
    if all(s.concrete() for s in seqs):
        return it.mklist([Fam((), TRUE, t) for t in zip(*[s.values() for s in seqs])])
    idx = [as_indexed(it, s) for s in seqs]
    if all(r is not None for r in idx):
        j = tm.fresh("z", "I")
        vals = []
        g = [tm.le(tm.ZERO, j)]
        for b, lo, hi, v in idx:
            vals.append(subst_value(v, {b: tm.add(lo, j)}))
            g.append(tm.lt(j, tm.sub(hi, lo)))
        gg = []
        for x in g:
            if x not in gg:
                gg.append(x)
        return Seq([Fam((j,), tm.and_(*gg), tuple(vals))])
    from .order import zip_nested
    s = zip_nested(it, seqs)
    if s is not None:
        return s
    it.unsupported("zip of unordered symbolic sets")


@bi("isinstance")
def _isinstance(it, a, k):
    return it.pybool(isinst(it, a[0], a[1]))


@bi("issubclass")
def _issubclass(it, a, k):
    c, d = a
    if isinstance(c, ClassVal):
        ds = d if isinstance(d, tuple) else (d,)
        return any(x in c.mro() for x in ds)
    if isinstance(c, SomeClass) and hasattr(c, "of"):
        return it.pybool(isinst(it, c.of, d))
    it.unsupported("issubclass")


def present(it, o, name):
    def one(x):
        if x is None:
            return FALSE
        v = it.attr_or_missing(x, name)
        if v is MISSING or v is UNDEF:
            return FALSE
        if isinstance(v, U):
            miss = tm.or_(*[g for g, y in v.cases if y is MISSING or y is UNDEF])
            return tm.not_(miss)
        return TRUE
    return tm.or_(*[tm.and_(g, one(x)) for g, x in it.cases(o)])


@bi("hasattr")
def _hasattr(it, a, k):
    nm = it.simp(a[1])
    if not isinstance(nm, str):
        it.unsupported("hasattr with a symbolic name")
    return it.pybool(present(it, it.simp(a[0]), nm))


@bi("getattr")
def _getattr(it, a, k):
    o, nm = a[0], it.simp(a[1])
    if isinstance(nm, U):
        return it.lift(lambda n: _getattr(it, [o, n] + list(a[2:]), k), nm)
    if not isinstance(nm, str):
        it.unsupported("getattr with a symbolic name")
    if len(a) == 2:
        return it.getattr_(o, nm)
    c = present(it, it.simp(o), nm)
    return it.cond(c, lambda: it.getattr_(o, nm), lambda: a[2])


@bi("setattr")
def _setattr(it, a, k):
    nm = it.simp(a[1])
    if not isinstance(nm, str):
        it.unsupported("setattr with a symbolic name")
    it.setattr_(a[0], nm, a[2])


@bi("abs")
def _abs(it, a, k):
    def f(x):
        if isinstance(x, (int, float)):
            return abs(x)
        t = it.term(x)
        return tm.ite(tm.le(tm.ZERO, t), t, tm.neg(t))
    return it.lift(f, a[0])


@bi("int")
def _int(it, a, k):
    def f(x):
        if isinstance(x, (int, float)):
            return int(x)
        t = it.term(x)
        if t.sort == "I":
            return t
        if t.sort == "B":
            return tm.ite(t, tm.ONE, tm.ZERO)
        return tm.app("toint", (t,), "I")
    return it.lift(f, a[0]) if a else 0


class TypeVal(NativeClass):
    def attr(self, it, name):
        if name == "__name__":
            return self.name
        if name == "fromkeys" and self.name == "dict":
            def fk(i, a, k):
                from .interp import Entry
                v = a[1] if len(a) > 1 else None
                return i.mkdict([Entry("set", p.binders, p.guard, p.value, v)
                                 for p in i.lift_iter(a[0], None).parts])
            return Builtin("fromkeys", fk)
        return Opaque(self.name + "." + name)


def _typ(name):
    f = BUILTINS[name].fn if name in BUILTINS else None
    BUILTINS[name] = TypeVal(name, f)


@bi("float")
def _float(it, a, k):
    def f(x):
        if isinstance(x, str):
            return float(x)
        if isinstance(x, (int, float)):
            return x
        return it.term(x)
    return it.lift(f, a[0]) if a else 0


@bi("bool")
def _bool(it, a, k):
    return it.pybool(it.truth(a[0])) if a else False


@bi("str")
def _str(it, a, k):
    v = it.simp(a[0]) if a else ""
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        return str(v)
    if v is None:
        return "None"
    if hasattr(v, "str_"):
        return v.str_(it)
    if isinstance(v, Obj) and hasattr(it.schema.get(v.kind), "str_"):
        return it.schema[v.kind].str_(it, v)
    if isinstance(v, Inst) and getattr(v, "is_block", False):
        return v.slots.get("name", SymStr("block"))
    return SymStr("str()")


for _n in ("int", "float", "bool", "str", "list", "tuple", "set", "dict", "frozenset"):
    _typ(_n)


@bi("repr")
def _repr(it, a, k):
    return SymStr("repr")


@bi("type")
def _type(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, Inst):
        return v.cls
    c = SomeClass("type")
    c.of = v
    return c


@bi("print")
def _print(it, a, k):
    return None


@bi("iter")
def _iter(it, a, k):
    return it.iterate(a[0])


@bi("next")
def _next(it, a, k):
    s = it.lift_iter(a[0], None)
    if s.concrete() and s.parts:
        return s.values()[0]
    if "first" in s.meta:
        return s.meta["first"]
    if len(s.parts) == 1 and "one" in s.meta:
        return s.meta["one"]
    if not s.parts:
        if len(a) > 1:
            return a[1]
        it.raise_(ExcVal("StopIteration"))
    # guarded concrete alternatives: the first whose guard holds
    if all(not p.binders for p in s.parts):
        out = UNDEF
        for p in reversed(s.parts):
            out = p.value if out is UNDEF and p.guard is TRUE else it.merge(p.guard, p.value, out)
        return out
    return some_value(it, s, a[1:])


def some_value(it, s, default):
    """any of the values of the sequence if there is one (the choice is open)"""
    there, cases, facts = it.nonempty(s), [], []
    if default:
        cases.append((tm.not_(there), default[0]))
    else:
        it.raise_if(tm.not_(there), ExcVal("StopIteration"))
    for p in s.parts:
        n = next(CHOICES)
        bs, g, v = it.generic(p)
        fv = tuple(sorted(g.fv - set(bs), key=lambda x: x.key))
        m = {b: tm.app("chosen%d.%d" % (n, k), fv, b.sort) for k, b in enumerate(bs)}
        here = tm.and_(*[tm.not_(f) for f in facts], tm.app("from%d" % n, fv, "B"))
        it.theory.facts.append(tm.implies(tm.app("from%d" % n, fv, "B"), tm.subst(g, m)))
        cases.append((tm.and_(there, here), subst_value(v, m)))
        facts.append(tm.app("from%d" % n, fv, "B"))
    it.theory.facts.append(tm.implies(there, tm.or_(*facts)))
    return U(cases)


CHOICES = itertools.count()


@bi("map")
def _map(it, a, k):
    s = it.lift_iter(a[1], None)
    parts = []
    for p in s.parts:
        bs, g, v = it.generic(p)
        sv = it.pc
        it.pc = tm.and_(sv, g)
        r = it.call(a[0], [v], {})
        it.pc = sv
        parts.append(Fam(bs, g, r))
    return Seq(parts)


@bi("filter")
def _filter(it, a, k):
    s = it.lift_iter(a[1], None)
    parts = []
    for p in s.parts:
        bs, g, v = it.generic(p)
        sv = it.pc
        it.pc = tm.and_(sv, g)
        c = it.truth(it.call(a[0], [v], {}) if a[0] is not None else v)
        it.pc = sv
        parts.append(Fam(bs, tm.and_(g, c), v))
    return Seq(parts)


@bi("round")
def _round(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, int):
        return v
    if len(a) > 1 or k:
        return tm.app("round", (it.term(v),), "R")
    two = tm.num(2)
    it.theory.axiom("nearest", lambda x: tm.and_(
        tm.le(tm.mul(two, tm.sub(tm.app("nearest", (x,), "I"), x)), tm.ONE),
        tm.le(tm.mul(two, tm.sub(x, tm.app("nearest", (x,), "I"))), tm.ONE)))
    return tm.app("nearest", (it.term(v),), "I")


@bi("callable")
def _callable(it, a, k):
    v = it.simp(a[0])
    return isinstance(v, (Closure, Builtin, Bound, ClassVal))


@bi("id")
def _id(it, a, k):
    it.unsupported("id()")


BUILTINS["object"] = NativeClass("object", lambda it, a, k: Inst(BUILTINS["object"]))
for _n in ("property", "staticmethod", "classmethod"):
    BUILTINS[_n] = Opaque(_n)
BUILTINS["True"] = True
BUILTINS["False"] = False
BUILTINS["None"] = None
BUILTINS["Ellipsis"] = Opaque("Ellipsis")
BUILTINS["NotImplemented"] = Opaque("NotImplemented")
BUILTINS["__file__"] = "<file>"
for _n in EXC_PARENTS:
    BUILTINS.setdefault(_n, NativeClass(_n))


# -------------------------------------------------------------------- Pyomo
class PVar:
    def __init__(self, sets, within, bounds, init):
        self.sets, self.within, self.bounds, self.init = sets, within, bounds, init
        self.name = None

    def attach(self, it, block, name):
        bn = block.slots.get("name") or ""
        self.name = name if block is it.model else "%s.%s" % (bn, name)
        it.var_names.add(self.name)
        it.__dict__.setdefault("vars", {})[self.name] = self
        ix, bs, g = skolem_index(it, self.sets)
        sv = it.pc
        it.pc = tm.and_(sv, g)
        if it.pc is not FALSE:
            ref = tm.app(self.name, to_key(it, ix), "R")
            b0 = it.binders
            it.binders = b0 + bs
            it.effects.append(Effect("domain", ref, (self.within,), it.pc, it.binders, it.where))
            if self.bounds is not None:
                bd = self.bounds
                if isinstance(bd, (Closure, Bound, Builtin)):
                    bd = it.call(bd, [block] + list(ix), {})

                def put(b):
                    b = it.tuple_of(b, None)
                    for kk, x in zip(("lb", "ub"), b):
                        add_bound(it, kk, ref, x)
                it.lift(put, bd)
            it.binders = b0
        it.pc = sv

    def getitem(self, it, ix):
        if not self.sets and ix is None:
            ix = ()
        flat = [it.simp(x) for x in flat_index(ix)]
        us = [x for x in flat if isinstance(x, U)]
        if us:
            def one(*vals):
                vs = iter(vals)
                return self.getitem(it, tuple(next(vs) if isinstance(x, U) else x for x in flat))
            return it.lift(one, *us)
        if not it.spec_mode:
            c = member(it, self.sets, flat)
            if c is None:
                it.notes.append("index of %s not checked" % self.name)
            elif c is not TRUE:
                it.raise_if(tm.not_(c), ExcVal("KeyError", ("index of %s" % self.name,)))
        return tm.app(self.name, to_key(it, ix), "R")

    def setitem(self, it, ix, v):
        term_setattr(it, self.getitem(it, ix), "value", v)

    def as_term(self):
        return tm.app(self.name, (), "R")

    def attr(self, it, name):
        if name in ("index_set",):
            return Builtin(name, lambda i, a, k: self.index(i))
        if name in ("setub", "setlb", "fix"):
            return Builtin(name, lambda i, a, k: i.call(i.getattr_(tm.app(self.name, (), "R"), name), a, k))
        if name == "items" or name == "keys" or name == "values":
            def f(i, a, k):
                ix, bs, g = skolem_index(i, self.sets)
                key = tuple(ix) if len(ix) != 1 else ix[0]
                ref = tm.app(self.name, to_key(i, ix), "R")
                return Seq([Fam(bs, g, {"items": (key, ref), "keys": key, "values": ref}[name])])
            return Builtin(name, f)
        return MISSING

    def index(self, it):
        ix, bs, g = skolem_index(it, self.sets)
        return Seq([Fam(bs, g, tuple(ix) if len(ix) != 1 else ix[0])])

    def iterate(self, it):
        return self.index(it)

    def truth(self, it):
        return it.nonempty(self.index(it))


def member(it, sets, flat):
    """condition under which the flattened index belongs to the index sets;
    None: not expressible"""
    conds = []
    pos = 0
    for s in sets:
        seq = it.lift_iter(s, None)
        if not seq.parts:
            return FALSE
        d = None
        outs = []
        for p in seq.parts:
            bs, g, x = it.generic(p)
            val = flat_index(x)
            if d is None:
                d = len(val)
            elif d != len(val):
                return None
            tgt = flat[pos:pos + d]
            if len(tgt) < d:
                return FALSE
            r = it.solve_match(bs, tuple(val), tuple(tgt), None)
            if r is None:
                return None
            c, m = r
            if c is FALSE:
                continue
            left = tuple(b for b in bs if b not in m)
            body = tm.and_(c, tm.subst(g, m)) if m else tm.and_(c, g)
            if left and any(b in body.fv for b in left):
                body = tm.exists(left, body, TRUE)
            outs.append(body)
        conds.append(tm.or_(*outs))
        pos += d
    if pos != len(flat):
        return FALSE
    return tm.and_(*conds)


def distinguishes(it, keys, b):
    """other values of the loop's binder give other keys"""
    m = {b: tm.fresh("other", b.sort)}
    return it.solver.infeasible(tm.and_(
        it.pc, tm.subst(it.pc, m), tm.not_(tm.eq(b, m[b])),
        *[tm.eq(k, tm.subst(k, m)) for k in keys]))


def add_keyed(it, con, key, rel):
    """block.con.add(key, rel): the key must be in the index set, and two
    different rows must not share a key (the later one would replace it)"""
    if not it.spec_mode:
        flat = [it.simp(x) for x in flat_index(key)]
        if any(isinstance(x, U) for x in flat):
            it.unsupported("constraint index with several cases")
        if con.sets:
            c = member(it, con.sets, flat)
            if c is None:
                it.notes.append("index of %s not checked" % con.name)
            elif c is not TRUE:
                it.raise_if(tm.not_(c), ExcVal("KeyError", ("index of %s" % con.name,)))
        ks = set(to_key(it, key))
        n = len(it.rows)
        add_row(it, rel, con.name)
        for r in it.rows[n:]:
            fv = getattr(r.expr, "fv", ())
            for b in it.binders:
                if b in fv and b not in ks and not any(
                        k.sort == "I" and b in k.fv
                        and tm.const_val(tm.sub(k, b)) is not None for k in ks) \
                        and not distinguishes(it, ks, b):
                    it.unsupported("constraint index of %s does not identify the row" % con.name)
        return
    add_row(it, rel, con.name)


def to_key(it, ix):
    if isinstance(ix, list):
        ix = tuple(ix)
    """index value(s) -> tuple of terms"""
    out = []
    for x in flat_index(ix):
        x = it.simp(x)
        if isinstance(x, Obj):
            out.extend(x.key)
        elif isinstance(x, T):
            out.append(x)
        elif isinstance(x, bool):
            out.append(tm.num(int(x)))
        elif isinstance(x, int):
            out.append(tm.num(x))
        elif isinstance(x, str):
            out.append(it.lit(x))
        elif x is None:
            out.append(it.lit("None"))
        elif isinstance(x, U):
            raise Unsupported("index with several cases: %r" % (x,))
        else:
            raise Unsupported("index %r" % (x,))
    return tuple(out)


def skolem_index(it, sets):
    """generic element of a product of index sets"""
    ix = []
    bs = ()
    g = TRUE
    for s in sets:
        seq = it.lift_iter(s, None)
        fams = [p for p in seq.parts]
        if len(fams) == 0:
            return [], (), FALSE
        if len(fams) > 1:
            p = combine(it, fams)
        else:
            p = fams[0]
        b, gg, v = it.generic(p)
        bs += b
        g = tm.and_(g, gg)
        ix.extend(flat_index(v))
    return ix, bs, g


def combine(it, fams):
    """one family for a union of families with values of the same shape"""
    shape = [x.sort if isinstance(x, T) else x.kind if isinstance(x, Obj) else
             "S" if isinstance(x, str) else "I" for x in flat_index(fams[0].value)]
    vars_ = []
    val = []
    for s in shape:
        if s in ("I", "R", "S") or len(s) == 1:
            v = tm.fresh("u", s)
            vars_.append(v)
            val.append(v)
        else:
            proto = [x for x in flat_index(fams[0].value) if isinstance(x, Obj) and x.kind == s][0]
            ks = [tm.fresh("u", y.sort) for y in proto.key]
            vars_.extend(ks)
            val.append(Obj(s, ks))
    conds = []
    for p in fams:
        bs, g, v = it.generic(p)
        r = [g]
        for a, b in zip(flat_index(v), val):
            a = it.keyterm(a) if not isinstance(a, str) else it.lit(a)
            if isinstance(a, Obj):
                r.extend(tm.eq(x, y) for x, y in zip(a.key, b.key))
            else:
                r.append(tm.eq(a, b))
        conds.append(tm.exists(bs, tm.and_(*r), TRUE))
    return Fam(tuple(vars_), tm.or_(*conds), tuple(val))


def add_bound(it, kind, ref, x):
    def one(v):
        if v is None:
            it.effects.append(Effect(kind, ref, (None,), it.pc, it.binders, it.where))
        else:
            it.effects.append(Effect(kind, ref, (it.term(v),), it.pc, it.binders, it.where))
    it.lift(one, x)


SKIP = Opaque("Constraint.Skip")


def add_row(it, r, owner):
    r = it.simp(r)
    if isinstance(r, U):
        it.lift(lambda x: add_row(it, x, owner), r)
        return
    if r is SKIP:
        return
    if isinstance(r, Rel):
        k, e = r.row()
        it.rows.append(Row(k, e, it.pc, owner, where=it.where, binders=it.binders))
        return
    if isinstance(r, tuple):
        if len(r) == 2:
            it.rows.append(Row("==", tm.sub(it.term(r[0]), it.term(r[1])), it.pc,
                               owner, where=it.where, binders=it.binders))
            return
        lo, b, hi = r
        b = it.term(b)

        def low(x):
            if x is not None:
                it.rows.append(Row("<=", tm.sub(it.term(x), b), it.pc, owner,
                                   where=it.where, binders=it.binders))

        def high(x):
            if x is not None:
                it.rows.append(Row("<=", tm.sub(b, it.term(x)), it.pc, owner,
                                   where=it.where, binders=it.binders))
        it.lift(low, lo)
        it.lift(high, hi)
        return
    if isinstance(r, (bool,)) or (isinstance(r, T) and r.sort == "B"):
        # pyomo rejects a constant relation; a constant True means the
        # parameters alone decide it
        t = tm.boolc(r) if isinstance(r, bool) else r
        it.rows.append(Row("bool", t, it.pc, owner, where=it.where, binders=it.binders))
        return
    if r is None:
        it.raise_(ExcVal("ValueError", ("rule returned None",)))
    it.unsupported("constraint value %r" % (r,))


class PCon:
    def __init__(self, sets, rule, expr=None):
        self.sets, self.rule, self.expr = sets, rule, expr
        self.name = None

    def attach(self, it, block, name):
        bn = block.slots.get("name") or ""
        self.name = name if block is it.model else "%s.%s" % (bn, name)
        if self.expr is not None:
            add_row(it, self.expr, self.name)
            return
        if self.rule is None:
            return
        ix, bs, g = skolem_index(it, self.sets)
        sv, b0 = it.pc, it.binders
        it.pc = tm.and_(sv, g)
        if it.pc is FALSE or (bs and it.solver.infeasible(it.pc)):
            it.pc = sv
            return
        it.binders = b0 + bs
        em = len(it.exc_stack[-1])
        try:
            r = it.call(self.rule, [block] + list(ix), {})
            add_row(it, r, self.name)
        except Dead:
            pass
        it.pc, it.binders = sv, b0
        new = it.exc_stack[-1][em:]
        if new:
            del it.exc_stack[-1][em:]
            base = set(tm.conj(sv))
            cs = []
            for gx, e in new:
                rel = tm.and_(*[c for c in tm.conj(gx) if c not in base])
                x = tm.exists(bs, rel, TRUE)
                it.exc_stack[-1].append((tm.and_(sv, x), e))
                cs.append(x)
            it.pc = tm.and_(sv, tm.not_(tm.or_(*cs)))
            if it.pc is FALSE:
                raise Dead()

    def attr(self, it, name):
        if name == "add":
            def add(i, a, k):
                add_keyed(i, self, a[0], a[1] if len(a) > 1 else k["expr"])
            return Builtin("add", add)
        if name in ("activate", "deactivate", "clear"):
            it.unsupported("Constraint." + name)
        return MISSING

    def getitem(self, it, ix):
        it.unsupported("reading a constraint")

    def setitem(self, it, ix, v):
        add_keyed(it, self, ix, v)


class PExpr:
    def __init__(self, expr=None, sets=(), rule=None):
        self.expr, self.sets, self.rule = expr, sets, rule
        self.block = None

    def attach(self, it, block, name):
        self.block = block
        bn = block.slots.get("name") or ""
        self.name = name if block is it.model else "%s.%s" % (bn, name)
        if self.rule is not None and not self.sets:
            self.expr = it.call(self.rule, [block], {})

    def as_term(self):
        if isinstance(self.expr, T):
            return self.expr
        return tm.num(self.expr)

    def getitem(self, it, ix):
        if self.rule is None:
            it.unsupported("indexed expression without a rule")
        ix = list(flat_index(ix))
        return it.call(self.rule, [self.block] + ix, {})

    def attr(self, it, name):
        if name in ("expr", "value"):
            return self.expr
        if name in ("keys", "items"):
            def f(i, a, k):
                ix, bs, g = skolem_index(i, self.sets)
                key = tuple(ix) if len(ix) != 1 else ix[0]
                if name == "keys":
                    return Seq([Fam(bs, g, key)])
                return Seq([Fam(bs, g, (key, self.getitem(i, key)))])
            return Builtin(name, f)
        return MISSING


class PObjective:
    def __init__(self, expr, sense):
        self.expr, self.sense = expr, sense

    def attach(self, it, block, name):
        it.effects.append(Effect("objective", name, (self.expr, self.sense), it.pc, it.binders, it.where))

    def attr(self, it, name):
        if name == "expr":
            return self.expr
        if name == "sense":
            return self.sense
        return MISSING


class PBuild:
    def __init__(self, sets, rule):
        self.sets, self.rule = sets, rule

    def attach(self, it, block, name):
        if self.sets:
            ix, bs, g = skolem_index(it, self.sets)
            # run as a loop so that accumulators are summarised
            lp = {"symbolic": False, "cont": [], "brk": []}
            val = tuple(ix)
            it.summarise(Fam(bs, g, val), lambda v: it.call(self.rule, [block] + list(v), {}), lp, None)
            return
        it.call(self.rule, [block], {})


class PSuffix:
    def __init__(self, k):
        self.k = k


class PParam:
    pass


def _sets(a):
    return list(a)


def c_Var(it, a, k):
    within = k.get("within", k.get("domain", DOMAINS["Reals"]))
    return PVar(_sets(a), within, k.get("bounds"), k.get("initialize"))


def c_Constraint(it, a, k):
    if k.get("noruleinit"):
        return PCon(_sets(a), None)
    return PCon(_sets(a), k.get("rule"), k.get("expr"))


def c_Expression(it, a, k):
    e = k.get("expr", k.get("initialize"))
    rule = k.get("rule")
    if isinstance(e, PExpr):
        e = e.expr
    if e is not None and not isinstance(e, (T, int, float)):
        if isinstance(e, U):
            e = it.term(e)
        elif isinstance(e, PVar):
            e = e.as_term()
        elif hasattr(e, "as_term"):
            e = e.as_term()
        else:
            it.unsupported("Expression of %r" % (e,))
    return PExpr(e, _sets(a), rule)


def c_Set(it, a, k):
    init = k.get("initialize", ())
    if isinstance(it.simp(init), (Closure, Bound, Builtin)):
        it.unsupported("Set rule")
    if a:
        it.unsupported("indexed Set")
    v = it.simp(init)
    if v is None:
        v = ()
    return make_set(it, it.lift_iter(v, None))


def c_BuildAction(it, a, k):
    return PBuild(_sets(a), k["rule"])


def c_Objective(it, a, k):
    return PObjective(k.get("expr"), k.get("sense", 1))


class PSetModel:
    pass


DOMAINS = {n: Opaque("domain." + n) for n in (
    "Reals", "NonNegativeReals", "Binary", "NonNegativeIntegers", "Integers",
    "Boolean", "PositiveReals", "NonPositiveReals", "UnitInterval", "PercentFraction")}


class BlockClass(NativeClass):
    is_block = True

    def inst_attr(self, it, o, name):
        if name == "parent_block":
            def pb(i, a, k):
                return o.parent
            return Builtin("parent_block", pb)
        if name == "add_component":
            def ac(i, a, k):
                nm = i.simp(a[0])
                v = a[1]
                if not isinstance(nm, str):
                    nm = "block"
                if isinstance(v, Inst):
                    v.parent = o
                    v.slots.setdefault("name", v.cls.name)
                    i.setslot(o.slots, nm, v, o.base)
                    return
                i.setattr_(o, nm, v)
            return Builtin("add_component", ac)
        if name == "component":
            return Builtin("component", lambda i, a, k: i.getattr_(o, a[0]))
        if name == "find_component":
            return Builtin("component", lambda i, a, k: i.getattr_(o, a[0]))
        if name == "model":
            return Builtin("model", lambda i, a, k: it.model)
        if name == "del_component":
            def dc(i, a, k):
                i.rawset(o.slots, a[0] if isinstance(a[0], str) else "?", UNDEF)
            return Builtin("del_component", dc)
        return None

    @staticmethod
    def init(it, o, a, k):
        o.is_block = True


def pyomo_module():
    con = NativeClass("Constraint", c_Constraint)
    con.attrs = {"Skip": SKIP, "Feasible": SKIP,
                 "Infeasible": Opaque("Constraint.Infeasible"), "NoConstraint": SKIP}
    d = {
        "Var": NativeClass("Var", c_Var),
        "Constraint": con,
        "Expression": NativeClass("Expression", c_Expression),
        "Set": NativeClass("Set", c_Set),
        "BuildAction": NativeClass("BuildAction", c_BuildAction),
        "Objective": NativeClass("Objective", c_Objective),
        "ScalarBlock": BlockClass("ScalarBlock"),
        "SimpleBlock": BlockClass("SimpleBlock"),
        "ConcreteModel": BlockClass("ConcreteModel"),
        "Block": BlockClass("Block"),
        "minimize": 1, "maximize": -1,
        "Suffix": Opaque("Suffix"),
        "Piecewise": NativeClass("Piecewise", c_Piecewise),
    }
    d.update(DOMAINS)

    def quicksum(it, a, k):
        return it.sum_(it.lift_iter(a[0], None))
    d["quicksum"] = Builtin("quicksum", quicksum)
    d["value"] = Builtin("value", lambda it, a, k: a[0])
    return d


class PPiecewise:
    def __init__(self, a, k):
        self.a, self.k = a, k

    def attach(self, it, block, name):
        self.block = block
        if len(self.a) < 3 or set(self.k) - {"pw_pts", "f_rule", "pw_repn", "pw_constr_type"}:
            it.unsupported("arguments of Piecewise")


def pieces(it, a, k):
    """variables, kind, points and values of a function, at one index"""
    p, ix = a[0], tuple(a[1:])
    if not isinstance(p, PPiecewise):
        it.unsupported("not a piecewise function")
    points = it.getitem(p.k["pw_pts"], ix)

    def value(j):
        return it.call(p.k["f_rule"], [p.block, *ix, it.getitem(points, j)], {})
    from .inputs import computed
    return (it.getitem(p.a[-1], ix), it.getitem(p.a[-2], ix), p.k.get("pw_constr_type"),
            points, computed(it, it.term(it.length(points)), value))


def c_Piecewise(it, a, k):
    return PPiecewise(a, k)


# term attributes: Var data
def term_attr(it, t, name):
    if t.op == "f" and t.args[0] in it.var_names:
        if name in ("setub", "setlb"):
            kind = "ub" if name == "setub" else "lb"
            return Builtin(name, lambda i, a, k: add_bound(i, kind, t, a[0]))
        if name == "fix":
            def fix(i, a, k):
                v = a[0] if a else k.get("value", MISSING)
                if v is MISSING:
                    i.effects.append(Effect("fix", t, (), i.pc, i.binders, i.where))
                else:
                    def one(x):
                        i.effects.append(Effect("value", t, (i.term(x),), i.pc, i.binders, i.where))
                        i.effects.append(Effect("fix", t, (), i.pc, i.binders, i.where))
                    i.lift(one, v)
            return Builtin("fix", fix)
        if name == "set_value":
            return Builtin(name, lambda i, a, k: term_setattr(i, t, "value", a[0]))
        if name == "unfix":
            it.unsupported("unfix")
        if name in ("value", "lb", "ub"):
            it.unsupported("reading Var." + name)
        if name == "bounds":
            it.unsupported("reading Var.bounds")
    if tm.is_num_sort(t.sort):
        if name in ("max", "min"):
            return MISSING
        if name == "expr":
            return t
        return MISSING
    return MISSING


def term_setattr(it, t, name, v):
    if t.op == "f" and t.args[0] in it.var_names:
        if name == "value":
            it.lift(lambda x: it.effects.append(
                Effect("value", t, (it.term(x),), it.pc, it.binders, it.where)), v)
            return
        if name in ("lb", "ub"):
            add_bound(it, name, t, v)
            return
        if name == "fixed" and it.simp(v) is True:
            it.effects.append(Effect("fix", t, (), it.pc, it.binders, it.where))
            return
    it.unsupported("attribute %s set on %s" % (name, t))


def seq_attr(it, s, name):
    """numpy-like reductions of a parameter sequence: opaque but functional"""
    if name in ("max", "min", "sum", "mean"):
        if isinstance(s, SymSeq):
            return Builtin(name, lambda i, a, k: tm.app(s.name + "." + name, s.key, s.sort))
    if name in ("size", "_length"):
        if isinstance(s, SymSeq):
            return tm.app(s.name + ".size", s.key, "I")
    if name in ("value", "_value") and isinstance(s, SymSeq):
        return s.at(tm.ZERO)
    return MISSING


# ------------------------------------------------------------------ modules
def annuity(it, a, k):
    """oemof.tools.economics.annuity(capex, n, wacc): capex times a factor
    that depends only on n and wacc"""
    names = ["capex", "n", "wacc"]
    v = dict(zip(names, a))
    v.update(k)
    if set(v) - set(names):
        it.unsupported("annuity with replacement")
    return tm.mul(it.term(v["capex"]),
                  tm.app("annuity1", (it.term(v["n"]), it.term(v["wacc"])), "R"))


def models():
    po = pyomo_module()
    m = {}
    m["builtins"] = ModuleVal("builtins", BUILTINS)
    m["term_attr"] = term_attr
    m["term_setattr"] = term_setattr
    m["seq_attr"] = seq_attr
    for n in ("pyomo.core", "pyomo.environ", "pyomo.core.base.block", "pyomo.core.base",
              "pyomo.core.base.var"):
        m[n] = ModuleVal(n, po)
    m["pyomo"] = ModuleVal("pyomo", {"environ": m["pyomo.environ"], "core": m["pyomo.core"]})
    ident = lambda it, a, k: a[0]
    m["functools"] = ModuleVal("functools", {"reduce": Builtin("reduce", _reduce)})
    m["collections"] = ModuleVal("collections", {
        "defaultdict": BUILTINS["defaultdict"],
        "abc": ModuleVal("collections.abc", {"Iterable": Opaque("Iterable"), "Mapping": Opaque("Mapping")}),
        "OrderedDict": BUILTINS["dict"], "Counter": Builtin("Counter", _counter)})
    m["collections.abc"] = m["collections"].attrs["abc"]
    m["warnings"] = ModuleVal("warnings", {"warn": Builtin("warn", _warn),
                                           "catch_warnings": Opaque("catch_warnings"),
                                           "simplefilter": Builtin("sf", _warn)})
    m["logging"] = ModuleVal("logging", {n: Builtin(n, _warn) for n in
                                         ("info", "warning", "debug", "error")})
    m["logging"].attrs["getLogger"] = Builtin("getLogger", lambda it, a, k: Opaque("logger"))
    m["itertools"] = ModuleVal("itertools", {
        "product": Builtin("product", _product), "chain": Builtin("chain", _chain),
        "repeat": Builtin("repeat", _repeat)})
    m["calendar"] = ModuleVal("calendar", {"isleap": Builtin("isleap", _isleap)})
    m["math"] = ModuleVal("math", {
        "isfinite": Builtin("isfinite", _isfinite), "inf": float("inf"),
        "prod": Builtin("prod", _prod)})
    from .inputs import np_argmin, np_pairwise, np_where
    m["numpy"] = ModuleVal("numpy", {
        "isfinite": Builtin("isfinite", _isfinite), "inf": float("inf"),
        "sum": BUILTINS["sum"], "shape": Builtin("shape", _np_shape),
        "array": Builtin("array", _np_array), "ndarray": Opaque("ndarray"),
        "full": Builtin("full", _np_full), "where": Builtin("where", np_where),
        "maximum": Builtin("maximum", np_pairwise("max")),
        "minimum": Builtin("minimum", np_pairwise("min"))})
    m["numpy"].attrs["linalg"] = ModuleVal("numpy.linalg", {"solve": Builtin("solve", _solve)})
    from . import pdmodel
    m["numpy"].attrs["timedelta64"] = Builtin("timedelta64", pdmodel.timedelta64)
    m["numpy"].attrs["nan"] = pdmodel.NAN
    m["numpy"].attrs["argmin"] = Builtin("argmin", np_argmin)
    m["numpy"].attrs["cumsum"] = Builtin("cumsum", pdmodel.cumsum)
    m["pandas"] = pdmodel.pandas_module(ModuleVal)
    m["inspect"] = ModuleVal("inspect", {"isbuiltin": Builtin(
        "isbuiltin", lambda it, a, k: isinstance(it.simp(a[0]), Builtin))})
    m["numbers"] = ModuleVal("numbers", {"Real": Opaque("Real"), "Number": Opaque("Number")})
    econ = ModuleVal("oemof.tools.economics", {"annuity": Builtin("annuity", annuity)})
    dbg = ModuleVal("oemof.tools.debugging", {
        n: Opaque("Warning") for n in ("SuspiciousUsageWarning", "ExperimentalFeatureWarning")})
    m["oemof.tools"] = ModuleVal("oemof.tools", {"economics": econ, "debugging": dbg})
    m["oemof.tools.economics"] = econ
    m["oemof.tools.debugging"] = dbg
    m["oemof.network"] = network_module()
    m["oemof.network.groupings"] = m["oemof.network"].attrs["groupings"]
    return m


def network_module():
    """oemof.network.Edge: keeps the custom properties (an empty dict if
    there are none) and the flow/values given"""
    def edge_init(it, o, a, k):
        for key in k:
            if key not in ("custom_properties", "values", "flow", "input_node", "output_node"):
                it.raise_(ExcVal("TypeError", ("unexpected keyword " + key,)))
        cp = k.get("custom_properties")
        none = it.is_(it.simp(cp), None, None)
        it.setattr_(o, "custom_properties", it.merge(none, it.mkdict([]), cp))
        it.setattr_(o, "values", k.get("values", k.get("flow")))
    edge = NativeClass("Edge")
    edge.init = edge_init

    def node_init(it, o, a, k):
        """oemof.network.Node: knows the flows and custom properties given"""
        names = ("label", "inputs", "outputs", "parent_node", "custom_properties")
        if len(a) > 1:
            it.raise_(ExcVal("TypeError", ("too many arguments",)))
        if a and "label" in k:
            it.raise_(ExcVal("TypeError", ("multiple values",)))
        if not a and "label" not in k:
            it.raise_(ExcVal("TypeError", ("missing argument label",)))
        for key in k:
            if key not in names:
                it.raise_(ExcVal("TypeError", ("unexpected keyword " + key,)))
        it.setattr_(o, "label", a[0] if a else k["label"])
        for x in ("inputs", "outputs", "custom_properties"):
            v = it.simp(k.get(x))

            def copy(y):
                if y is None:
                    return it.mkdict([])
                if x != "custom_properties" and isinstance(y, SDict):
                    return it.mkdict(list(y.entries))
                return y
            it.setattr_(o, x, it.lift(copy, v))
    nd = NativeClass("Node")
    nd.init = node_init

    def es_init(it, o, a, k):
        """oemof.network.EnergySystem: sorts its nodes by the groupings given"""
        if a or set(k) - {"groupings", "nodes"}:
            it.unsupported("arguments of the network's EnergySystem")
        it.setattr_(o, "_groupings", k.get("groupings"))
    en = NativeClass("EnergySystem")
    en.init = es_init
    return ModuleVal("oemof.network", {
        "Edge": edge, "Node": nd, "groupings": groupings_module(),
        "energy_system": ModuleVal("oemof.network.energy_system", {"EnergySystem": en})})


def groupings_module():
    """groupings with a constant key and (perhaps) a filter; __call__ adds, under
    this key, the triples of the node's flows the filter accepts"""
    def ctor(it, a, k):
        if a or set(k) - {"constant_key", "filter"} or k.get("constant_key") is None:
            it.unsupported("grouping without constant key")
        o = Inst(cls)
        it.setattr_(o, "constant_key", k["constant_key"])
        it.setattr_(o, "filter", k.get("filter"))
        return o
    cls = NativeClass("FlowsWithNodes", ctor)
    return ModuleVal("oemof.network.groupings", {"FlowsWithNodes": cls})


def _counter(it, a, k):
    from .data import SymSeqLen
    from .units_times import Occurrences
    x = it.simp(a[0])
    if isinstance(x, SymSeqLen) and x.name == "order" and not k:
        return Occurrences(x.key[0])
    it.unsupported("Counter of %r" % (x,))


def _warn(it, a, k):
    it.warned.append((it.pc, a[0] if a else None))


def _isfinite(it, a, k):
    def f(x):
        if isinstance(x, (int, float)):
            return x not in (float("inf"), float("-inf"))
        t = it.term(x)
        p = tm.to_poly(t)
        if any(at is tm.INF for mo in p for at, _ in mo):
            return False
        return it.pybool(tm.not_(tm.or_(tm.eq(t, tm.INF), tm.eq(t, tm.neg(tm.INF)))))
    return it.lift(f, a[0])


def _np_shape(it, a, k):
    def f(x):
        if x is None or isinstance(x, (int, float, T, Obj, str, SymStr)):
            return ()
        n = getattr(x, "n", None)
        if n is not None:
            return (n,)
        if isinstance(x, (Seq, tuple)):
            return (it.length(x),)
        if isinstance(x, Inst) and it.attr_or_missing(x, "__len__") is MISSING:
            return ()
        it.unsupported("shape of %r" % (x,))
    return it.lift(f, a[0])


def _np_array(it, a, k):
    from .inputs import computed, NdSeq, InSeq

    def f(x):
        if isinstance(x, NdSeq):
            return x
        if isinstance(x, InSeq):
            return NdSeq(x)
        if isinstance(x, Seq) and x.concrete() and any(isinstance(v, Seq) for v in x.values()):
            return x          # a matrix, kept as its rows
        if isinstance(x, Seq):
            return computed(it, it.term(it.length(x)), lambda t: it.getitem(x, t))
        it.unsupported("array of %r" % (x,))
    return it.lift(f, a[0])


def _solve(it, a, k):
    """numpy.linalg.solve of two equations"""
    rows = a[0].values() if isinstance(a[0], Seq) and a[0].concrete() else []
    if len(a) != 2 or k or len(rows) != 2 or any(
            not isinstance(r, Seq) or not r.concrete() or len(r.values()) != 2 for r in rows) \
            or tm.const_val(it.term(it.length(a[1]))) != 2:
        it.unsupported("system of equations")
    (p, q), (r, s) = [[it.term(v) for v in x.values()] for x in rows]
    u, v = [it.term(it.getitem(a[1], i)) for i in (0, 1)]
    det = tm.sub(tm.mul(p, s), tm.mul(q, r))
    it.raise_if(tm.eq(det, tm.ZERO), ExcVal("LinAlgError"))
    return Seq([Fam((), TRUE, tm.div(tm.sub(tm.mul(*x), tm.mul(*y)), det))
                for x, y in (((u, s), (q, v)), ((p, v), (u, r)))])


def _np_full(it, a, k):
    from .inputs import computed
    v = a[1]
    return computed(it, it.term(a[0]), lambda t: v)


def _isleap(it, a, k):
    def f(y):
        if not isinstance(y, (T, int)):
            it.raise_(ExcVal("TypeError"))
        return it.pybool(tm.app("isleap", (it.term(y),), "B"))
    return it.lift(f, a[0])


def _prod(it, a, k):
    s = it.lift_iter(a[0], None)
    if s.concrete():
        out = tm.ONE
        for v in s.values():
            out = tm.mul(out, it.term(v))
        return out
    if len(s.parts) == 1:
        p = s.parts[0]
        return mkprod(p.binders, p.guard, it.term(p.value))
    it.unsupported("prod")


def mkprod(bs, g, body):
    """product over an integer range, counted from zero"""
    if len(bs) == 1 and bs[0].sort == "I":
        x = bs[0]
        for c in tm.conj(g):
            if c.op != "<=" or x not in c.fv:
                continue
            p = tm.to_poly(tm.sub(c.args[0], c.args[1]))
            mx = ((x, 1),)
            if p.get(mx) == -1 and not any(
                    x in a.fv for m in p if m != mx for a, _ in m):
                lo = tm.add(tm.sub(c.args[0], c.args[1]), x)     # lo <= x
                if lo is not tm.ZERO and tm.const_val(lo) != 0:
                    m = {x: tm.add(x, lo)}
                    return mkprod(bs, tm.and_(*[tm.subst(d, m) for d in tm.conj(g)]),
                                  tm.subst(body, m))
                break
    return opaque_reduce("prod", bs, g, body)


def _reduce(it, a, k):
    s = it.lift_iter(a[1], None)
    if s.concrete():
        vs = list(s.values())
        acc = a[2] if len(a) > 2 else vs.pop(0)
        for v in vs:
            acc = it.call(a[0], [acc, v], {})
        return acc
    it.unsupported("reduce")


def _product(it, a, k):
    seqs = [it.lift_iter(x, None) for x in a]
    fams = [Fam((), TRUE, ())]
    for s in seqs:
        nxt = []
        for f in fams:
            for p in s.parts:
                bs, g, v = it.generic(p)
                nxt.append(Fam(f.binders + bs, tm.and_(f.guard, g), f.value + (v,)))
        fams = nxt
    return Seq(fams)


def _repeat(it, a, k):
    def f(n):
        if n is None:
            it.raise_(ExcVal("TypeError", ("not an integer",)))
        t = tm.fresh("k", "I")
        return Seq([Fam((t,), tm.and_(tm.le(tm.ZERO, t), tm.lt(t, it.term(n))), a[0])])
    if len(a) > 1:
        return it.lift(f, it.simp(a[1]))
    t = tm.fresh("k", "I")
    return Seq([Fam((t,), tm.le(tm.ZERO, t), a[0])])


def _chain(it, a, k):
    from .interp import StarArg
    parts = ()
    for x in a:
        if isinstance(x, StarArg):
            # each element of a symbolic list is a list
            for p in it.lift_iter(x.v, None).parts:
                bs, g, v = it.generic(p)
                sv, sb = it.pc, it.binders
                it.pc, it.binders = tm.and_(sv, g), sb + tuple(bs)
                for q in it.lift_iter(v, None).parts:
                    cs, h, y = it.generic(q)
                    parts += (Fam(tuple(bs) + tuple(cs), tm.and_(g, h), y),)
                it.pc, it.binders = sv, sb
            continue
        parts += it.lift_iter(x, None).parts
    return Seq(parts)
