"""Ordered lists given by nests of integer ranges.

A comprehension over integer ranges yields its values in lexicographic order of
the range variables; the position of a value is a sum of widths."""

from . import terms as tm
from .interp import Effect, ExcVal, Fam, Seq, U, range_guard, subst_value
from .terms import TRUE


def fixed(p):
    """family without the range variables that an equality fixes"""
    for i, b in enumerate(p.binders):
        for c in tm.conj(p.guard):
            if c.op != "=" or b.sort != "I" or b not in c.fv:
                continue
            x, y = c.args
            e = y if x is b else x if y is b else None
            if e is None or b in e.fv:
                continue
            m = {b: e}
            return fixed(Fam(p.binders[:i] + p.binders[i + 1:], tm.subst(p.guard, m),
                             subst_value(p.value, m)))
    return p


def levels(p, it=None):
    """[(variable, lower, upper)] of a family of values, outermost first;
    None: not a nest of ranges"""
    p = fixed(p)
    g, out = p.guard, []
    for i in reversed(range(len(p.binders))):
        b = p.binders[i]
        if b.sort != "I":
            return None
        r = range_guard(g, b)
        if r is None:
            return None
        lo, hi, g = r
        if (lo.fv | hi.fv) & set(p.binders[i:]):
            return None
        out.insert(0, (b, lo, hi))
    if g is not TRUE and not (it is not None and not g.fv & set(p.binders) and it.decide(g) is True):
        return None
    return out


def width(it, lo, hi):
    n = tm.sub(hi, lo)
    return n if it.decide(tm.le(lo, hi)) is True else tm.ite(tm.le(lo, hi), n, tm.ZERO)


def total(it, lv):
    """number of values"""
    if not lv:
        return tm.ONE
    b, lo, hi = lv[0]
    inner = total(it, lv[1:])
    if b not in inner.fv:
        return tm.mul(width(it, lo, hi), inner)
    return tm.mksum((b,), tm.and_(tm.le(lo, b), tm.lt(b, hi)), inner)


def position(it, lv):
    """position of the value of the range variables"""
    if not lv:
        return tm.ZERO
    b, lo, hi = lv[0]
    inner = total(it, lv[1:])
    if b not in inner.fv:
        head = tm.mul(tm.sub(b, lo), inner)
    else:
        k = tm.fresh("k", "I")
        head = tm.mksum((k,), tm.and_(tm.le(lo, k), tm.lt(k, b)), tm.subst(inner, {b: k}))
    return tm.add(head, position(it, lv[1:]))


def single(it, s):
    """(levels, value) of an ordered list in one piece"""
    if s.rng is not None:
        k = tm.fresh("k", "I")
        return [(k, s.rng[0], s.rng[1])], k
    if len(s.parts) != 1:
        return None
    p = fixed(s.parts[0])
    lv = levels(p, it) if p.binders else None
    return None if lv is None else thin(lv, p.value)


def thin(lv, v):
    """ranges of exactly one number are none"""
    for j, (b, lo, hi) in enumerate(lv):
        if len(lv) > 1 and tm.sub(hi, lo) is tm.ONE:
            m = {b: lo}
            return thin(lv[:j] + [(c, tm.subst(x, m), tm.subst(y, m)) for c, x, y in lv[j + 1:]],
                        subst_value(v, m))
    return lv, v


def pieces(it, s):
    """[(levels, value)] of an ordered list: single values and nests of ranges"""
    if s.rng is not None:
        return [single(it, s)]
    out = []
    for p in s.parts:
        p = fixed(p)
        if not p.binders:
            if p.guard is not TRUE and it.decide(p.guard) is not True:
                return None
            out.append(([], p.value))
            continue
        lv = levels(p, it)
        if lv is None:
            return None
        out.append((lv, p.value))
    return out


def element(it, s, t):
    """element t of a list in several pieces; None: unknown order"""
    ps = pieces(it, s)
    if ps is None or any(len(lv) > 1 for lv, _ in ps):
        return None
    off, at = tm.ZERO, []
    for lv, v in ps:
        at.append((off, lv, v))
        off = tm.add(off, total(it, lv))
    if it.decide(tm.lt(t, tm.ZERO)) is True:
        t = tm.add(t, off)
    elif it.decide(tm.le(tm.ZERO, t)) is not True:
        return None
    it.raise_if(tm.or_(tm.lt(t, tm.ZERO), tm.le(off, t)), ExcVal("IndexError"))
    cs = []
    for i, (o, lv, v) in enumerate(at):
        end = at[i + 1][0] if i + 1 < len(at) else off
        c = tm.and_(tm.le(o, t), tm.lt(t, end))
        d = it.decide(c)
        if d is False:
            continue
        w = subst_value(v, {lv[0][0]: tm.add(lv[0][1], tm.sub(t, o))}) if lv else v
        if d is True:
            return w
        cs.append((c, w))
    if len(cs) > 1 and all(isinstance(w, (int, float, tm.T)) and not isinstance(w, bool)
                           and it.term(w).sort in "IR" for _, w in cs):
        r = it.term(cs[-1][1])
        for c, w in reversed(cs[:-1]):
            r = tm.ite(c, it.term(w), r)
        return r
    return it.simp(U(cs))


def zip_nested(it, seqs):
    """zip of one nest of ranges with lists of the same length"""
    got = [single(it, s) for s in seqs]
    if any(g is None for g in got):
        return None
    deep = [i for i, g in enumerate(got) if len(g[0]) > 1]
    if len(deep) != 1:
        return None
    lv, v = got[deep[0]]
    n, pos = total(it, lv), position(it, lv)
    vals, guard = [], []
    for i, (l, x) in enumerate(got):
        if i == deep[0]:
            vals.append(v)
            continue
        b, lo, hi = l[0]
        if it.decide(tm.eq(tm.sub(hi, lo), n)) is not True:
            guard.append(tm.lt(pos, tm.sub(hi, lo)))
        vals.append(subst_value(x, {b: tm.add(lo, pos)}))
    rg = [c for b, lo, hi in lv for c in (tm.le(lo, b), tm.lt(b, hi))]
    return Seq([Fam([b for b, _, _ in lv], tm.and_(*rg, *guard), tuple(vals))])


def ordered(it, prop, have, want, what):
    """contract: have lists the values of want in the same order"""
    h, w = it.lift_iter(have, None), it.lift_iter(want, None)

    def say(c, bs=(), g=TRUE):
        it.effects.append(Effect("specholds", prop, (c, what), tm.and_(it.pc, g),
                                 it.binders + tuple(bs), it.where))

    def same(x, y, bs=(), g=TRUE):
        sv = it.pc
        it.pc = tm.and_(sv, g)
        c = it.truth(it.eq_(x, y, None))
        it.pc = sv
        say(c, bs, g)
    if h.concrete() and w.concrete():
        a, b = h.values(), w.values()
        say(tm.boolc(len(a) == len(b)))
        for x, y in zip(a, b):
            same(x, y)
        return
    a, b = single(it, h), single(it, w)
    if a is None or b is None:
        it.unsupported("order of %r and %r" % (h, w))
    (la, va), (lb, vb) = a, b
    if len(la) == len(lb):
        # the same nest of ranges
        ren, g = {}, TRUE
        for (x, lo, hi), (y, lo2, hi2) in zip(la, lb):
            lo2, hi2 = tm.subst(lo2, ren), tm.subst(hi2, ren)
            bs = [q[0] for q in la[:len(ren)]]
            empty = tm.and_(tm.le(hi, lo), tm.le(hi2, lo2))
            say(tm.or_(empty, tm.and_(tm.eq(lo, lo2), tm.eq(hi, hi2))), bs, g)
            ren[y] = x
            g = tm.and_(g, tm.le(lo, x), tm.lt(x, hi))
        same(va, subst_value(vb, ren), [q[0] for q in la], g)
        return
    if len(la) > len(lb):
        (la, va), (lb, vb) = (lb, vb), (la, va)
    if len(la) != 1:
        it.unsupported("order of %r and %r" % (h, w))
    x, lo, hi = la[0]
    say(tm.eq(width(it, lo, hi), total(it, lb)))
    g = tm.and_(*[c for b, l, u in lb for c in (tm.le(l, b), tm.lt(b, u))])
    same(subst_value(va, {x: tm.add(lo, position(it, lb))}), vb, [q[0] for q in lb], g)
