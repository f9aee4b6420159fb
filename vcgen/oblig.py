"""Proof obligations: the rows/effects produced by the code against the rows
required by the contract."""

import itertools
import os
import time

import z3

from . import terms as tm
from .interp import T, Row, Effect
from .terms import FALSE, TRUE, Z


class Ob:
    def __init__(self, oid, prop, func, text):
        self.id, self.prop, self.func, self.text = oid, prop, func, text
        self.status = "open"        # proved / refuted / undecided
        self.detail = ""
        self.time = 0.0

    def as_dict(self):
        return {"id": self.id, "property": self.prop, "function": self.func,
                "obligation": self.text, "status": self.status,
                "detail": self.detail, "seconds": round(self.time, 4)}


class Prover:
    def __init__(self, it):
        self.it = it
        self.solver = it.solver
        self.deadline = None

    # --------------------------------------------------------------- zero
    def zero(self, pc, t, depth=0):
        """pc |= t == 0"""
        p = tm.to_poly(t)
        if not p:
            return True
        if pc is FALSE or self.solver.infeasible(pc):
            return True
        if depth > 60 or (self.deadline and time.time() > self.deadline):
            return False
        # equalities in pc
        m = self.eqs(pc)
        if m:
            t2 = tm.subst(t, m)
            pc2 = tm.and_(*[tm.subst(c, m) for c in tm.conj(pc)])
            if t2 is not t:
                return self.zero(tm.and_(pc2, *[c for c in tm.conj(pc) if c.op == "=" ]) if False else pc2, t2, depth + 1)
        it = tm.find_ite(t)
        if it is not None:
            a = self.split_atom(it.args[0])
            na = tm.not_(a)
            for lit, m2 in ((a, {a: TRUE, na: FALSE}), (na, {a: FALSE, na: TRUE})):
                pb = tm.and_(pc, lit)
                if pb is FALSE or self.solver.infeasible(pb):
                    continue
                if not self.zero(pb, tm.subst(t, m2), depth + 1):
                    return False
            return True
        sums = {}
        rest = {}
        for mo, c in p.items():
            ss = [(a, e) for a, e in mo if a.op == "sum"]
            if len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                sig = tuple(x.sort for x in a.args[0])
                others = tm.from_poly({tm.mono([q for q in mo if q[0] is not a]): c}, "R")
                sums.setdefault(sig, []).append((a, others))
            else:
                rest[mo] = c
        if not sums:
            return self.zero_z3(pc, t)
        if rest and not self.zero(pc, tm.from_poly(rest, "R"), depth + 1):
            return False
        for sig, atoms in sums.items():
            if not self.zero_sum(pc, sig, atoms, depth):
                return False
        return True

    def tight(self, pc):
        """equalities a = b implied by a pair a <= b, b <= a"""
        seen = {}
        out = []
        for c in tm.conj(pc):
            if c.op != "<=" or c.args[0].sort != "I" or c.args[1].sort != "I":
                continue
            d = tm.sub(c.args[0], c.args[1])
            if tm.neg(d) in seen:
                out.append(tm.eq(d, tm.num(0)))
            seen[d] = c
        return out

    def normalise(self, row):
        """eliminate the binders an equality in the guard determines"""
        for _ in range(4):
            m = {}
            for c in tuple(tm.conj(row.guard)) + tuple(self.tight(row.guard)):
                if c.op != "=":
                    continue
                c = tm.subst(c, m) if m else c
                s = tm.solve_point(c, tuple(b for b in row.binders if b not in m)) \
                    if c.op == "=" else None
                if s is not None:
                    m = {k: tm.subst(v, {s[0]: s[1]}) for k, v in m.items()}
                    m[s[0]] = s[1]
            if not m:
                return row
            row = Row(row.kind, tm.subst(row.expr, m),
                      tm.and_(*[tm.subst(c, m) for c in tm.conj(row.guard)]),
                      row.owner, row.tag, row.where,
                      tuple(b for b in row.binders if b not in m))
        return row

    def eqs(self, pc):
        m = {}
        for c in tm.conj(pc) + tuple(self.tight(pc)):
            if c.op == "=":
                a, b = c.args
                a2, b2 = (tm.subst(a, m), tm.subst(b, m)) if m else (a, b)
                if a2 is b2:
                    continue
                for x, e in ((a2, b2), (b2, a2)):
                    if x.op == "v" and x not in e.fv and x.args[0] not in ("NT", "NP"):
                        m = {k: tm.subst(v, {x: e}) for k, v in m.items()}
                        m[x] = e
                        break
                else:
                    if a.sort == "I":
                        bs = tuple(v for v in c.fv if v.sort == "I" and v not in m
                                   and v.args[0] not in ("NT", "NP", "END"))
                        s = tm.solve_point(tm.eq(a2, b2), bs) if bs else None
                        if s is not None:
                            m = {k: tm.subst(v, {s[0]: s[1]}) for k, v in m.items()}
                            m[s[0]] = s[1]
                        else:
                            # function application on one side
                            for x, e in ((a2, b2), (b2, a2)):
                                if x.op == "f" and tm.const_val(e) is not None:
                                    m[x] = e
                                    break
        return m

    def zero_sum(self, pc, sig, atoms, depth):
        bs0 = tuple(tm.fresh("s", s) for s in sig)
        groups = [[bs0[k] for k in ix] for ix in _sortgroups(sig)]
        perms = [list(itertools.permutations(g)) for g in groups]
        combos = list(itertools.product(*perms))
        if len(combos) > 6:
            combos = combos[:6]

        def inst(a, perm):
            order = []
            for g in perm:
                order.extend(g)
            m = dict(zip(a.args[0], order))
            return tm.subst(a.args[1], m), tm.subst(a.args[2], m)

        def attempt(choice):
            total = tm.ZERO
            for (a, oth), pm in zip(atoms, choice):
                g, b = inst(a, pm)
                total = tm.add(total, tm.ite(g, tm.mul(oth, b), tm.ZERO))
            return self.zero(pc, total, depth + 1)

        if len(combos) == 1:
            return attempt([combos[0]] * len(atoms))
        # node pairs are ordered: isflow(a, b) fixes which binder comes first
        pick = [self.oriented(inst(a, pm)[0], bs0, pm) for a, _ in atoms for pm in combos]
        rows = [pick[k * len(combos):(k + 1) * len(combos)] for k in range(len(atoms))]
        if all(sum(r) == 1 for r in rows):
            if attempt([combos[r.index(True)] for r in rows]):
                return True
        if len(combos) ** (len(atoms) - 1) > 64:
            return attempt([combos[0]] * len(atoms))
        for rest in itertools.product(combos, repeat=len(atoms) - 1):
            if attempt((combos[0],) + rest):
                return True
        return False

    @staticmethod
    def split_atom(c):
        """an atomic condition of c (parameters before comparisons)"""
        best = None
        todo = [c]
        while todo:
            x = todo.pop(0)
            if x.op in ("and", "or"):
                todo = list(x.args) + todo
            elif x.op == "not":
                todo.insert(0, x.args[0])
            elif x.op in ("f", "v"):
                return x
            elif best is None:
                best = x
        return best

    @staticmethod
    def oriented(g, bs0, pm):
        idx = {b: k for k, b in enumerate(bs0)}
        fl = [c for c in tm.conj(g) if c.op == "f" and c.args[0] == "isflow"
              and c.args[1] in idx and c.args[2] in idx]
        return bool(fl) and all(idx[c.args[1]] < idx[c.args[2]] for c in fl)

    def zero_z3(self, pc, t):
        # decision variables range over all values: a variable that cannot
        # coincide with another one must have coefficient zero
        p = tm.to_poly(t)
        co, names = {}, {}
        for mo, c in p.items():
            vs = [(a, e) for a, e in mo if a.op == "f" and a.args[0] in self.it.var_names]
            if len(vs) == 1 and vs[0][1] == 1:
                a = vs[0][0]
                co.setdefault(a, {})[tm.mono([q for q in mo if q[0] is not a])] = c
            elif vs:
                for a, _ in vs:
                    names[a.args[0]] = 9
        for a in co:
            names[a.args[0]] = names.get(a.args[0], 0) + 1
        for a, q in co.items():
            if names[a.args[0]] == 1 and len(p) > len(q):
                cf = tm.from_poly(q, "R")
                if tm.const_val(cf) is not None or not self.zero_z3(pc, cf):
                    return False
        # multiply by the (nonzero) denominators
        for _ in range(6):
            a = next((a for mo in tm.to_poly(t) for a, e in mo if a.op == "inv"), None)
            if a is None:
                break
            p = tm.to_poly(t)
            top = max(e for mo in p for b, e in mo if b is a)
            low = min([0] + [e for mo in p for b, e in mo if b is a])
            if low < 0 or top < 1:
                break
            q, out = tm.to_poly(a.args[0]), {}
            for mo, c in p.items():
                k = dict(mo).get(a, 0)
                term = {tm.mono([x for x in mo if x[0] is not a]): c}
                for _i in range(top - k):
                    term = tm.pmul(term, q)
                tm.padd(out, term)
            t = tm.from_poly(out, "R")
        # an index that can take a single value only
        for c in tm.conj(pc):
            if c.op == "<=" and tm.const_val(c.args[0]) is not None \
                    and c.args[1].op == "v" and c.args[1].sort == "I":
                lo, k = c.args
                if any(x is k for x in tm.walk(t)) and self.solver.check(
                        tm.conj(pc) + (tm.not_(tm.le(k, lo)),)) == "unsat":
                    t = tm.subst(t, {k: lo})
        if tm.const_val(t) == 0 or not tm.to_poly(t):
            return True
        # congruence + arithmetic: monomials stay nonlinear terms for z3
        g = tm.T("=", (t, tm.num(0)), "B")
        r = self.solver.check(tm.conj(pc) + (tm.not_(g),)) == "unsat"
        if not r and os.environ.get("VDEBUG"):
            print("LEAF", str(tm.show(t))[:1500], "\n   UNDER", str([tm.show(c) for c in tm.conj(pc)])[:2500])
        return r

    # ------------------------------------------------------- row matching
    def atoms(self, t):
        """decision-variable atoms outside of binders"""
        out = []
        seen = set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == "f" and x.args[0] in self.it.var_names:
                out.append(x)
            if x.op in tm.BINDERS:
                return
            for a in x.args:
                if isinstance(a, T):
                    go(a)
        go(t)
        return out

    def all_atoms(self, t):
        return [x for x in tm.walk(t) if x.op == "f"]

    def mappings(self, code, spec):
        """candidate instantiations of the code row's binders"""
        bs = set(code.binders) & (code.expr.fv | code.guard.fv)
        if not bs:
            yield {}, TRUE
            return
        seen = set()

        def complete(m):
            free = [b for b in code.binders if b in bs and b not in m]
            # equalities in the guard may determine the rest
            for c in tm.conj(code.guard):
                if c.op == "=" and free:
                    s = tm.solve_point(tm.subst(c, m), tuple(free))
                    if s is not None:
                        m = dict(m)
                        m[s[0]] = s[1]
                        free = [b for b in free if b is not s[0]]
            if not free:
                yield m
                return
            cands = []
            for b in free:
                opts = [x for x in spec.binders if x.sort == b.sort]
                ff = set()
                for tt in (spec.expr, spec.guard):
                    for x in tm.walk(tt):
                        if x.op == "f" and x.sort == b.sort and not any(
                                v.args[0].startswith("@") for v in x.fv) and x.sort not in ("R", "B"):
                            ff.add(x)
                opts = opts + sorted(ff, key=lambda x: x.key)[:4]
                cands.append(opts[:6])
            for combo in itertools.islice(itertools.product(*cands), 60):
                m2 = dict(m)
                m2.update(zip(free, combo))
                yield m2

        ca = self.atoms(code.expr) or self.all_atoms(code.expr)
        sa = self.atoms(spec.expr) or self.all_atoms(spec.expr)
        partial = []
        same = {}
        for x in ca:
            for y in sa:
                if x.args[0] != y.args[0] or len(x.args) != len(y.args):
                    continue
                m = {}
                ok = True
                late = []
                for a, b in zip(x.args[1:], y.args[1:]):
                    if any(v.args[0].startswith("@") for v in b.fv):
                        continue
                    if a in bs:
                        if m.get(a, b) is not b:
                            ok = False
                            break
                        m[a] = b
                    else:
                        late.append((a, b))
                if not ok:
                    continue
                for a, b in late:
                    a2 = tm.subst(a, m)
                    un = tuple(v for v in a2.fv if v in bs and v not in m)
                    if un and a2.sort == b.sort == "I":
                        s = tm.solve_point(tm.eq(a2, b), un)
                        if s is None and a2.op == "f" and a2.args[0] in self.it.inverses:
                            w = self.it.inverses[a2.args[0]](*a2.args[1:-1], b)
                            s = tm.solve_point(tm.eq(a2.args[-1], w), un)
                        if s is not None:
                            m[s[0]] = s[1]
                k = tuple(sorted((a.key, b.key) for a, b in m.items()))
                if k not in seen:
                    seen.add(k)
                    partial.append(m)
                # the instances with the same indices as the specified row
                last = [(tm.subst(a, m), b) for a, b in late]
                if last and not any(v in bs and v not in m for a, _ in late for v in a.fv):
                    same.setdefault(k, tm.and_(*[tm.eq(a, b) for a, b in last if a is not b]))
        partial.sort(key=lambda m: -len(m))
        n = 0
        done = set()
        for m in partial + [{}]:
            c = same.get(tuple(sorted((a.key, b.key) for a, b in m.items())), TRUE)
            for full in complete(m):
                k = tuple(sorted((a.key, b.key) for a, b in full.items()))
                if k in done:
                    continue
                done.add(k)
                n += 1
                if n > 80:
                    return
                yield full, TRUE
                if c is not TRUE and c is not FALSE:
                    yield full, c

    def scales(self, kind, a, b):
        """rational factors s with  a == s*b  worth trying"""
        pa, pb = tm.to_poly(a), tm.to_poly(b)
        out = [1]
        if kind == "==":
            out.append(-1)
        for m in pb:
            if m in pa and m != ():
                s = pa[m] / pb[m]
                if (s > 0 or kind == "==") and s not in out:
                    out.append(s)
                break
        return out

    def covers(self, spec, codes, extra=()):
        """every instance of `spec` (under its guard) is one of the code rows.
        Returns (ok, remaining guard)"""
        remaining = spec.guard
        if remaining is FALSE or self.solver.infeasible(remaining):
            return True, FALSE
        # already trivially true?
        if spec.kind == "==" and self.zero_quick(remaining, spec.expr):
            return True, FALSE
        for code in codes:
            if code.kind not in (spec.kind, "=="):
                continue
            if not self.compatible(code, spec):
                continue
            for m, same in self.mappings(code, spec):
                ce = tm.subst(code.expr, m)
                cg = tm.and_(tm.subst(code.guard, m), same)
                g = tm.and_(remaining, cg)
                if g is FALSE or self.solver.infeasible(g):
                    continue
                ok = False
                for s in self.scales(spec.kind, spec.expr, ce):
                    d = tm.sub(spec.expr, tm.mul(tm.num(s), ce))
                    if self.zero(g, d):
                        ok = True
                        break
                if ok:
                    fresh_left = tm.and_(remaining, tm.not_(tm.and_(*[
                        c for c in tm.conj(cg) if c not in tm.conj(remaining)])))
                    remaining = fresh_left
                    if remaining is FALSE or self.solver.infeasible(remaining):
                        return True, FALSE
        return False, remaining

    def zero_quick(self, pc, t):
        return not tm.to_poly(t)

    def compatible(self, code, spec):
        # same decision variables, at least one in common
        a = {x.args[0] for x in tm.walk(code.expr) if x.op == "f" and x.args[0] in self.it.var_names}
        b = {x.args[0] for x in tm.walk(spec.expr) if x.op == "f" and x.args[0] in self.it.var_names}
        return bool(a & b) or (not a and not b)

    # ----------------------------------------------- fallback: implication
    def implied(self, spec, codes, remaining):
        """z3: instances of the code rows  |=  spec row (given remaining)"""
        hyps = []
        for code in codes:
            if not self.compatible(code, spec):
                continue
            for m, _ in itertools.islice(self.mappings(code, spec), 6):
                ce, cg = tm.subst(code.expr, m), tm.subst(code.guard, m)
                r = tm.T("=", (ce, tm.num(0)), "B") if code.kind == "==" else \
                    tm.T("<=", (ce, tm.num(0)), "B")
                hyps.append(tm.implies(cg, r))
        goal = tm.T("=", (spec.expr, tm.num(0)), "B") if spec.kind == "==" else \
            tm.T("<=", (spec.expr, tm.num(0)), "B")
        return self.solver.check(tm.conj(remaining) + tuple(hyps) + (tm.not_(goal),))


def _sortgroups(sig):
    out = []
    k = 0
    while k < len(sig):
        j = k
        while j < len(sig) and sig[j] == sig[k]:
            j += 1
        out.append(list(range(k, j)))
        k = j
    return out
