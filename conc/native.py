"""Executes the contracts on concrete Pyomo models built by the real code."""

import math
import numbers
import traceback

import pyomo.environ as po
from pyomo.core.expr.relational_expr import RelationalExpression
from pyomo.repn import generate_standard_repn

NOFIX = object()
TOL = 1e-7


def annuity(capex, n, wacc, u=None, cost_decrease=0):
    from oemof.tools import economics
    return economics.annuity(capex, n, wacc)


class ContractError(Exception):
    pass


def linear(expr):
    """{(names...): coef} of a polynomial expression of degree <= 2"""
    if isinstance(expr, (int, float)) or not hasattr(expr, "is_expression_type"):
        return {(): float(expr)}
    r = generate_standard_repn(expr, quadratic=True, compute_values=True)
    if r.nonlinear_expr is not None:
        raise ContractError("nonlinear expression")
    out = {}
    c = po.value(r.constant)
    if c:
        out[()] = c
    for v, k in zip(r.linear_vars, r.linear_coefs):
        out[(v.name,)] = out.get((v.name,), 0) + k
    for (a, b), k in zip(r.quadratic_vars, r.quadratic_coefs):
        key = tuple(sorted((a.name, b.name)))
        out[key] = out.get(key, 0) + k
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


class CRow:
    """canonical row: kind, names, coefficients (scaled), constant"""

    def __init__(self, kind, lin, origin, tag=None):
        self.origin, self.tag = origin, tag
        names = sorted(k for k in lin if k != ())
        co = [lin[k] for k in names]
        c = lin.get((), 0.0)
        self.trivial = None
        if not names:
            self.trivial = (abs(c) < TOL) if kind == "==" else c <= TOL
            s = 1.0
        else:
            s = max(abs(x) for x in co)
            if kind == "==" and co[0] < 0:
                s = -s
        self.kind, self.names = kind, tuple(names)
        self.vec = [x / s for x in co] + [c / s]

    def same(self, o):
        if self.kind != o.kind or self.names != o.names:
            return False
        sc = max(1.0, abs(self.vec[-1]))
        if sc == float("inf"):
            return self.vec == o.vec
        return all(abs(a - b) <= TOL * sc for a, b in zip(self.vec, o.vec))

    def __str__(self):
        s = " + ".join("%.6g*%s" % (v, "*".join(n)) for v, n in zip(self.vec, self.names))
        return "%s + %.6g %s 0" % (s, self.vec[-1], self.kind)


def rows_of_expr(rel, origin, tag=None):
    """canonical rows of a Pyomo relational expression (or a python bool)"""
    if rel is True or (isinstance(rel, (bool,)) and rel):
        return []
    if rel is False or type(rel).__name__ == "bool_":
        if bool(rel):
            return []
        return [CRow("==", {(): 1.0}, origin, tag)]
    a = rel.args
    out = []
    if len(a) == 2:
        d = linear(a[0] - a[1])
        out.append(CRow("==" if type(rel).__name__ == "EqualityExpression" else "<=",
                        d, origin, tag))
    else:
        out.append(CRow("<=", linear(a[0] - a[1]), origin, tag))
        out.append(CRow("<=", linear(a[1] - a[2]), origin, tag))
    return out


def rows_of_con(c):
    lo, hi = c.lower, c.upper
    body = c.body
    out = []
    if c.equality:
        out.append(CRow("==", linear(body - hi), c.name))
    else:
        if hi is not None:
            out.append(CRow("<=", linear(body - hi), c.name))
        if lo is not None:
            out.append(CRow("<=", linear(lo - body), c.name))
    return out


class Rejected(Exception):
    """the contract says the call has to fail, and it did"""


def scalar(x):
    """the value of a number (or of a constant sequence made from one)"""
    return x.value if type(x).__name__ == "_FakeSequence" else x


def is_series(x):
    return hasattr(x, "__len__") and not isinstance(x, (str, dict)) \
        and type(x).__name__ != "_FakeSequence"


def number(x):
    return isinstance(x, numbers.Real)


def steps(x):
    return range(len(x)) if is_series(x) else range(5)


def shortest(*xs):
    """number of steps all series have"""
    return min([len(x) for x in xs if is_series(x)], default=3)


def lowest(x):
    return min(x) if is_series(x) else scalar(x)


def highest(x):
    return max(x) if is_series(x) else scalar(x)


def hours(index):
    """durations of the intervals of a time index"""
    import datetime
    x = list(index)
    out = []
    for a, b in zip(x[:-1], x[1:]):
        d = b - a
        out.append(d.total_seconds() / 3600 if isinstance(d, datetime.timedelta) else d)
    return out


def new_year(year):
    """the first moment of a year"""
    import pandas as pd
    return pd.Timestamp(year=year, month=1, day=1)


def year_hours(year):
    return (new_year(year + 1) - new_year(year)).total_seconds() / 3600


def regular(index):
    """points in time whose distance is known"""
    import pandas as pd
    if not isinstance(index, pd.DatetimeIndex):
        return False
    if index.freq is not None:
        return True
    return len(index) > 2 and pd.infer_freq(index) is not None


def one_more(index):
    import pandas as pd
    f = index.freq or pd.tseries.frequencies.to_offset(pd.infer_freq(index))
    return list(index) + [index[-1] + f]


def pieces(pw, *key):
    """argument, value, kind, points and values of a piecewise linear function"""
    d = pw[key]
    kind = {"Equal": "EQ", "Upper": "UB", "Lower": "LB"}.get(d._bound_type.name, d._bound_type)
    return (pw._domain_var[key], pw._range_var[key], kind, list(d._domain_pts),
            list(d._range_pts))


def is_a(x, name):
    return any(c.__name__ == name for c in type(x).__mro__)


def public(o):
    """the parameters an object carries"""
    hidden = ("_", "registry", "inputs", "outputs", "Label", "input", "output", "constraint_group")
    return {a: getattr(o, a) for a in dir(o)
            if not a.startswith(hidden) and not callable(getattr(o, a))}


class Check:
    exc = None          # exception the call raised

    def __init__(self, unit):
        self.unit = unit
        self.rows, self.vars, self.bad = [], {}, []
        self.n = 0

    def report(self, prop, what, detail=""):
        self.bad.append({"property": prop, "unit": self.unit, "what": what,
                         "detail": str(detail)[:1500]})

    # ---- contract language
    def require(self, prop, rel):
        self.rows.extend(rows_of_expr(rel, "contract", prop))
        self.n += 1

    def variable(self, prop, var, domain="Reals", lb=None, ub=None, fix=NOFIX):
        self.n += 1
        st = STATE.get(id(var))
        if st is None:
            st = varstate(var)
        self.vars[id(var)] = var
        z, dlo, dhi = DOMAIN[domain]
        if st["int"] != z:
            self.report(prop, "%s: integrality %s instead of %s" % (var.name, st["int"], z))
        if fix is not NOFIX:
            if not st["fixed"]:
                self.report(prop, "%s is not fixed" % var.name, fix)
            elif not close(st["value"], fix):
                self.report(prop, "%s fixed to %s instead of %s" % (var.name, st["value"], fix))
            return
        if st["fixed"]:
            self.report(prop, "%s is fixed to %s" % (var.name, st["value"]))
            return
        lo = tight(dlo, lb, max)
        hi = tight(dhi, ub, min)
        if not close(lo, st["lb"]):
            self.report(prop, "%s: lower bound %s instead of %s" % (var.name, st["lb"], lo))
        if not close(hi, st["ub"]):
            self.report(prop, "%s: upper bound %s instead of %s" % (var.name, st["ub"], hi))

    def equal(self, prop, a, b, what="value"):
        self.n += 1
        if not same_value(a, b):
            self.report(prop, "%s differs from the contract" % what,
                        diff(a, b))

    def rejects(self, prop, c, what="call"):
        self.n += 1
        if c:
            if self.exc is None:
                self.report(prop, "no error is raised: %s" % what)
            raise Rejected()

    def holds(self, prop, c, what="condition"):
        self.n += 1
        if not c:
            self.report(prop, what)

    def ordered(self, prop, have, want, what):
        self.n += 1
        if list(have) != list(want):
            self.report(prop, what)

    def namespace(self):
        def has(o, a):
            return hasattr(o, a)
        def at(x, t):
            if hasattr(x, "iloc"):
                return x.iloc[t]
            return x[t] if hasattr(x, "__len__") else x
        return {"at": at, "require": self.require, "variable": self.variable,
                "equal": self.equal, "holds": self.holds, "NOFIX": NOFIX,
                "annuity": annuity, "has": has, "product": math.prod,
                "rejects": self.rejects, "returned": lambda: None, "steps": steps, "shortest": shortest, "lowest": lowest,
                "highest": highest, "is_series": is_series, "number": number,
                "finite": lambda x: math.isfinite(x), "is_a": is_a, "pieces": pieces,
                "is_class": lambda x, n: getattr(x, "__name__", None) == n,
                "public": public, "is_constant": lambda x: type(x).__name__ == "_FakeSequence",
                "is_list": lambda x: hasattr(x, "__iter__") and not isinstance(x, (str, dict)),
                "missing": lambda x: x is None or x != x, "hours": hours, "regular": regular, "one_more": one_more, "new_year": new_year, "year_hours": year_hours,
                "year": lambda x: x.year, "start": min, "stop": max,
                "groupings_of": lambda es: es._groupings,
                "ordered": self.ordered, "before": lambda x, p: sum(x[:p]),
                "typical": lambda x: len(set(x["order"])),
                "count": lambda x, k: sum(1 for y in x if y == k),
                "first": lambda x: next(iter(x)), "__name__": "contract"}


def tight(a, b, f):
    if b is not None:
        b = po.value(b)
        if math.isinf(b):
            b = None
    if a is None:
        return b
    if b is None:
        return a
    return f(a, b)


def close(a, b):
    if a is None or b is None:
        return a is b
    a, b = float(po.value(a)), float(po.value(b))
    if a == b:
        return True
    scale = max(1.0, abs(a), abs(b))
    return scale != float("inf") and abs(a - b) <= TOL * scale


def is_expr(x):
    return hasattr(x, "is_expression_type") and not isinstance(x, (int, float))


def diff(a, b):
    try:
        la, lb = linear(a), linear(b)
        ks = [k for k in set(la) | set(lb) if abs(la.get(k, 0) - lb.get(k, 0)) > TOL]
        return "; ".join("%s: %s vs %s" % (k, la.get(k, 0), lb.get(k, 0)) for k in sorted(ks)[:6])
    except Exception:
        return "%r vs %r" % (a, b)


def same_value(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if is_expr(a) or is_expr(b):
        la, lb = linear(a), linear(b)
        for k in set(la) | set(lb):
            x, y = la.get(k, 0.0), lb.get(k, 0.0)
            if not close(x, y):
                return False
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b)
    try:
        if hasattr(a, "__len__") and hasattr(b, "__len__"):
            return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
        return close(a, b)
    except Exception:
        return a == b


DOMAIN = {
    "Reals": (False, None, None), "NonNegativeReals": (False, 0, None),
    "Binary": (True, 0, 1), "NonNegativeIntegers": (True, 0, None),
    "Integers": (True, None, None), "UnitInterval": (False, 0, 1),
}

STATE = {}
BYNAME = {}


def implied(r):
    """a row on a single variable that its bounds already imply"""
    if r.kind != "<=" or len(r.names) != 1 or len(r.names[0]) != 1:
        return False
    st = BYNAME.get(r.names[0][0])
    if st is None or st["fixed"]:
        return False
    a, c = r.vec
    b = st["ub"] if a > 0 else st["lb"]
    return b is not None and a * b + c <= TOL


def varstate(v):
    lb, ub = v.bounds
    lb = None if lb is None or math.isinf(lb) else lb
    ub = None if ub is None or math.isinf(ub) else ub
    return {"int": v.is_integer() or v.is_binary(), "lb": lb, "ub": ub,
            "fixed": v.fixed, "value": v.value if v.fixed else None}


def snapshot(m):
    """remember bounds/fixing, then unfix so rows keep every variable"""
    STATE.clear()
    BYNAME.clear()
    for v in m.component_data_objects(po.Var, descend_into=True):
        STATE[id(v)] = BYNAME[v.name] = varstate(v)
        if v.fixed:
            v.unfix()


def compare(chk, actual, owner_prop):
    spec = {}
    for r in chk.rows:
        spec.setdefault((r.kind, r.names), []).append(r)
    act = {}
    for r in actual:
        act.setdefault((r.kind, r.names), []).append(r)
    for r in chk.rows:
        if r.trivial or implied(r):
            continue
        if not any(r.same(x) for x in act.get((r.kind, r.names), ())):
            near = [x for x in actual if x.names == r.names][:2]
            chk.report(r.tag, "required constraint missing: %s" % r,
                       "closest: %s" % "; ".join("%s: %s" % (x.origin, x) for x in near))
    for r in actual:
        if r.trivial or implied(r):
            continue
        if not any(r.same(x) for x in spec.get((r.kind, r.names), ())):
            chk.report(owner_prop(r.origin), "constraint not required by the contract: [%s] %s"
                       % (r.origin, r))
