"""Concrete checks for parts that are not blocks of constraints.

usage: probe.py NAME SEED SECONDS PROP OUT.json
       probe.py --replay FILE
Every probe executes contracts from /verif/contracts on what the real code
does with generated inputs."""

import collections
import json
import os
import random
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from conc import run  # noqa: E402  (first: selects the source)
from conc import findings as known, native, gen  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import pyomo.environ as po  # noqa: E402
from oemof import solph  # noqa: E402


class Collect:
    def __init__(self):
        self.bad, self.n, self.counts = [], 0, collections.Counter()

    def contract(self, file, fn, args, prop, exc=None, unit=None, kw={}, inputs=""):
        chk = native.Check(unit or fn)
        chk.exc = exc
        run.run_contract(chk, file, fn, args, prop, kw)
        for b in chk.bad:
            b["detail"] = "%s input: %s" % (b.get("detail", ""), str(inputs)[:900])
            self.bad.append(b)
        self.n += 1
        self.counts[chk.unit] += chk.n

    def report(self, prop, unit, what, detail=""):
        self.bad.append({"property": prop, "unit": unit, "what": what, "detail": str(detail)[:1200]})


def attempt(f):
    """(result, exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(), None
    except Exception as e:
        return None, e


# ------------------------------------------------------------------ C20
def values(r, n):
    return [r.choice([0, 1, -1, round(r.uniform(-5, 5), 3)]) for _ in range(n)]


def some_series(r, n):
    v = values(r, n)
    k = r.randrange(7)
    return [v, tuple(v), np.array(v), pd.Series(v), pd.Series(v, index=range(7, 7 + n)),
            pd.Series(v, index=pd.date_range("2020-01-01", periods=n, freq="h")),
            np.array(v, dtype=float)][k], v


def scalar(r):
    v = round(r.uniform(-5, 5), 3)
    return r.choice([v, int(v), np.float64(v), 0, 1.5, np.int64(3)])


def plumbing(r, c):
    from oemof.solph import _plumbing as pl
    F = "sequences.py"
    n = r.choice([1, 2, 3, 5, 24, 256, 257, 300, 1000])
    # series, number, nothing
    x, v = some_series(r, n)
    L = int(str(r.choice([n, n, n, n + 1, max(n - 1, 1)]))) if r.random() < 0.5 else None
    t = r.randrange(n)
    for y, l in ((x, L), (scalar(r), L), (None, None)):
        res, e = attempt(lambda: pl.sequence(y, length=l) if l is not None else pl.sequence(y))
        yy = v if y is x else y
        c.contract(F, "sequence", (res, yy, t, l), "C20", e, inputs="sequence(%s, %s)" % (short(y), l))
        if e is None and y is x and hasattr(y, "__setitem__"):
            orig = list(res)
            # a later change of the user's object does not matter: not promised
            del orig
    # constants
    val = scalar(r)
    l = r.choice([None, 1, 2, 3, 300])
    s = pl._FakeSequence(val, l) if r.random() < 0.5 else pl.sequence(val, l) if l else pl.sequence(val)
    ix = [r.choice([0, 1, 7, -1, 10 ** 6, (l or 5) - 1]) for _ in range(3)]
    if l:
        ix = [i for i in ix if -l <= i < l] or [0]
    hist = []
    for i in ix:
        for _ in range(r.choice([0, 0, 1, 2])):
            k = scalar(r)
            op = r.randrange(4)
            if op == 0:
                hist.append("* %r" % k)
                s, e = attempt(lambda: s * k)
                val = val * k
            elif op == 1:
                hist.append("%r *" % k)
                s, e = attempt(lambda: k * s)
                val = k * val
            elif op == 2:
                if k == 0:
                    k = 2
                hist.append("/ %r" % k)
                s, e = attempt(lambda: s / k)
                val = val / k
            else:
                if l is None:
                    l = r.choice([None, 2, 4])
                    if l is not None:
                        s.size = l
                        hist.append("size=%d" % l)
                e = None
            if e is not None:
                c.report("C20", "constant", "arithmetic with a constant series raised %r" % e, hist)
                return
        c.contract(F, "constant", (s, val, l, i), "C20", inputs="index %s after %s" % (i, hist))
        if l is not None:
            got, e = attempt(lambda: (list(s), list(s.to_numpy()), len(s)))
            if e is not None or got[2] != l or not all(
                    native.close(a, val) for a in got[0] + got[1]) or len(got[0]) != l or len(got[1]) != l:
                c.report("C20", "constant", "elements of a constant series", (got, e, val, l, hist))
        got, e = attempt(lambda: list(s.to_numpy(length=4)))
        if e is not None or len(got) != 4 or not all(native.close(a, val) for a in got):
            c.report("C20", "constant", "elements of a constant series as array", (got, e, val, hist))
    # products with series
    m = l if l is not None and r.random() < 0.8 else r.choice([2, 3, 300])
    y, v = some_series(r, m)
    y = np.array(v, dtype=float) if r.random() < 0.6 else pd.Series(v)
    if isinstance(y, np.ndarray):
        res, e = attempt(lambda: s * y)
        c.contract(F, "scaled_by_series", (res, val, v, l, r.randrange(m)), "C20", e,
                   inputs="%s * array of %d" % (s.size, m))
    if l is not None and l == m:
        res, e = attempt(lambda: y * s)
        if isinstance(y, pd.Series) and e is None:
            res = res.to_numpy()
        c.contract(F, "scaled_by_series", (res, val, v, l, r.randrange(m)), "C20", e,
                   inputs="%s of %d * constant" % (type(y).__name__, m))
    # horizon
    h = r.choice([1, 2, 3, 24, 300, 1000])
    for s in (pl.sequence(val), pl._FakeSequence(val, r.choice([h, h + 1])),
              pl.sequence(v), pl.sequence(v[:h] if len(v) >= h else v), None):
        size = getattr(s, "size", None)
        res, e = attempt(lambda: pl.valid_sequence(s, h))
        c.contract(F, "valid", (res, s, size, h), "C20", e, inputs="valid_sequence(%s of size %s, %d)" % (
            type(s).__name__, size, h))


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:100] + "... (%s of %s)" % (type(x).__name__, len(x))


def pick(r, pool, **defaults):
    """random subset of keyword arguments"""
    kw = {}
    for k, f in pool.items():
        if r.random() < 0.25:
            kw[k] = f()
    return kw


def constructors(r, c):
    from oemof.solph import Flow, Investment, NonConvex
    inf = float("inf")

    def ser(lo, hi):
        n = r.choice([1, 2, 3])
        v = [round(r.uniform(lo, hi), 2) for _ in range(n)]
        # (an array with a single value compares like that value)
        return r.choice([lambda: v[0], lambda: v, lambda: tuple(v),
                         lambda: np.array(v) if n > 1 else v,
                         lambda: [int(x) for x in v]])()

    def mixed(special, lo, hi):
        """series with special values somewhere"""
        n = r.choice([2, 3, 4])
        v = [r.choice([special, special, round(r.uniform(lo, hi), 2)]) for _ in range(n)]
        return r.choice([lambda: v, lambda: np.array(v, dtype=float), lambda: special,
                         lambda: [special] * n])()

    def investment(**force):
        kw = pick(r, {
            "maximum": lambda: r.choice([lambda: ser(10, 50), lambda: mixed(inf, 10, 50)])(),
            "minimum": lambda: ser(0, 5), "ep_costs": lambda: ser(0, 100),
            "existing": lambda: r.choice([0, 0, 3.5]),
            "nonconvex": lambda: r.choice([True, True, False, 1, 0, None, "yes"]),
            "offset": lambda: mixed(0, 1, 5), "overall_maximum": lambda: 100,
            "overall_minimum": lambda: r.choice([0, 3]),
            "lifetime": lambda: r.choice([1, 5, 20]), "age": lambda: r.choice([0, 1, 5, 6]),
            "fixed_costs": lambda: ser(0, 3),
            "custom_attributes": lambda: {"a": 1}, "custom_properties": lambda: {"b": 2}})
        kw.update(force)
        o, e = attempt(lambda: Investment(**kw))
        check(Investment, o, e, kw)
        return o

    def check(cls, o, e, kw):
        bad = []
        run.check_object(cls.__name__, o, e, kw, bad, c.counts)
        for b in bad:
            b["detail"] += " input: %s(%s)" % (cls.__name__, ", ".join("%s=%r" % i for i in kw.items()))
        c.bad += bad
        c.n += 1

    def nonconvex():
        kw = pick(r, {
            "initial_status": lambda: r.choice([0, 1]),
            "minimum_uptime": lambda: r.choice([2, [1, 2, 3], np.array([2, 2])]),
            "minimum_downtime": lambda: r.choice([2, [1, 2, 3], np.array([2, 2])]),
            "maximum_startups": lambda: r.choice([0, 3]), "maximum_shutdowns": lambda: r.choice([0, 3]),
            "startup_costs": lambda: ser(0, 5), "shutdown_costs": lambda: ser(0, 5),
            "activity_costs": lambda: ser(0, 5), "inactivity_costs": lambda: ser(0, 5),
            "negative_gradient_limit": lambda: ser(0.1, 0.9),
            "positive_gradient_limit": lambda: ser(0.1, 0.9),
            "custom_attributes": lambda: {"a": 1}, "custom_properties": lambda: {"b": 2}})
        o, e = attempt(lambda: NonConvex(**kw))
        check(NonConvex, o, e, kw)
        return o

    inv = investment()
    if r.random() < 0.5:
        inv = investment(maximum=r.choice([10, [10, 20]]))
    nc = nonconvex()
    pool = {
        "minimum": lambda: r.choice([lambda: ser(0.1, 0.4), lambda: mixed(0, 0.1, 0.4), lambda: -0.5,
                                     lambda: [0, -0.5], lambda: 0])(),
        "maximum": lambda: r.choice([lambda: ser(0.5, 1), lambda: mixed(1, 0.5, 1), lambda: 1,
                                     lambda: mixed(inf, 0.5, 1)])(),
        "fix": lambda: ser(0, 1), "variable_costs": lambda: ser(-3, 5),
        "positive_gradient_limit": lambda: ser(0.1, 0.5),
        "negative_gradient_limit": lambda: ser(0.1, 0.5),
        "full_load_time_max": lambda: r.choice([0, 5]), "full_load_time_min": lambda: r.choice([0, 5]),
        "integer": lambda: r.choice([True, False]), "nonconvex": lambda: nc,
        "lifetime": lambda: 10, "age": lambda: 3, "fixed_costs": lambda: ser(0, 3),
        "custom_attributes": lambda: {"keyword_a": 1}, "custom_properties": lambda: {"b": 2},
        "bidirectional": lambda: r.choice([True, False])}
    for _ in range(4):
        kw = pick(r, pool)
        k = r.randrange(10)
        if k < 4:
            kw["nominal_capacity"] = r.choice([5, 2.5, 0, np.float64(3), np.int64(4)])
        elif k < 6 and inv is not None:
            kw["nominal_capacity"] = inv
        elif k == 6:
            kw["nominal_capacity"] = r.choice([inf, -inf, float("nan"), "5", [5], np.array([5.0])])
        elif k == 7:
            kw["nominal_value"] = 5
            if r.random() < 0.3:
                kw["nominal_capacity"] = 5
        for a, b in (("min", "minimum"), ("max", "maximum")):
            if r.random() < 0.1:
                kw[a] = pool[b]()
                if r.random() < 0.7:
                    kw.pop(b, None)
        if kw.get("bidirectional") and isinstance(kw.get("minimum", kw.get("min")), (np.ndarray, list, tuple)):
            kw.pop("bidirectional")       # deprecated option, only numbers
        if any(isinstance(kw.get(k), np.ndarray) for k in ("minimum", "maximum", "min", "max")):
            kw.pop("fix", None) if r.random() < 0.5 else None
        o, e = attempt(lambda: Flow(**kw))
        check(Flow, o, e, kw)


def components(r, c):
    """constructors of the nodes, with what they accept and what they reject"""
    from oemof import solph
    from oemof.solph import Bus, Flow, Investment, NonConvex, components as co
    buses = [Bus("b%d" % i) for i in range(5)]

    def ser(lo, hi, first=None, zero=0.0):
        n = r.choice([1, 2, 3])
        v = [0.0 if r.random() < zero else round(r.uniform(lo, hi), 2) for _ in range(n)]
        if first is not None:
            v[0] = first
        return r.choice([lambda: v[0], lambda: v, lambda: tuple(v),
                         lambda: np.array(v) if n > 1 else v])()

    def flow(inv=0.3, nonconvex=0.0):
        kw = {}
        if r.random() < inv:
            kw["nominal_capacity"] = Investment(maximum=10)
        elif r.random() < 0.7 or nonconvex:
            kw["nominal_capacity"] = 5
            kw["maximum"] = ser(0.5, 1)
        if r.random() < nonconvex:
            kw["nonconvex"] = NonConvex()
        return Flow(**kw)

    def edges(ns, **k):
        r.shuffle(buses)
        n = r.choice(ns)
        if n == 0 and r.random() < 0.5:
            return {}
        return {b: flow(**k) for b in buses[:n]}

    def show(x):
        if isinstance(x, dict):
            return "{%s}" % ", ".join("%s: %s" % (show(k), show(v)) for k, v in x.items())
        if isinstance(x, tuple) and any(isinstance(y, Bus) for y in x):
            return "(%s)" % ", ".join(map(show, x))
        if isinstance(x, Bus):
            return str(x.label)
        if isinstance(x, (Flow, Investment)):
            return type(x).__name__ + ("(%s%s%s)" % (
                x.nominal_capacity, "/investment" if x.investment else "",
                "/nonconvex" if x.nonconvex else "") if isinstance(x, Flow) else
                "(existing=%s, minimum=%s)" % (x.existing, x.minimum))
        return repr(x)

    def make(cls, kw):
        o, e = attempt(lambda: cls(**kw))
        bad = []
        run.check_object(cls.__name__, o, e, kw, bad, c.counts)
        for b in bad:
            b["detail"] += " input: %s(%s)" % (cls.__name__, ", ".join(
                "%s=%s" % (k, show(v)) for k, v in kw.items()))
        c.bad += bad
        c.n += 1

    def factors(lo, hi, of, p=0.6, other=0.1):
        f = {b: ser(lo, hi) for b in of or {} if r.random() < p}
        if r.random() < other:
            f[r.choice(buses)] = ser(lo, hi)
        return f

    def common(kw):
        if r.random() < 0.3:
            kw["custom_properties"] = {"kw": 3}
        if r.random() < 0.2:
            kw["parent_node"] = Bus("parent")
        return kw

    # storages
    for _ in range(3):
        inv = r.random() < 0.5
        kw = {"label": "s"}
        for k in ("inputs", "outputs"):
            if r.random() < 0.9:
                kw[k] = edges([0, 1, 1, 1, 1, 1, 2] if r.random() < 0.4 else [1],
                              inv=0.8 if inv else 0.1)
        cap = lambda: Investment(minimum=r.choice([0, 0, 3, [0, 3], [3, 0], [3, 4]]),
                                 existing=r.choice([0, 0, 2]), maximum=50) if inv else \
            r.choice([0, 7.5, 10, 10, 10, np.float64(4), "much", [3, 4], None])
        key = r.choice(["nominal_capacity"] * 4 + ["nominal_storage_capacity"])
        kw[key] = cap()
        if r.random() < 0.05:
            kw.update(nominal_capacity=cap(), nominal_storage_capacity=cap())
        kw.update(pick(r, {
            "initial_storage_level": lambda: r.choice([0, 0.2, 0.5, 0.8, 1]),
            "min_storage_level": lambda: ser(0, 0.6), "max_storage_level": lambda: ser(0.4, 1),
            "balanced": lambda: r.choice([True, False]), "loss_rate": lambda: ser(0, 0.2),
            "fixed_losses_relative": lambda: ser(0, 0.2),
            "fixed_losses_absolute": lambda: ser(0, 3, r.choice([None, 0.0]), 0.4),
            "inflow_conversion_factor": lambda: ser(0.5, 1),
            "outflow_conversion_factor": lambda: ser(0.5, 1),
            "fixed_costs": lambda: ser(0, 3), "storage_costs": lambda: ser(0, 3),
            "lifetime_inflow": lambda: 20, "lifetime_outflow": lambda: 15}))
        if inv and r.random() < 0.4:
            kw["fixed_losses_absolute"] = ser(0, 3, 0.0)
        for k in ("input_output", "input_capacity", "output_capacity"):
            if r.random() < (0.25 if inv else 0.04):
                kw["invest_relation_" + k] = ser(0.1, 0.5)
        if r.random() < (0.05 if inv else 0.2):
            for k in ("constant_soc_until", "fraction_saturation_charging"):
                if r.random() < 0.8:
                    kw[k] = round(r.uniform(0, 1), 2)
        make(co.GenericStorage, common(kw))
    # converters, links, turbines
    for _ in range(2):
        kw = {"label": "c", "inputs": edges([0, 1, 1, 2, 3]), "outputs": edges([0, 1, 1, 2, 3])}
        if r.random() < 0.9:
            kw["conversion_factors"] = factors(0.2, 2, {**kw["inputs"], **kw["outputs"]})
        else:
            kw.pop(r.choice(["inputs", "outputs"]))
        make(co.Converter, common(kw))
    pair = r.sample(buses, 2)
    kw = {"label": "l", "inputs": {b: flow(0) for b in pair}, "outputs": {b: flow(0) for b in pair}}
    if r.random() < 0.9:
        kw["conversion_factors"] = {(a, b): ser(0.5, 1) for a, b in
                                    r.sample([tuple(pair), tuple(pair[::-1])], r.choice([1, 2, 2]))}
    make(co.Link, common(kw))
    out = r.sample(buses, 3)
    kw = {"label": "t", "inputs": {out[2]: flow()}, "outputs": {b: flow() for b in out[:2]},
          "conversion_factors": factors(0.2, 0.5, out[:2], 0.9),
          "conversion_factor_full_condensation": {out[0]: ser(0.5, 0.9)}}
    make(co.ExtractionTurbineCHP, common(kw))
    kw = {"label": "g", "fuel_input": {out[2]: flow()}, "electrical_output": {out[0]: flow()},
          "heat_output": {out[1]: flow()}, "beta": ser(0, 0.5), "back_pressure": r.choice([True, False])}
    make(co.GenericCHP, common(kw))
    x = co.experimental
    one = lambda b: {b: flow()}
    make(x.GenericCAES, common({
        "label": "a", "electrical_input": one(out[0]), "fuel_input": one(out[1]),
        "electrical_output": one(r.choice([out[0], out[2]])), "params": {"cav_level_max": 3}}))
    kw = {"label": "p", "inputs": {b: Flow(nominal_capacity=r.choice([4, 5, 6]))
                                   for b in out[:r.choice([1, 1, 1, 2])]},
          "outputs": edges([1, 1, 1, 2]), "conversion_function": lambda x: x * x,
          "in_breakpoints": r.choice([[0, 2, 5], (0, 5), [-1, 0, 4, 7], [0, 3], [0, 5, 3]]),
          "pw_repn": r.choice(["CC", "SOS2"])}
    make(x.PiecewiseLinearConverter, common(kw))
    kw = {"label": "bus", "balanced": r.choice([True, False]), "inputs": edges([0, 1, 2]),
          "outputs": edges([0, 1])}
    make(Bus, common({k: v for k, v in kw.items() if r.random() < 0.8 or k == "label"}))
    make(co.Source, common({"label": "so", "outputs": edges([0, 1, 2])}))
    make(co.Sink, common({"label": "si", "inputs": edges([0, 1, 2])}))
    # offset converters
    for _ in range(3):
        side = r.random() < 0.5
        ends = [edges([1, 1, 2], inv=0.05), {}]
        rest = [b for b in buses if b not in ends[0]]
        ends[1] = {b: flow(0.05) for b in rest[:r.choice([1, 1, 2])]}
        ref = r.choice(list(ends[0 if side else 1]))
        if r.random() < 0.95:
            ends[0 if side else 1][ref] = flow(0.3, 1)
        if r.random() < 0.1:
            b = r.choice(list(ends[0 if not side else 1]))
            ends[0 if not side else 1][b] = flow(0.3, 1)
        kw = {"label": "o", "inputs": ends[0], "outputs": ends[1]}
        not_ref = [b for e in ends for b in e if b is not ref]
        if r.random() < 0.5 and not side and len(ends[0]) == len(ends[1]) == 1:
            some = lambda: r.choice([1, 2, 2, 3, 3])
            kw["outputs"][ref] = Flow(
                nominal_capacity=10, nonconvex=NonConvex(),
                minimum=r.choice([0.3, [0.3, 0.2, 0.1][:some()]]),
                maximum=r.choice([1, 0.9, [0.8, 0.9, 1][:some()]]))
            cs = [r.choice([lambda: round(r.uniform(*lim), 2),
                            lambda: [round(r.uniform(*lim), 2) for _ in range(some())],
                            lambda: np.array([round(r.uniform(*lim), 2) for _ in range(some())])])()
                  for lim in ((-0.5, -0.1), (0.3, 0.8))]
            kw["coefficients"] = r.choice([tuple(cs), tuple(cs), tuple(cs), cs, (cs[0], cs[1], cs[0])])
            if r.random() < 0.05:
                kw["normed_offsets"] = {}
        else:
            if r.random() < 0.9:
                kw["conversion_factors"] = factors(0.3, 2, not_ref, other=0)
            if r.random() < 0.9:
                kw["normed_offsets"] = factors(-0.5, 0.5, not_ref, other=0)
            if r.random() < 0.1:
                kw.setdefault(r.choice(["conversion_factors", "normed_offsets"]), {})[ref] = 0.5
        make(co.OffsetConverter, common(kw))
    # slope and offset from efficiencies
    for fn, name in ((co.slope_offset_from_nonconvex_input, "slope_offset_input"),
                     (co.slope_offset_from_nonconvex_output, "slope_offset_output")):
        a = (r.choice([1, 0.9, round(r.uniform(0.6, 1), 2)]), round(r.uniform(0.1, 0.5), 2),
             round(r.uniform(0.2, 0.9), 2), round(r.uniform(0.2, 0.9), 2))
        res, e = attempt(lambda: fn(*a))
        c.contract("objects.py", name, (res,) + a, "C13", e, inputs="%s%r" % (name, a))


# ------------------------------------------------------------------ C19
def typical(r, k, n, segments, shuffled=True):
    order = list(range(k)) + [r.randrange(k) for _ in range(r.choice([0, 1, 4]))]
    r.shuffle(order)
    par = {"order": order, "timesteps_per_period": n}
    if segments:
        par["timesteps_per_period"] = 8
        par["segments"] = {}
        for c in range(k):
            cut = sorted(r.sample(range(1, 8), n - 1)) + [8]
            for s in range(n):
                par["segments"][(c, s)] = cut[s] - (cut[s - 1] if s else 0)
    return par


def time_points(r, n, bad):
    """n points in time or numbers; bad: not increasing"""
    k = r.randrange(6)
    day = pd.Timestamp("20%02d-%02d-%02d" % (r.randrange(15, 40), r.randrange(1, 13), r.randrange(1, 29)))
    if k == 0:
        ix = pd.date_range(day, periods=n, freq=r.choice(["h", "15min", "D", "2h", "MS", "YS", "W"]))
    elif k == 1:
        ix = pd.date_range(day, periods=n, freq=r.choice(["h", "15min", "90s", "3D"]))
        ix = pd.DatetimeIndex(list(ix))
    elif k == 2:
        pts = np.cumsum([0] + [r.choice([15, 30, 60, 90, 1440]) for _ in range(n - 1)])
        ix = pd.DatetimeIndex([day + pd.Timedelta(minutes=int(x)) for x in pts])
    elif k == 3:
        ix = pd.date_range("2024-03-30 20:00", periods=n, freq="h", tz="Europe/Berlin")
    elif k == 4:
        ix = [int(x) for x in np.cumsum([r.choice([0, 5])] + [r.choice([1, 2, 3]) for _ in range(n - 1)])]
    else:
        ix = [float(x) for x in np.cumsum([0] + [r.choice([1, .5, .25]) for _ in range(n - 1)])]
        if r.random() < 0.5:
            ix = pd.Index(ix)
    if bad and n > 1:
        x = list(ix)
        j = r.randrange(n - 1)
        if r.random() < 0.4:
            x[j + 1] = x[j]
        elif r.random() < 0.4:
            x.reverse()
        else:
            x[j], x[j + 1] = x[j + 1], x[j]
        ix = pd.DatetimeIndex(x) if isinstance(ix, pd.DatetimeIndex) else type(ix)(x)
    return ix


def times(r, c):
    import copy
    # a regular index
    kw = {k: v for k, v in (("year", r.choice([1900, 1999, 2000, 2023, 2024])),
                            ("interval", r.choice([1, 2, 0.5, 0.25, 24, 3])),
                            ("number", r.choice([0, 1, 2, 24, 100])),
                            ("start", pd.Timestamp(r.choice(["2020-02-28", "1999-12-31 12:00"]))))
          if r.random() < 0.6}
    if "number" in kw and ("year" in kw or "start" in kw) or "year" in kw and r.random() < 0.05:
        ix, e = attempt(lambda: solph.create_time_index(**kw))
        c.contract("energy.py", "time_index", (ix,), "C19", e, kw=kw, inputs=kw)
    n = r.choice([1, 2, 3, 5, 8])
    bad = r.random() < 0.2
    kw = {}
    lengths = None
    k = r.randrange(10)
    steps = None
    if k < 4:
        kw["timeindex"] = time_points(r, n + 1, bad)
        kw["infer_last_interval"] = r.random() < 0.3
        steps = n + 1 if kw["infer_last_interval"] else n
        if r.random() < 0.1:
            kw["timeincrement"] = [1] * n
    elif k == 4:
        kw["timeincrement"] = [r.choice([1, 2, 0.5, 0 if bad else 1, -1 if bad else 3]) for _ in range(n)]
        if r.random() < 0.3:
            kw["timeincrement"] = np.array(kw["timeincrement"], dtype=float)
        steps = n
    elif k < 7:
        P = r.choice([1, 2, 3, 4])
        per, y, lengths = [], r.choice([1999, 2020]), []
        for _ in range(P):
            q = r.choice([1, 2, 3])
            ix = pd.date_range("%d-01-01" % y, periods=q, freq="h")
            d = r.choice([1, 1, 2, 5])
            if d > 1 and q > 1:
                ix = pd.DatetimeIndex(list(ix[:-1]) + [pd.Timestamp("%d-%s" % (
                    y + d - 1, r.choice(["12-31", "01-01", "06-01"])))])
            per.append(ix)
            lengths.append(q)
            y += d + r.choice([0, 0, 3])
        ti = per[0]
        for x in per[1:]:
            ti = ti.append(x)
        kw["timeindex"], kw["periods"] = ti, per
        kw["timeincrement"] = [r.choice([1, 1, 2, .5, 0 if bad else 1]) for _ in range(len(ti))]
        kw["use_remaining_value"] = r.random() < 0.5
        steps = len(ti)
    elif k < 9:
        seg = r.random() < 0.5
        nt, kk = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        kw["tsa_parameters"] = typical(r, kk, nt, seg)
        if r.random() < 0.5:
            kw["tsa_parameters"] = [kw["tsa_parameters"]]
        steps = nt * kk
        kw["timeindex"] = time_points(r, steps + 1, bad)
        kw["infer_last_interval"] = False
    else:
        P = r.choice([1, 2, 3])
        seg = r.random() < 0.5
        pars, per, lengths = [], [], []
        for p in range(P):
            nt, kk = r.choice([1, 2, 3]), r.choice([1, 2, 3])
            s = seg if r.random() < 0.9 else not seg
            pars.append(typical(r, kk, nt, s))
            lengths.append(nt * kk)
            per.append(pd.date_range("%d-01-01" % (2020 + 2 * p), periods=nt * kk, freq="h"))
        ti = per[0]
        for x in per[1:]:
            ti = ti.append(x)
        kw["timeindex"], kw["periods"], kw["tsa_parameters"] = ti, per, pars
        steps = len(ti)
        if not any("segments" in x for x in pars) or r.random() < 0.15:
            kw["timeincrement"] = [1] * steps
    given = copy.deepcopy(kw)
    if isinstance(given.get("tsa_parameters"), dict):
        given["tsa_parameters"] = [given["tsa_parameters"]]
    es, e = attempt(lambda: solph.EnergySystem(**kw))
    c.contract("energy.py", "energy_system", (es,), "C19", e, kw=given, inputs=given)
    if e is not None:
        return
    # the model
    mk = {}
    if r.random() < 0.3:
        mk["objective_weighting"] = [r.choice([1, 2, 5]) for _ in range(steps)]
    if lengths is not None and r.random() < 0.6:
        mk["discount_rate"] = r.choice([0.02, 0.07, 0.0])
    b = solph.buses.Bus(label="b")
    es.add(b, solph.components.Source(label="s", outputs={b: solph.Flow()}))
    m, e = attempt(lambda: solph.Model(es, **mk))
    c.contract("times.py", "model_sets", (m, es, steps, lengths, None, mk.get("objective_weighting"),
                                          mk.get("discount_rate")), "C19", e, inputs=(given, mk))
    if e is None:
        c.contract("sets.py", "model_sets", (m, es, steps, lengths), "C19", inputs=(given, mk))


# ------------------------------------------------------------------ C21
def own_groups(r, c):
    """blocks named when the model is made; models do not share their lists"""
    cls = solph.Model
    own_component(True)
    Block = _OWN["block"]
    before = list(cls.CONSTRAINT_GROUPS)

    def system(own):
        es = solph.EnergySystem(timeindex=[0, 1, 2])
        b = solph.buses.Bus(label="b")
        es.add(b, solph.components.Source(label="s", outputs={b: solph.Flow()}))
        if own:
            es.add(own_component(True)(label="own", inputs={b: solph.Flow()}))
        return es
    for own, given in [(r.random() < 0.5, r.random() < 0.6) for _ in range(r.choice([2, 3]))]:
        run.CREATED.clear()
        mine = [Block]
        m, e = attempt(lambda: cls(system(own), **({"constraint_groups": mine} if given else {})))
        info = (own, given)
        c.n += 1
        if e is not None:
            c.report("C21", "groups", "building a valid model raised %r" % e, info)
            continue
        have = [type(b) for b in m.component_objects(po.Block, descend_into=False)]
        c.contract("groups.py", "blocks", (have, cls.CONSTRAINT_GROUPS, before, mine, [Block],
                                           own or given, Block), "C21", inputs=info)
        if run.CREATED.get("OwnBlock", [[]])[0] != [n for n in m.nodes if str(n) == "own"]:
            c.report("C21", "groups", "block made with other nodes", info)


def groups(r, c):
    if r.random() < 0.1:
        own_groups(r, c)
    prof = r.choice(["flow", "invest", "nonconvex", "investnc", "conv", "chp", "storage",
                     "investstorage", "limits"]) + r.choice([":single", ":multi", ":tsam", ""])
    seed = r.randrange(10 ** 9)
    run.OBJ.clear()
    run.CREATED.clear()
    made = []

    def more(g):
        if r.random() < 0.4:
            for i in range(r.choice([1, 2])):
                made.append(g.make(own_component(r.random() < 0.5), label="own%d" % i,
                                   inputs={g.r.choice(g.bs): g.flow(("plain", "cap"))}))
                g.add(made[-1])
    res, e = attempt(lambda: gen.build(seed, prof, late=True, more=more))
    c.n += 1
    if e is not None:
        c.report("C21", "groups", "building a valid model raised %s: %s" % (type(e).__name__, e),
                 run.where(e))
        return
    g, m = res
    nodes = list({id(n): n for n in g.added}.values())
    bad, counts = [], c.counts
    run.check_groups(m, nodes, run.flows_of(Nodes(nodes)), bad, counts)
    more_bad, cn = run.check_model(g, m)
    for b in more_bad:
        b["property"] += " C21"
    c.counts.update(cn)
    c.bad += bad + more_bad


def wiring(r, c):
    """what a model takes from its energy system and from its arguments"""
    own_component(True)
    es_kw = {}
    n = 4
    if r.random() < 0.5:
        ix = pd.date_range("2020-01-01", periods=2, freq="h")
        es_kw.update(timeindex=ix.append(pd.date_range("2022-01-01", periods=2, freq="h")),
                     timeincrement=[1.0, 2.0, 0.5, 1.0],
                     periods=[ix, pd.date_range("2022-01-01", periods=2, freq="h")])
    else:
        es_kw.update(timeindex=pd.date_range("2020-01-01", periods=n + 1, freq=r.choice(["h", "30min"])),
                     infer_last_interval=False)
    es = solph.EnergySystem(**es_kw)
    b = solph.buses.Bus(label="b")
    b2 = solph.buses.Bus(label="b2")
    es.add(b, b2, solph.components.Source(label="s", outputs={b: solph.Flow(variable_costs=1)}))
    if r.random() < 0.5:
        es.add(own_component(r.random() < 0.7)(label="own", inputs={b: solph.Flow()}))
    if r.random() < 0.5:
        es.add(solph.components.Link(label="link", inputs={b: solph.Flow(), b2: solph.Flow()},
                                     outputs={b: solph.Flow(), b2: solph.Flow()},
                                     conversion_factors={(b, b2): 1, (b2, b): 1}))
    kw = {}

    class Named(_OWN["block"]):
        def _create(self, group=None):
            run.MADE.append((type(self), group))
    if r.random() < 0.4:
        kw["timeincrement"] = r.choice([None, [1, 2, 3, 4], [0.5] * n, np.array([1.0, 2, 1, 1])])
    if r.random() < 0.4:
        kw["objective_weighting"] = r.choice([[1, 0, 2, 3], [0] * n, [2] * n, np.array([1.0, 0, 3, 1])])
    if r.random() < 0.5:
        kw["constraint_groups"] = r.choice([[], [Named]])
    if r.random() < 0.5:
        kw["discount_rate"] = r.choice([None, 0, 0.05])
    if r.random() < 0.3:
        kw["auto_construct"] = r.random() < 0.3
    standard = list(solph.Model.CONSTRAINT_GROUPS)
    given = dict(kw)
    if "constraint_groups" in kw:
        given["constraint_groups"] = list(kw["constraint_groups"])
    del run.MADE[:]
    m, e = attempt(lambda: solph.Model(es, **kw))
    made = list(run.MADE)
    c.n += 1
    if e is not None:
        c.report("*", "wiring", "building a valid model raised %r" % e, run.where(e))
        return
    prop = "C19 C21"
    c.contract("wiring.py", "model_init", (m, es, made, standard), prop, kw=given, inputs=(es_kw, kw))


class Nodes:
    def __init__(self, nodes):
        self.nodes = nodes


_OWN = {}


def own_component(with_flag):
    """a user-defined component with its own block of constraints"""
    if with_flag in _OWN:
        return _OWN[with_flag]
    from oemof.network import Node
    from pyomo.core.base.block import ScalarBlock

    class OwnBlock(ScalarBlock):
        CONSTRAINT_GROUP = True

        def _create(self, group=None):
            run.CREATED.setdefault("OwnBlock", []).append(list(group or []))
            run.MADE.append((type(self), group))

    class Own(Node):
        def constraint_group(self):
            return OwnBlock

    class Free(Node):
        def constraint_group(self):
            pass
    _OWN[True], _OWN[False], _OWN["block"] = Own, Free, OwnBlock
    return _OWN[with_flag]


# ------------------------------------------------------------------ C22
PERIODS = {"invest", "total", "old", "old_end", "old_exo", "invest_status"}
OTHERS = {"init_content", "storage_content", "inter_storage_content", "intra_storage_delta",
          "storage_content_inter", "storage_content_intra"}


class Steps:
    """names of variables that have a value per time step: all others"""

    def __contains__(self, name):
        return name not in PERIODS and name not in OTHERS


STEP = Steps()


def cells(x):
    """{(nodes, label): value}"""
    out = {}
    if isinstance(x, pd.Series):
        pairs = [(((k if isinstance(k, tuple) else (k,)), k), v) for k, v in x.items()]
    else:
        pairs = []
        for j, c in enumerate(x.columns):
            for i, t in enumerate(x.index):
                pairs.append((((c if isinstance(c, tuple) else (c,)), t), x.iat[i, j]))
    for k, v in pairs:
        if k in out:
            raise ValueError("two values for %s" % (k,))
        out[k] = v
    return out


def columns(x):
    """{name: [(label, value), ...]} of a table of sequences or scalars"""
    if isinstance(x, pd.Series):
        return {k: [(0, v)] for k, v in x.items()}
    if len(set(x.columns)) != len(x.columns):
        raise ValueError("two columns of the same name")
    return {c: list(zip(x.index, x.iloc[:, j])) for j, c in enumerate(x.columns)}


def flat(result):
    out = {}
    for k, d in result.items():
        for part, x in d.items():
            for name, col in columns(x).items():
                out[k, "scalars" if part == "period_scalars" else part, name] = col
    return out


def tuples(x):
    """{((from, to), name): column} of a table with three column levels"""
    if len(set(x.columns)) != len(x.columns):
        raise ValueError("two columns of the same name")
    return {(tuple(c[:-1]), c[-1]): list(zip(x.index, x.iloc[:, j]))
            for j, c in enumerate(x.columns)}


def results(r, c):
    import pyomo.environ as po
    if r.random() < 0.15:
        parameters(r, c)
    if r.random() < 0.1:
        for _ in range(3):
            meta(r, c)
    from oemof.solph import processing, views, Results
    from oemof.solph import components as cmp
    base = r.choice(["flow", "invest", "nonconvex", "investnc", "conv", "chp", "storage",
                     "investstorage", "couplings"])
    seed = r.randrange(10 ** 9)
    res, e = attempt(lambda: gen.build(seed, base + ":" + r.choice(
        ["single", "single", "single", "multi", "tsam", "tsamulti"])))
    if e is not None:
        return
    g, m = res
    info = (g.profile, seed, g.mode)
    x = {}
    for v in m.component_data_objects(po.Var):
        if not v.fixed:
            v.set_value(r.choice([0, 1]) if v.is_binary() else round(len(x) + 1 + r.random(), 5),
                        skip_validation=True)
        x[id(v)] = v
    variables = []
    for v in m.component_objects(po.Var):
        d = {}
        for k in v:
            d[k if isinstance(k, tuple) else (k,)] = v[k].value
        if d:
            variables.append((v.name.split(".")[-1], d, v))
    m.solver_results = m.es.results = {"Problem": 1, "Solver": 2, "Solution": 3}
    es = m.es
    T = len(list(m.TIMESTEPS))
    multi, tsam = g.multi, "tsam" in g.mode
    point = {"storage_content"} if not tsam else set()

    def label(name):
        def f(k):
            if name in STEP:
                return es.timeindex[k[-1]]
            if name in point and not multi:
                return es.timeindex[k[-1]]
            return k[-1]
        return f

    # ---- Results
    R, e = attempt(lambda: Results(m))
    if e is not None:
        c.report("C22", "results", "Results raised %r" % e, info)
        return
    invested = [v for v in variables if v[0] == "invest"]
    c.contract("results.py", "all_variables", (R.keys(), variables, bool(invested)), "C22",
               inputs=info)
    ob, e = attempt(lambda: (R["objective"], po.value(m.objective)))
    if e is not None or not native.close(*ob):
        c.report("C22", "results", "objective differs", (ob, e, info))
    for name in sorted({v[0] for v in variables}):
        if name.startswith(("cpl", "keyword1")):
            continue
        for get in (R.get, R.__getitem__) if r.random() < 0.2 else (R.get,):
            t, e = attempt(lambda: cells(get(name)))
            c.contract("results.py", "table", (t, name, variables, label(name)), "C22", e,
                       unit="table", inputs=info + (name,))
    for name in {v[0] for v in variables}:
        if name not in R:
            c.report("C22", "results", "%s is not in the results" % name, info)
    if "nothing" in R:
        c.report("C22", "results", "unknown name is in the results", info)
    for f in (R.__getitem__, R.to_df):
        _, e = attempt(lambda: f("nothing"))
        if not isinstance(e, KeyError):
            c.report("C22", "results", "no KeyError for an unknown name", (e, info))
    name = r.choice(sorted({v[0] for v in variables}))
    if not name.startswith(("cpl", "keyword1")):
        t, e = attempt(lambda: (R.to_df(name), R.get(name)))
        if e is not None or not t[0].equals(t[1]):
            c.report("C22", "results", "to_df differs from get", (e, info))
    if R.get("nothing", 7) != 7:
        c.report("C22", "results", "default of Results.get", info)
    flow = {k: m.flow[k].value for k in m.flow}
    flows = run.flows_of(es)
    if not multi:
        t, e = attempt(lambda: cells(R["variable_costs"]))
        c.contract("results.py", "variable_costs", (t, flows, flow, list(m.TIMESTEPS), lambda t: es.timeindex[t]), "C22",
                   e, inputs=info)
        inv = []
        for b in ("InvestmentFlowBlock", "InvestNonConvexFlowBlock", "GenericInvestmentStorageBlock"):
            blk = getattr(m, b, None)
            if blk is None or not hasattr(blk, "invest"):
                continue
            for k in blk.invest:
                i = k[0].investment if len(k) == 2 else m.flows[k[:-1]].investment
                on = blk.invest_status[k].value if i.nonconvex else 1
                inv.append((k[:-1], i, blk.invest[k].value, on))
        if inv:
            t, e = attempt(lambda: cells(R["investment_costs"]))
            c.contract("results.py", "investment_costs", (t, inv), "C22", e, inputs=info)

    # ---- processing.results
    def where(name):
        if name in STEP:
            return "step"
        if name in point:
            return "point"
        return "node" if name == "init_content" else "period"
    mine = [v for v in variables if not v[0].startswith(("cpl", "keyword1"))]
    duals = {}
    if not tsam and hasattr(m.BusBlock, "balance") and r.random() < 0.5:
        m.receive_duals()
        balance = m.BusBlock.balance
        ks = list(balance)
        r.shuffle(ks)
        for k in ks:
            m.dual[balance[k]] = round(r.uniform(-5, 5), 4)
            duals.setdefault(k[0], [None] * T)[k[1]] = m.dual[balance[k]]
    remove = not tsam and r.random() < 0.4
    times = list(range(T + 1)) if tsam or multi or r.random() < 0.85 else None
    saved = es.timeindex
    if times is None:
        es.timeindex = None
    elif not tsam:
        times = list(es.timeindex)
    out, e = attempt(lambda: processing.results(m, remove_last_time_point=remove))
    es.timeindex = saved
    times = times or list(range(T + 1))
    c.n += 1
    if e is not None:
        c.report("C22", "processed", "results raised %r" % e, (info, run.where(e)))
        return
    have, e = attempt(lambda: flat(out))
    parts = {"sequences", "scalars" if es.periods is None else "period_scalars"}
    for k in out:
        if set(out[k]) != parts:
            c.report("C22", "processed", "parts of the results: %s" % sorted(out[k]), info)
            break
    if duals and e is None:
        c.contract("results.py", "shadow_prices", (have, duals, times), "C22", inputs=info + (remove,))
        have = {k: v for k, v in have.items() if k[2] != "duals"}
        for k in list(out):
            if "duals" in out[k]["sequences"].columns:
                out[k] = dict(out[k], sequences=out[k]["sequences"].drop(columns="duals"))
                if not len(out[k]["sequences"].columns):
                    del out[k]
    order = list(out)
    r.shuffle(order)
    out = {k: out[k] for k in order}        # the views do not rely on an order
    if e is not None:
        c.report("C22", "processed", "table of results: %r" % e, info)
        return
    for k in list(have):
        if k[2].startswith(("cpl", "keyword1")):
            del have[k]
    for k in list(out):
        if all(x.startswith(("cpl", "keyword1")) for p in out[k].values() for x in (
                p.index if isinstance(p, pd.Series) else p.columns) if isinstance(x, str)):
            del out[k]
    if not tsam:
        index = list(times)
        if multi:       # one time per step, the end is not part of the index
            index.append(index[-1] + pd.Timedelta(hours=float(list(m.timeincrement)[-1])))
        c.contract("results.py", "processed", (have, mine, where, [
            es.periods[0].min().year + y for y in es.periods_years] if multi else None,
            index, not remove),
                   "C22", inputs=info + (remove,))
    else:
        expanded, clusters = [], []
        off = 0
        inter = 0
        pts = {}
        for p, par in enumerate(es.tsa_parameters):
            for i, k in enumerate(par["order"]):
                for s in range(par["timesteps"]):
                    n = par["segments"][(k, s)] if "segments" in par else 1
                    for j in range(n):
                        expanded.append(off + k * par["timesteps"] + s)
                        clusters.append((p, inter + i, k, s, j, n))
            off += par["timesteps"] * len(par["occurrences"])
            inter += len(par["order"])
        index = sorted({t for p, par in enumerate(es.tsa_parameters) for t in pd.date_range(
            (es.timeindex if es.periods is None else es.periods[p])[0],
            periods=par["timesteps_per_period"] * len(par["order"]),
            freq=(es.timeindex if es.periods is None else es.periods[p]).freq)})
        if len(index) == len(expanded):
            c.contract("results.py", "disaggregated", (
                have, [v for v in mine if v[0] in STEP], expanded, index), "C22", inputs=info)
        once = [v for v in mine if where(v[0]) == "period" and not v[0].startswith(("inter_", "intra_"))]
        c.contract("results.py", "processed", (
            {k: have[k] for k in have if k[2] in {v[0] for v in once}}, once, where,
            [es.periods[0].min().year + y for y in es.periods_years] if multi else None,
            index, True), "C22", inputs=info)
        st = []
        for v in variables:
            if v[0] != "inter_storage_content":
                continue
            blk = v[2].parent_block()
            for n in {k[0] for k in v[1]}:
                loss = n.loss_rate[0]
                vals, elapsed, last = [], 0.0, None
                for p, i, k, s, j, q in clusters:
                    if (p, i) != last:
                        elapsed, last = 0.0, (p, i)
                    h = m.timeincrement[expanded[len(vals)]] / q
                    d = blk.intra_storage_delta
                    a = d[n, p, k, s].value + v[1][n, i] * (1 - loss) ** elapsed
                    full = elapsed + h * (q - j)
                    b = d[n, p, k, s + 1].value + v[1][n, i] * (1 - loss) ** full
                    vals.append(a if j == 0 else None)
                    elapsed += h
                vals.append(b)          # end of the last segment
                for t, y in enumerate(vals):
                    if y is None:       # a line between the points of the model
                        e1 = next(x for x in range(t, len(vals)) if vals[x] is not None)
                        vals[t] = vals[t - 1] + (vals[e1] - vals[t - 1]) / (e1 - t + 1)
                st.append((n, vals[:-1]))
        if len(index) == len(expanded):
            c.contract("results.py", "content", (have, st), "C22", inputs=info)

    # ---- conversions and views
    strings, e = attempt(lambda: processing.convert_keys_to_strings(out))
    c.contract("results.py", "renamed", (strings, out, lambda k: (str(k[0]), str(k[1]))), "C22", e, inputs=info)
    strings, e = attempt(lambda: processing.convert_keys_to_strings(out, keep_none_type=True))
    c.contract("results.py", "renamed", (strings, out, lambda k: (
        str(k[0]), None if k[1] is None else str(k[1]))), "C22", e, inputs=info)
    nodes = [n for k in out for n in k if n is not None]
    n = r.choice(nodes)
    for name in (n, str(n)):
        multi_, none_ = r.random() < 0.5, r.random() < 0.4
        y, e = attempt(lambda: views.node(out, name, multiindex=multi_, keep_none_type=none_))
        w = have if name is n else {((str(k[0][0]), None if none_ and k[0][1] is None else str(k[0][1])),)
                                    + k[1:]: v for k, v in have.items()}
        if e is None and "sequences" in y:
            levels = y["sequences"].columns
            if multi_ and list(levels.names) != ["from", "to", "type"]:
                c.report("C22", "views.node", "names of the levels", levels.names)
            if any(len(k) != (3 if multi_ else 2) for k in levels):
                c.report("C22", "views.node", "levels", (multi_, list(levels)[:5]))
        yy = None
        if e is None:
            yy, e = attempt(lambda: seen(y))
        c.contract("results.py", "of_node", (yy, name, w), "C22", e, unit="views.node",
                   inputs=info + (str(n), type(name).__name__))
    kind = r.choice([cmp.GenericStorage, cmp.Source, cmp.Sink, cmp.Converter, solph.buses.Bus])
    for f, sel in ((views.node_input_by_type, lambda k: isinstance(k[1], kind)),
                   (views.node_output_by_type, lambda k: isinstance(k[0], kind) and k[1] is not None)):
        y, e = attempt(lambda: f(out, kind))
        yy = None
        if e is None and y is not None:
            if list(y.columns.names) != ["from", "to", "type"]:
                c.report("C22", "views." + f.__name__, "names of the levels", y.columns.names)
            drop = sorted(r.sample([0, 1, 2], r.choice([0, 1, 2])))
            z, e2 = attempt(lambda: f(out, kind, droplevel=drop))
            keep = [j for j in range(3) if j not in drop]
            if e2 is not None or z.shape != y.shape or not np.array_equal(
                    z.to_numpy(dtype=float), y.to_numpy(dtype=float), equal_nan=True) or \
                    [k if isinstance(k, tuple) else (k,) for k in z.columns] != [
                        tuple(k[j] for j in keep) for k in y.columns]:
                c.report("C22", "views." + f.__name__, "levels that are not wanted", (e2, drop, info))
        if e is None:
            yy, e = attempt(lambda: tuples(y) if y is not None else {})
        c.contract("results.py", "by_type", (yy, have, sel), "C22", e, unit="views." + f.__name__, inputs=info + (kind,))
    y, e = attempt(lambda: views.node_weight_by_type(out, cmp.GenericStorage))
    yy = None
    if e is None:
        yy, e = attempt(lambda: {((k[0][0], None), k[1]): v for k, v in tuples(y).items()} if y is not None else {})
    c.contract("results.py", "by_type", (yy, have, lambda k: isinstance(k[0], cmp.GenericStorage) and k[1] is None),
               "C22", e, unit="views.node_weight_by_type", inputs=info)
    if not tsam:
        y, e = attempt(lambda: views.net_storage_flow(out, cmp.GenericStorage))
        yy = None
        if e is None:
            yy, e = attempt(lambda: {k[0]: v for k, v in tuples(y).items()} if y is not None else {})
        st = [(n, list(n.inputs)[0], list(n.outputs)[0]) for n in es.nodes if isinstance(n, cmp.GenericStorage)]
        c.contract("results.py", "net_flow", (yy, st, lambda a, b, t: flow.get((a, b, t), float("nan"))),
                   "C22", e, inputs=info)
    for o in ("all", "has_outputs", "has_inputs", "has_only_outputs", "has_only_inputs"):
        nb = r.random() < 0.5
        y, e = attempt(lambda: views.filter_nodes(out, o, exclude_busses=nb))
        c.contract("results.py", "selected", (y, list(out), o, not nb), "C22", e, inputs=info)
    y, e = attempt(lambda: (views.get_node_by_name(out, str(n)), views.get_node_by_name(out, str(n), "nobody")))
    if e is not None or y[0] is not n or y[1][0] is not n or y[1][1] is not None:
        c.report("C22", "views", "get_node_by_name", (y, e, n))


def parameters(r, c):
    """parameter_as_dict"""
    from oemof.solph import processing
    base = r.choice(["flow", "invest", "nonconvex", "investnc", "conv", "chp", "storage", "investstorage"])
    seed = r.randrange(10 ** 9)
    res, e = attempt(lambda: gen.build(seed, base + ":" + r.choice(["single", "multi", "tsam"])))
    if e is not None:
        return
    g, m = res
    info = (g.profile, seed, g.mode)
    none = r.random() < 0.4
    src = r.choice([m, m.es])
    out, e = attempt(lambda: processing.parameter_as_dict(src, exclude_none=not none))
    c.n += 1
    if e is not None:
        c.report("C22", "parameters", "parameter_as_dict raised %r" % e, (info, run.where(e)))
        return
    objects = {(i, o): f for i, o, f in run.flows_of(m.es)}
    objects.update({(n, None): n for n in m.es.nodes})
    if set(out) != set(objects):
        c.report("C22", "parameters", "objects differ", info)
        return
    for k, o in objects.items():
        have = {}
        for part in out[k].values():
            for a in (part.columns if isinstance(part, pd.DataFrame) else part.index):
                if a in have:
                    c.report("C22", "parameters", "%s twice" % a, info)
                have[a] = list(part[a]) if isinstance(part, pd.DataFrame) else part[a]
        c.contract("results.py", "parameters", (have, k, native.public(o), none), "C22", unit="parameters",
                   inputs=info + (k,))


class Entry(dict):
    """part of the results of a solver"""


def meta(r, c):
    from oemof.solph import processing
    m = solph.Model(solph.EnergySystem(timeindex=[0, 1]))
    u = r.choice([0, 0.0, 5, 7.5, -3])
    bounds = r.choice([(u, u), (u, u + r.choice([1, 20])), (10, 12), (0.2, 0.5), (-0.5, -0.25), (-2, 2)])
    given = {"problem": {"Name": r.choice(["unknown", "x", "<undefined>"]), "Lower bound": bounds[0],
                         "Upper bound": bounds[1], "Number of constraints": 4},
             "solver": {"Status": "ok", "Time": r.choice([0.1, "<undefined>"]), "Message": "<undefined>"}}
    m.es.results = {k: [dict(v)] for k, v in given.items()}
    undefined = r.random() < 0.5
    out, e = attempt(lambda: processing.meta_results(m, undefined=undefined) if undefined or r.random() < 0.5
                     else processing.meta_results(m))
    c.contract("results.py", "meta", (out, po.value(m.objective), given, undefined) + bounds, "C22", e, inputs=given)


def seen(y):
    """views.node: {((from, to), part, name): column}"""
    out = {}
    for part, x in y.items():
        if part == "period_scalars" and isinstance(x, pd.DataFrame):
            cols = {}
            for row, k in enumerate(x.index):
                pair, year = (tuple(k[:2]), k[2]) if len(k) == 3 else (tuple(k[0]), k[1])
                pair = tuple(None if n != n else n for n in pair)
                for j, name in enumerate(x.columns):
                    cols.setdefault((pair, "scalars", name), []).append((year, x.iloc[row, j]))
            out.update({k: v for k, v in cols.items() if any(z == z for _, z in v)})
            continue
        part = "scalars" if part == "period_scalars" else part
        idx = x.index if part == "scalars" else x.columns
        for j, k in enumerate(idx):
            key = ((k[0], k[1]), part, k[2]) if len(k) == 3 else (tuple(k[0]), part, k[1])
            key = (tuple(None if n != n else n for n in key[0]),) + key[1:]
            if key in out:
                raise ValueError("two columns of the same name")
            out[key] = [(0, x.iloc[j])] if part == "scalars" else list(zip(x.index, x.iloc[:, j]))
    return out


# ------------------------------------------------------------------ C23
def solve(r, c):
    import copy
    from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
    import oemof.solph._models as mod
    es = solph.EnergySystem(timeindex=[0, 1, 2])
    b = solph.buses.Bus(label="b")
    es.add(b, solph.components.Source(label="s", outputs={b: solph.Flow()}))
    m = solph.Model(es)
    for v in m.flow.values():
        v.set_value(0)
    if r.random() < 0.1:
        real(r, c)
    outcome = SolverResults()
    if r.random() < 0.3:
        st, tc = "ok", r.choice(list(TerminationCondition))
    elif r.random() < 0.3:
        st, tc = r.choice(list(SolverStatus)), "optimal"
    else:
        st, tc = r.choice(list(SolverStatus)), r.choice(list(TerminationCondition))
    if r.random() < 0.15:
        st, tc = SolverStatus.ok, TerminationCondition.optimal
    outcome.solver.status, outcome.solver.termination_condition = st, tc
    before = {"default": 1} if r.random() < 0.5 else {}
    log = {"made": None, "options": dict(before), "called": None}

    class Factory:
        def __init__(self, *a, **kw):
            log["made"] = (a + (None, None))[:2]
            for i, k in enumerate(("name", "solver_io")):
                if k in kw:
                    log["made"] = tuple(kw.pop(k) if i == j else log["made"][j] for j in (0, 1))
            if kw:
                log["made"] = (None, kw)
            self.options = log["options"]

        def solve(self, *a, **kw):
            if log["called"] is not None:
                raise RuntimeError("solved twice")
            log["called"] = (a[0] if len(a) == 1 else a, kw)
            return outcome
    kw = {}
    if r.random() < 0.5:
        kw["solver"] = r.choice(["cbc", "glpk", "gurobi"])
    if r.random() < 0.5:
        kw["solver_io"] = r.choice(["lp", "nl", "python", None])
    if r.random() < 0.6:
        kw["allow_nonoptimal"] = r.choice([True, False])
    if r.random() < 0.6:
        kw["solve_kwargs"] = r.choice([None, {}, {"tee": False}, {"tee": True, "timelimit": 3, "load": [1]}])
    if r.random() < 0.6:
        kw["cmdline_options"] = r.choice([None, {}, {"mipgap": "0.01"}, {"a": 0, "b": "", "interior": " "},
                                          {"default": 2}])
    given = {k: copy.copy(v) for k, v in kw.items()}
    for a in ("solve_kwargs", "cmdline_options"):
        if kw.get(a):
            given[a] = dict(kw[a])
    orig, mod.SolverFactory = mod.SolverFactory, Factory
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                res, e = m.solve(**kw), None
            except Exception as x:
                res, e = None, x
    finally:
        mod.SolverFactory = orig
    told = [str(x.message) for x in w if "solver" in str(x.message).lower()]
    info = ("solver says %s / %s" % (st, tc), kw)
    c.contract("solve.py", "solve", (res, m, log["made"], log["options"], log["called"], outcome,
                                     before, bool(told)), "C23", e, kw=given, inputs=info)
    if e is not None or told:
        c.contract("solve.py", "message", (str(e) if e is not None else told[0], outcome), "C23",
                   inputs=info)
    if kw.get("solve_kwargs") != given.get("solve_kwargs") or \
            kw.get("cmdline_options") != given.get("cmdline_options"):
        c.report("C23", "solve", "arguments of the user are changed", info)


def real(r, c):
    """small problems with a known outcome, solved by a real solver"""
    k = r.choice(["optimal", "infeasible", "unbounded"])
    es = solph.EnergySystem(timeindex=[0, 1, 2])
    b = solph.buses.Bus(label="b")
    es.add(b, solph.components.Source(label="s", outputs={b: solph.Flow(
        nominal_capacity=5, variable_costs=1) if k != "unbounded" else solph.Flow(variable_costs=-1)}))
    es.add(solph.components.Sink(label="d", inputs={b: solph.Flow(
        nominal_capacity=1, fix=[3, 9 if k == "infeasible" else 4]) if k != "unbounded" else solph.Flow()}))
    m = solph.Model(es)
    allow = r.random() < 0.5
    solver = r.choice(["cbc", "glpk"])
    res, e = attempt(lambda: m.solve(solver=solver, allow_nonoptimal=allow))
    c.n += 1
    info = (k, solver, allow, repr(e)[:300])
    if k == "optimal":
        if e is not None or not isinstance(res, solph.Results) or not native.close(res["objective"], 7):
            c.report("C23", "solve", "solvable problem: no result", info)
    elif e is None and (isinstance(res, solph.Results) or not allow):
        c.report("C23", "solve", "%s problem: result although there is none" % k, info)


def findings(r, c):
    import logging
    logging.disable(logging.ERROR)
    for prop, fs in known.FINDINGS.items():
        for name, f in fs.items():
            what, e = attempt(f)
            c.n += 1
            if what is not None or e is not None:
                c.report(prop, "finding", name, what or repr(e))


PROBES = {"wiring": wiring, "findings": findings, "solve": solve, "results": results, "groups": groups, "times": times, "plumbing": plumbing, "constructors": constructors, "components": components}


def of_the_code(e):
    """is the exception due to the code?  Not if it only lacks a private name
    used here."""
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if os.path.join("oemof", "solph") in last:
            return True
        tb = tb.tb_next
    if isinstance(e, (ImportError, NameError)):
        return False
    return not (isinstance(e, AttributeError) and str(getattr(e, "name", "_")).startswith("_"))


def drive(name, seed, seconds, prop, only=None):
    t0 = time.time()
    c = Collect()
    crashes = c.crashes = []
    k = 0
    kinds = {}
    f = PROBES[name]
    while time.time() - t0 < seconds and (only is None or k == 0):
        s = "%s/%s/%d" % (name, seed, k) if only is None else only
        before = len(c.bad)
        try:
            f(random.Random(s), c)
        except Exception as e:
            if not of_the_code(e):
                crashes.append("%s: %s: %s" % (s, type(e).__name__, e))
                if len(crashes) > 50:
                    raise
                k += 1
                continue
            c.report(prop, name, "unexpected %s" % type(e).__name__, str(e)[:300])
        new, c.bad[before:] = c.bad[before:], []
        for b in new:
            # a few of each kind, so that none hides the others
            b["probe"] = {"name": name, "seed": s}
            kind = (b["property"], b["unit"], b["what"])
            kinds[kind] = kinds.get(kind, 0) + 1
            if kinds[kind] <= 20 and len(kinds) <= 200:
                c.bad.append(b)
        k += 1
    return c, k


def main():
    warnings.simplefilter("ignore")
    run.patch_objectives()
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        c, _ = drive(rp["probe"]["name"], 0, 1e9, rp["property"], rp["probe"]["seed"])
        bad = [b for b in c.bad if b["property"] == "*" or rp["property"] in b["property"].split()]
        print(json.dumps(bad, indent=1, default=str))
        return 1 if bad else 0
    name, seed, seconds, prop, out = sys.argv[1:6]
    t0 = time.time()
    c, k = drive(name, seed, float(seconds), prop)
    json.dump({"probe": name, "violations": c.bad, "evaluations": c.n, "cases": k,
               "statements": dict(c.counts), "crashes": c.crashes, "seconds": round(time.time() - t0, 1)},
              open(out, "w"), indent=1, default=str)
    return 0


if __name__ == "__main__":
    sys.exit(main())
