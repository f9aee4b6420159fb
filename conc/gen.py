"""Random energy systems exercising the options the contracts speak about.

Everything generated satisfies the documented preconditions, so whatever goes
wrong with it is the code's fault."""

import random
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")

from oemof import solph  # noqa: E402
from oemof.solph import EnergySystem, Flow, Investment, Model, NonConvex  # noqa: E402
from oemof.solph import buses, components as cmp  # noqa: E402
from oemof.network import Node  # noqa: E402


class G:
    def __init__(self, seed, profile):
        self.r = random.Random("%s/%s" % (seed, profile))
        self.profile = profile
        self.T = self.r.choice([1, 2, 2, 3, 3, 4, 4, 5])
        self.kwargs = {}         # id(object) -> (cls, raw keyword arguments)
        self.keep = []
        self.feat = set()
        self.late = False        # nodes are added in an unusual way
        self.inside, self.boxes, self.waiting, self.added = set(), [], [], []

    # ------------------------------------------------ ways of adding nodes
    def add(self, *nodes):
        self.added += nodes
        if not self.late:
            self.es.add(*nodes)
            return
        for n in nodes:
            if id(n) not in self.inside:
                self.waiting.append(n)
        if self.p(0.2):
            self.flush()

    def container(self):
        if not self.boxes or self.p(0.4):
            kw = {"parent_node": self.r.choice(self.boxes)} if self.boxes and self.p(0.5) else {}
            b = Node(label="box%d" % len(self.boxes), **kw)
            self.boxes.append(b)
            self.added.append(b)
            if not kw:
                self.waiting.append(b)
        return self.r.choice(self.boxes)

    def flush(self):
        self.r.shuffle(self.waiting)
        while self.waiting:
            k = self.r.choice([1, 2, len(self.waiting)])
            now, self.waiting = self.waiting[:k], self.waiting[k:]
            self.es.add(*now)
            if self.p(0.2):
                self.es.groups           # looking at the groups changes nothing

    # ------------------------------------------------------------ numbers
    def p(self, q):
        return self.r.random() < q

    def num(self, lo, hi):
        return round(self.r.uniform(lo, hi), 3)

    def znum(self, lo, hi, q=0.06):
        """a number that is zero now and then"""
        return self.r.choice([0, 0.0]) if self.p(q) else self.num(lo, hi)

    def zseq(self, lo, hi, n=None):
        return self.seq(lo, hi, n, lambda: self.znum(lo, hi))

    def seq(self, lo, hi, n=None, f=None):
        """scalar or sequence of n values"""
        n = self.T if n is None else n
        f = f or (lambda: self.num(lo, hi))
        k = self.r.randrange(4)
        if k == 0:
            return f()
        v = [f() for _ in range(n)]
        if self.p(0.04):
            # longer than needed, which is allowed
            v += [f() for _ in range(self.r.choice([1, 2]))]
        if self.p(0.05):
            return pd.Series(v, index=self.r.choice([None, range(5, 5 + len(v))]))
        if k == 1:
            return v
        if k == 2:
            return tuple(v)
        return np.array(v)

    def minima(self, lo=0.1, hi=0.4):
        return self.seq(0, 0, f=lambda: self.r.choice([0, self.num(lo, hi), self.num(lo, hi)]))

    def arr(self, lo, hi, n=None):
        return [self.num(lo, hi) for _ in range(self.T if n is None else n)]

    def make(self, cls, /, **kw):
        more = {}
        if self.late and issubclass(cls, Node):
            if self.p(0.4):
                more["parent_node"] = self.container()
            if self.p(0.2):
                cls = type("My" + cls.__name__, (cls,), {})
        o = cls(**kw, **more)
        if more:
            self.inside.add(id(o))
        self.kwargs[id(o)] = (cls.__name__, dict(kw))
        self.keep.append(o)
        return o

    # ------------------------------------------------------------- system
    def system(self, mode):
        """mode: single | multi | tsam"""
        self.mode = mode
        mk = {}
        if mode == "single":
            k = self.r.randrange(4)
            if k == 0:
                es = EnergySystem(timeindex=pd.date_range("2021-03-01", periods=self.T, freq="h"),
                                  infer_last_interval=True)
            elif k == 1:
                es = EnergySystem(
                    timeindex=pd.date_range("2021-03-01", periods=self.T + 1,
                                            freq=self.r.choice(["15min", "2h", "D"])),
                    infer_last_interval=False)
            elif k == 2:
                pts = [0]
                for _ in range(self.T):
                    pts.append(pts[-1] + self.r.choice([15, 30, 60, 120, 180]))
                es = EnergySystem(
                    timeindex=pd.DatetimeIndex([pd.Timestamp("2021-03-01")
                                                + pd.Timedelta(minutes=x) for x in pts]),
                    infer_last_interval=False)
            else:
                es = EnergySystem(timeindex=list(np.cumsum(
                    [0] + [self.r.choice([1, 2, 0.5]) for _ in range(self.T)])),
                    infer_last_interval=False)
            self.P = 1
        elif mode == "multi":
            self.P = self.r.choice([1, 2, 2, 3, 3, 3, 4, 4])
            per = []
            y = 2020
            n = 0
            for _ in range(self.P):
                k = self.r.choice([1, 2, 3]) if self.P > 1 else self.r.choice([2, 3])
                ix = pd.date_range("%d-01-01" % y, periods=k, freq="h")
                dur = self.r.choice([1, 1, 2, 3, 5])
                if dur > 1 and k > 1:
                    ix = pd.DatetimeIndex(list(ix[:-1]) + [pd.Timestamp("%d-12-31" % (y + dur - 1))])
                per.append(ix)
                n += k
                y += dur
            self.T = n
            ti = per[0]
            for x in per[1:]:
                ti = ti.append(x)
            es = EnergySystem(timeindex=ti, timeincrement=[self.r.choice([1, 1, 2, 0.5]) for _ in range(n)],
                              periods=per, infer_last_interval=False,
                              use_remaining_value=self.p(0.5))
            if self.p(0.6):
                mk["discount_rate"] = self.r.choice([0.02, 0.05, 0.1])
            self.years = list(es.periods_years)
            self.end = es.end_year_of_optimization
        elif mode == "tsam":
            self.P = 1
            par, self.T = self.typical(self.p(0.4))
            ti = pd.date_range("2021-01-01", periods=self.T + 1,
                               freq=self.r.choice(["h", "h", "2h", "30min"]))
            es = EnergySystem(timeindex=ti, tsa_parameters=par,
                              infer_last_interval=False)
        else:                       # tsamulti
            self.P = self.r.choice([2, 3])
            seg = self.p(0.4)
            pars, per, self.T, y = [], [], 0, 2020
            for _ in range(self.P):
                par, k = self.typical(seg)
                pars.append(par)
                self.T += k
                per.append(pd.date_range("%d-01-01" % y, periods=k, freq="h"))
                y += 1
            ti = per[0]
            for x in per[1:]:
                ti = ti.append(x)
            es = EnergySystem(
                timeindex=ti, periods=per, tsa_parameters=pars,
                timeincrement=None if seg else [self.r.choice([1, 2]) for _ in range(self.T)],
                infer_last_interval=False, use_remaining_value=self.p(0.5))
            self.years = list(es.periods_years)
            self.end = es.end_year_of_optimization
        if self.p(0.4):
            mk["objective_weighting"] = [self.r.choice([1, 2, 0.5, 3]) for _ in range(self.T)]
        self.es, self.mk = es, mk
        self.bs = []
        for i in range(self.r.choice([2, 3])):
            b = self.make(buses.Bus, label="b%d" % i, balanced=self.p(0.8))
            self.bs.append(b)
        self.add(*self.bs)
        self.n = 0
        return es

    def typical(self, segments):
        """tsa parameters of one period, number of time steps"""
        n = self.r.choice([2, 3])
        k = self.r.choice([2, 3])
        order = list(range(k)) + [self.r.randrange(k) for _ in range(self.r.choice([1, 2, 3]))]
        par = {"order": order, "timesteps_per_period": n}
        if segments:
            par["timesteps_per_period"] = 6
            par["segments"] = {}
            for c in range(k):
                left = 6
                for s in range(n):
                    d = left - (n - s - 1) if s == n - 1 else self.r.randrange(1, left - (n - s - 1) + 1)
                    par["segments"][(c, s)] = d
                    left -= d
        return par, n * k

    @property
    def multi(self):
        return self.mode in ("multi", "tsamulti")

    def label(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    # -------------------------------------------------------------- flows
    def investment(self, nonconvex_ok=True, finite=False):
        kw = {}
        n = self.P if self.multi else 1

        def pseq(lo, hi):
            return self.znum(lo, hi) if n == 1 or self.p(0.4) else self.arr(lo, hi, n)
        nc = nonconvex_ok and self.p(0.4)
        if nc or finite or self.p(0.6):
            kw["maximum"] = pseq(50, 90)
        if self.p(0.5):
            kw["minimum"] = pseq(1, 20)
        if self.p(0.7):
            kw["ep_costs"] = pseq(1, 9)
        if nc:
            kw["nonconvex"] = True
            if self.p(0.7):
                kw["offset"] = pseq(1, 9)
        elif self.p(0.5):
            kw["existing"] = self.znum(1, 20)
        if self.multi:
            kw["lifetime"] = self.r.choice([1, 2, 3, 4, 5, 6, 8, 20])
            if self.p(0.5):
                kw["age"] = self.r.randrange(kw["lifetime"])
            if self.p(0.4):
                kw["overall_maximum"] = self.znum(100, 200)
            if self.p(0.4):
                kw["overall_minimum"] = self.znum(1, 20)
            if self.p(0.4):
                kw["fixed_costs"] = self.znum(1, 3) if self.p(0.4) else self.arr(1, 3, int(self.end) + 1)
        if self.p(0.3):
            kw["custom_properties"] = {"space": self.num(1, 3)}
        return self.make(Investment, **kw)

    def nonconvex(self):
        kw = {}
        if self.p(0.4):
            kw["initial_status"] = self.r.choice([0, 1])
        if self.p(0.4):
            kw["minimum_uptime"] = self.seq(0, 0, f=lambda: self.r.choice([0, 1, 2, 2, 3, 6]))
        if self.p(0.4):
            kw["minimum_downtime"] = self.seq(0, 0, f=lambda: self.r.choice([0, 1, 2, 2, 3, 6]))
        if self.p(0.3):
            kw["maximum_startups"] = self.r.randrange(3)
        if self.p(0.3):
            kw["maximum_shutdowns"] = self.r.randrange(3)
        for c in ("startup_costs", "shutdown_costs", "activity_costs", "inactivity_costs"):
            if self.p(0.4):
                kw[c] = self.seq(1, 9)
        for c in ("positive_gradient_limit", "negative_gradient_limit"):
            if self.p(0.25):
                kw[c] = self.seq(0.1, 0.5)
        return self.make(NonConvex, **kw)

    def flow(self, kinds=("plain", "cap", "fix", "bounds")):
        k = self.r.choice(list(kinds))
        kw = {}
        if k == "plain":
            pass
        elif k == "cap":
            kw["nominal_capacity"] = self.znum(10, 90)
            if self.p(0.5):
                kw["maximum"] = self.zseq(0.5, 1)
        elif k == "fix":
            kw["nominal_capacity"] = self.znum(10, 90)
            kw["fix"] = self.seq(0, 1)
        elif k == "bounds":
            kw["nominal_capacity"] = self.znum(10, 90)
            kw["minimum"] = self.minima()
            if self.p(0.6):
                kw["maximum"] = self.zseq(0.5, 1)
        elif k == "bidir":
            kw["nominal_capacity"] = self.znum(10, 90)
            kw["minimum"] = self.seq(0, 0, f=lambda: self.num(-0.9, -0.1) if self.p(0.7) else self.r.choice([0, self.num(0, 0.1)]))
            kw["maximum"] = self.zseq(0.2, 1)
        elif k == "investplain":
            kw["nominal_capacity"] = self.investment()
        elif k == "invest":
            kw["nominal_capacity"] = self.investment()
            q = self.r.randrange(3)
            if q == 0:
                kw["fix"] = self.seq(0, 1)
            elif q == 1:
                kw["minimum"] = self.minima()
                kw["maximum"] = self.zseq(0.5, 1)
        elif k == "nonconvex":
            kw["nominal_capacity"] = self.znum(10, 90)
            kw["minimum"] = self.seq(0.1, 0.4)
            if self.p(0.5):
                kw["maximum"] = self.zseq(0.5, 1)
            kw["nonconvex"] = self.nonconvex()
        elif k == "investnc":
            kw["nominal_capacity"] = self.investment(finite=True)
            kw["minimum"] = self.seq(0.1, 0.4)
            if self.p(0.5):
                kw["maximum"] = self.zseq(0.5, 1)
            kw["nonconvex"] = self.nonconvex()
        self.feat.add(k)
        if self.p(0.6):
            kw["variable_costs"] = self.zseq(1, 9)
        if self.p(0.1):
            kw["variable_costs"] = None
        cap = k in ("cap", "bounds", "bidir", "invest", "nonconvex", "investnc")
        if cap and self.p(0.35):
            kw["full_load_time_max"] = self.znum(3, 9)
        if cap and self.p(0.35):
            kw["full_load_time_min"] = self.znum(0.1, 1)
        if k in ("cap", "bounds", "bidir") and self.p(0.35):
            kw["positive_gradient_limit"] = self.zseq(0.1, 0.5)
        if k in ("cap", "bounds", "bidir") and self.p(0.35):
            kw["negative_gradient_limit"] = self.zseq(0.1, 0.5)
        if k in ("plain", "cap", "bounds") and self.p(0.2):
            kw["integer"] = True
        if k in ("plain", "cap", "bounds") and self.multi:
            if self.p(0.5):
                kw["lifetime"] = self.r.choice([1, 2, 3, 4, 5])
                if self.p(0.5):
                    kw["age"] = self.r.choice([0, 1, 2, 3])
        if k in ("cap", "bounds") and self.multi and self.p(0.5):
            kw["fixed_costs"] = self.znum(1, 3) if self.p(0.5) else self.arr(
                1, 3, max(int(self.end) + 1, self.T))
        if self.p(0.4):
            kw["custom_properties"] = {"emission_factor": self.seq(0.1, 2)}
            if self.p(0.3):
                kw["custom_properties"]["outflow_share"] = self.seq(0.1, 0.4)
            if self.p(0.5):
                kw["custom_properties"]["keyword1"] = True
        return self.make(Flow, **kw)

    # --------------------------------------------------------- components
    def source(self, kinds):
        o = [b for b in self.bs if self.p(0.5)] or [self.r.choice(self.bs)]
        self.add(self.make(cmp.Source, label=self.label("so"),
                              outputs={b: self.flow(kinds) for b in o}))

    def sink(self, kinds):
        b = self.r.choice(self.bs)
        self.add(self.make(cmp.Sink, label=self.label("si"),
                              inputs={b: self.flow(kinds)}))

    def converter(self, kinds):
        bs = list(self.bs)
        self.r.shuffle(bs)
        k = self.r.randrange(1, len(bs))
        ins, outs = bs[:k], bs[k:]
        cf = {b: self.zseq(0.2, 0.9) if b in outs else self.seq(0.2, 0.9) for b in bs if self.p(0.7)}
        self.add(self.make(
            cmp.Converter, label=self.label("co"),
            inputs={b: self.flow(kinds) for b in ins},
            outputs={b: self.flow(kinds) for b in outs}, conversion_factors=cf))

    def split_buses(self):
        bs = list(self.bs)
        self.r.shuffle(bs)
        k = self.r.randrange(1, len(bs))
        return bs[:k], bs[k:]

    def link(self, kinds):
        a, b = self.r.sample(self.bs, 2)
        cf = {(a, b): self.seq(0.5, 1), (b, a): self.seq(0.5, 1)}
        if self.p(0.2):
            cf.pop((b, a))
        if self.p(0.1):
            cf[(a, a)] = self.seq(0.5, 1)
        self.add(self.make(
            cmp.Link, label=self.label("li"),
            inputs={x: self.flow(kinds) for x in (a, b)},
            outputs={x: self.flow(kinds) for x in (a, b)}, conversion_factors=cf))

    def offset_converter(self, kinds):
        ins, outs = self.split_buses()
        ref = self.r.choice(ins + outs)
        rk = self.r.choice(["nonconvex", "investnc"])
        fl = {b: self.flow([rk] if b is ref else kinds) for b in ins + outs}
        cf = {b: self.seq(0.5, 2) for b in ins + outs if b is not ref and self.p(0.7)}
        no = {b: self.seq(-0.5, 0.5) for b in ins + outs if b is not ref and self.p(0.7)}
        self.add(self.make(
            cmp.OffsetConverter, label=self.label("of"),
            inputs={b: fl[b] for b in ins}, outputs={b: fl[b] for b in outs},
            conversion_factors=cf or None, normed_offsets=no or None))

    def turbine(self, kinds):
        if len(self.bs) < 3:
            self.bs.append(self.make(buses.Bus, label="bx"))
            self.add(self.bs[-1])
        i, a, b = self.r.sample(self.bs, 3)
        main = self.r.choice([a, b])
        full = self.seq(0.5, 0.7)
        self.add(self.make(
            cmp.ExtractionTurbineCHP, label=self.label("et"),
            inputs={i: self.flow(kinds)}, outputs={a: self.flow(kinds), b: self.flow(kinds)},
            conversion_factors={a: self.seq(0.2, 0.45), b: self.seq(0.2, 0.45)},
            conversion_factor_full_condensation={main: full}))

    def chp(self, kinds):
        if len(self.bs) < 3:
            self.bs.append(self.make(buses.Bus, label="bx"))
            self.add(self.bs[-1])
        i, a, b = self.r.sample(self.bs, 3)
        f = self.make(Flow, custom_properties={"H_L_FG_share_max": self.arr(0.1, 0.2)})
        if self.p(0.5):
            f.custom_properties["H_L_FG_share_min"] = self.arr(0.2, 0.4)
        e = self.make(Flow, custom_properties={
            "P_max_woDH": self.arr(100, 200), "P_min_woDH": self.arr(20, 80),
            "Eta_el_max_woDH": self.arr(0.4, 0.6), "Eta_el_min_woDH": self.arr(0.3, 0.4)})
        h = self.make(Flow, custom_properties={"Q_CW_min": self.arr(0, 20)})
        self.add(self.make(
            cmp.GenericCHP, label=self.label("chp"), fuel_input={i: f},
            electrical_output={a: e}, heat_output={b: h},
            beta=self.seq(0.1, 0.2), back_pressure=self.p(0.5)))


    # -------------------------------------------------------- experimental
    def caes(self, kinds):
        i, f, o = (self.r.choice(self.bs) for _ in range(3))
        if i is f:
            f = self.r.choice([b for b in self.bs if b is not i])
        n = lambda lo, hi: self.znum(lo, hi, 0.1)
        share = lambda: self.r.choice([0, 1, self.num(0, 1)])
        par = {"cav_e_in_b": n(-1, 1), "cav_e_in_m": n(0.4, 0.9),
               "cav_e_out_b": n(-1, 1), "cav_e_out_m": n(0.2, 0.6),
               "cav_eta_temp": n(0.9, 1), "cav_level_max": n(50, 200),
               "cmp_p_max_b": n(50, 90), "cmp_p_max_m": n(-0.1, 0.1), "cmp_p_min": n(1, 9),
               "cmp_q_out_b": n(-19, 2), "cmp_q_out_m": n(0.9, 1.2),
               "cmp_q_tes_share": share(), "exp_p_max_b": n(30, 60),
               "exp_p_max_m": n(-0.1, 0.3), "exp_p_min": n(1, 9), "exp_q_in_b": n(-2, 3),
               "exp_q_in_m": n(0.9, 1.2), "exp_q_tes_share": share(),
               "tes_eta_temp": n(0.8, 1), "tes_level_max": n(0, 100)}
        self.add(self.make(
            cmp.experimental.GenericCAES, label=self.label("caes"),
            electrical_input={i: self.flow(kinds)}, fuel_input={f: self.flow(kinds)},
            electrical_output={o: self.flow(kinds)}, params=par))

    def piecewise(self, kinds):
        a, b = self.r.sample(self.bs, 2)
        if not hasattr(self, "repn"):
            self.repn = self.r.choice(["SOS2", "CC", "DCC", "MC", "INC", "BIGM_BIN"])
        cap = self.num(10, 50)
        points = {0: 0, cap: 1} if self.p(0.5) else {self.num(-5, 5): 1}
        for _ in range(self.r.choice([1, 2, 3])):
            points[self.num(0, 60)] = 1
        points[self.num(60, 90)] = 1
        top, c, d = self.num(20, 60), self.num(-1, 1), self.num(-5, 5)
        f = self.r.choice([lambda x: x ** 2 * c + d, lambda x: d + c * abs(x - top),
                           lambda x: d + c * x])
        kw = {"in_breakpoints": sorted(points)}
        if self.p(0.3):
            kw["in_breakpoints"] = tuple(kw["in_breakpoints"])
        self.add(self.make(
            cmp.experimental.PiecewiseLinearConverter, label=self.label("pw"),
            inputs={a: self.make(Flow, nominal_capacity=cap)}, outputs={b: self.flow(kinds)},
            conversion_function=f, pw_repn=self.repn, **kw))

    # ------------------------------------------------------------ storages
    def storage(self, invest):
        kw = {}
        n = self.P if self.multi else 1
        tsam = "tsam" in self.mode

        def pseq(lo, hi):
            return self.num(lo, hi) if n == 1 or self.p(0.4) else self.arr(lo, hi, n)
        b = self.r.choice(self.bs)
        c = self.r.choice(self.bs)
        rel = self.p(0.4)
        relc = invest and self.p(0.5)
        fi = self.flow(("investplain",)) if rel or relc else self.flow(("plain", "cap"))
        fo = self.flow(("investplain",)) if rel or relc else self.flow(("plain", "cap"))
        if rel:
            kw["invest_relation_input_output"] = pseq(0.5, 2)
        if relc and self.p(0.6):
            kw["invest_relation_input_capacity"] = pseq(0.1, 0.5)
        if relc and (not rel or "invest_relation_input_capacity" not in kw) and self.p(0.6):
            kw["invest_relation_output_capacity"] = pseq(0.1, 0.5)
        T1 = self.T + 1
        if self.p(0.7):
            kw["loss_rate"] = self.znum(0.01, 0.1) if tsam else self.seq(0.01, 0.1)
        if self.p(0.5):
            kw["fixed_losses_relative"] = self.seq(0.001, 0.01)
        if self.p(0.5) and not (invest and self.multi):
            kw["fixed_losses_absolute"] = self.seq(0.1, 1)
        if self.p(0.6):
            kw["inflow_conversion_factor"] = self.seq(0.7, 0.95)
        if self.p(0.6):
            kw["outflow_conversion_factor"] = self.seq(0.7, 0.95)
        if self.p(0.5):
            kw["max_storage_level"] = self.num(0.8, 1) if tsam else self.seq(0.8, 1, T1)
        if self.p(0.5):
            kw["min_storage_level"] = self.num(0.1, 0.3) if tsam else self.seq(
                0, 0, T1, lambda: self.r.choice([0, self.num(0.1, 0.3)]))
            if not tsam and self.p(0.2):
                kw["min_storage_level"] = [0] * self.T + [0.25]
        if self.p(0.5) and not (invest and self.multi):
            kw["initial_storage_level"] = self.num(0.3, 0.8)
        kw["balanced"] = self.p(0.6)
        if self.p(0.5) and not tsam:
            kw["storage_costs"] = self.seq(0.1, 1)
        if invest:
            inv = self.investment()
            if "fixed_losses_absolute" in kw and inv.existing == 0 and inv.minimum.min() == 0:
                kw.pop("fixed_losses_absolute")
            kw["nominal_capacity"] = inv
        else:
            kw["nominal_capacity"] = self.znum(50, 200)
            if self.p(0.4):
                kw["fixed_costs"] = self.znum(0.1, 1) if not self.multi or self.p(0.5) \
                    else self.arr(0.1, 1, int(self.end) + 1)
            if self.p(0.4) and not tsam and fi.nominal_capacity is not None and kw["nominal_capacity"]:
                kw["constant_soc_until"] = self.num(0.5, 0.8)
                kw["fraction_saturation_charging"] = self.num(0.1, 0.5)
        self.feat.add("investstorage" if invest else "storage")
        self.add(self.make(cmp.GenericStorage, label=self.label("st"),
                              inputs={b: fi}, outputs={c: fo}, **kw))


FLOW_KINDS = {
    "flow": ("plain", "cap", "fix", "bounds", "bidir"),
    "invest": ("invest", "invest", "cap", "plain"),
    "nonconvex": ("nonconvex", "nonconvex", "cap"),
    "investnc": ("investnc", "investnc", "cap"),
}


ON_SECOND_MODEL = []


def build(seed, profile, late=False, more=None):
    """(generator, model)"""
    g = G(seed, profile)
    g.late = late
    base = profile.split(":")[0]
    modes = profile.split(":")[1].split(",") if ":" in profile else ["single", "multi", "tsam"]
    g.system(g.r.choice(modes))
    kinds = FLOW_KINDS.get(base, FLOW_KINDS["flow"])
    for _ in range(g.r.choice([1, 2, 3])):
        g.source(kinds)
    for _ in range(g.r.choice([1, 2])):
        g.sink(kinds)
    if g.p(0.5):
        g.converter(kinds)
    extra = EXTRA.get(base)
    if extra:
        extra(g)
    g.stage = None
    if more:
        more(g)
    g.late = False
    g.flush()
    if g.p(0.15):
        # the energy system was already used for another model
        g.feat.add("second model")
        Model(g.es, **g.mk)
        for forget in ON_SECOND_MODEL:
            forget()
    m = Model(g.es, **g.mk)
    g.calls = []
    if base in POST and not late:
        g.stage = base
        g.calls = POST[base](g, m)
        g.stage = None
    return g, m


def extra_conv(g):
    k = ("plain", "cap")
    for f in g.r.sample([g.converter, g.link, g.offset_converter, g.link, g.offset_converter], 2):
        f(k)


def extra_chp(g):
    k = ("plain", "cap")
    for f in g.r.sample([g.turbine, g.chp, g.turbine, g.chp], 2):
        f(k)


def extra_experimental(g):
    k = ("plain", "cap")
    for f in g.r.choice([(g.caes,), (g.piecewise,), (g.caes, g.piecewise), (g.piecewise,) * 2,
                         (g.caes,) * 2]):
        f(k)


def extra_storage(g):
    for _ in range(g.r.choice([1, 2])):
        g.storage(False)


def extra_investstorage(g):
    for _ in range(g.r.choice([1, 2])):
        g.storage(True)


from conc import couple  # noqa: E402

POST = {"limits": couple.limits, "couplings": couple.couplings}
FLOW_KINDS["limits"] = ("cap", "bounds", "plain", "invest", "investnc", "nonconvex")
FLOW_KINDS["couplings"] = ("cap", "bounds", "plain", "invest", "investnc", "nonconvex",
                           "nonconvex")
EXTRA = {"limits": couple.extra_limits, "couplings": couple.extra_couplings,
         "storage": extra_storage, "investstorage": extra_investstorage,
         "conv": extra_conv,
         "experimental": extra_experimental, "chp": extra_chp}
