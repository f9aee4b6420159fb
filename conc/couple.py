"""Random calls of oemof.solph.constraints.* on a generated model.  Every call
is recorded as (contract function, contract arguments)."""

from oemof.solph import Bus, Flow, constraints as c
from oemof.solph import components as cmp


def flows_with(m, keyword):
    return [k for k in m.flows if keyword in m.flows[k].custom_properties]


def limits(g, m):
    """[(contract, args)] after calling functions of C17"""
    calls = []
    r = g.r
    em = flows_with(m, "emission_factor")

    def pick():
        if g.p(0.5) or not em:
            return None
        return {k: m.flows[k] for k in em if g.p(0.6)} or {em[0]: m.flows[em[0]]}
    fns = ["generic", "named", "emission", "invest", "additional"]
    if g.multi:
        fns += ["period", "invest_per", "period"]
    limited = set()
    for f in r.sample(fns, r.choice([1, 2, 3])):
        if f in ("generic", "named"):
            kw = r.choice(["emission_factor", "outflow_share", "unused"])
            fl = pick() if kw == "emission_factor" else None
            if fl is None and not flows_with(m, kw):
                continue
            up = g.znum(10, 90) if g.p(0.7) else None
            lo = g.znum(0, 9) if up is None or g.p(0.4) else None
            name = "mylimit" if f == "named" else None
            if f == "generic" and kw == "emission_factor" and \
                    any(x[0] == "emission_limit" for x in calls):
                continue
            res = c.generic_integral_limit(m, kw, flows=fl, upper_limit=up, lower_limit=lo,
                                           limit_name=name)
            calls.append(("integral_limit", (kw, fl, up, lo, name, res)))
        elif f == "emission" and em:
            if any(x[0] == "integral_limit" and x[1][0] == "emission_factor"
                   and x[1][4] is None for x in calls):
                continue
            fl, up = pick(), g.znum(10, 90)
            res = c.emission_limit(m, flows=fl, limit=up)
            calls.append(("emission_limit", (fl, up, m)))
        elif f == "period":
            kw = r.choice(["emission_factor", "emission_factor", "outflow_share"])
            lim = g.znum(10, 90) if g.p(0.4) else g.arr(10, 90, g.P)
            if kw in limited or not flows_with(m, kw):
                continue
            limited.add(kw)
            if kw == "emission_factor" and g.p(0.5):
                fl = pick()
                c.emission_limit_per_period(m, flows=fl, limit=lim)
                calls.append(("emission_limit_per_period", (fl, lim, m)))
            else:
                fl = pick() if kw == "emission_factor" else None
                res = c.generic_periodical_integral_limit(m, kw, flows=fl, limit=lim)
                calls.append(("periodical_integral_limit", (kw, fl, lim, res)))
        elif f in ("invest", "invest_per"):
            if not any(hasattr(getattr(m, b, None), "investment_costs") for b in (
                    "InvestmentFlowBlock", "InvestNonConvexFlowBlock",
                    "GenericInvestmentStorageBlock")):
                continue
            if f == "invest":
                lim = g.znum(100, 900)
                res = c.investment_limit(m, limit=lim)
                calls.append(("investment_limit", (lim, res)))
            else:
                lim = g.znum(10, 90) if g.p(0.4) else g.arr(10, 90, g.P)
                res = c.investment_limit_per_period(m, limit=lim)
                calls.append(("investment_limit_per_period", (lim, res)))
        elif f == "additional":
            lim = g.znum(100, 900)
            res = c.additional_investment_flow_limit(m, "space", limit=lim)
            calls.append(("additional_investment_flow_limit", ("space", lim, res)))
    if g.multi and not limited and g.p(0.15):
        # a selection of no flows at all: refused or not limiting anything
        try:
            c.emission_limit_per_period(m, flows={}, limit=1)
        except ValueError:
            m.del_component("integral_limit_emission_factor_constraint")
        else:
            calls.append(("emission_limit_per_period", ({}, 1, m)))
    return calls


def couplings(g, m):
    calls = []
    r = g.r
    fl = list(m.flows)
    fns = ["vars", "flows", "flows", "key", "count", "countkey", "shared"]
    if g.level is not None and m.TSAM_MODE is False:
        fns = ["level", "level"] + fns
    done = set()
    for f in r.sample(fns, r.choice([1, 2, 3])):
        if f in done:
            continue
        done.add(f)
        if f == "vars":
            a, b = r.choice(fl), r.choice(fl)
            t = r.choice(list(m.TIMESTEPS))
            if a == b:
                continue
            k = g.znum(0.3, 3)
            v, w = m.flow[a[0], a[1], t], m.flow[b[0], b[1], t]
            kw = {"name": "cplvars"} if g.p(0.5) else {}
            if g.p(0.3):
                k = 1
                c.equate_variables(m, v, w, **kw)
            else:
                c.equate_variables(m, v, w, factor1=k, **kw)
            calls.append(("equate_variables", (v, w, k, None)))
            if g.p(0.3):    # another variable is tied to the same one
                t2 = r.choice(list(m.TIMESTEPS))
                if t2 != t and a != b:
                    v = m.flow[a[0], a[1], t2]
                    c.equate_variables(m, v, w)
                    calls.append(("equate_variables", (v, w, 1, None)))
        elif f == "flows":
            a = [x for x in fl if g.p(0.4)]
            b = [x for x in fl if g.p(0.4)]
            k = g.znum(0.3, 3)
            res = c.equate_flows(m, a, b, factor1=k, name="cplflows")
            calls.append(("equate_flows", (a, b, k, res)))
        elif f == "key":
            k = g.znum(0.3, 3)
            kk = ("keyword1", r.choice(["emission_factor", "outflow_share", "unused"]))
            if g.p(0.5):
                kk = kk[::-1]
            res = c.equate_flows_by_keyword(m, kk[0], kk[1], factor1=k)
            calls.append(("equate_flows_by_keyword", kk + (k, res)))
        elif f in ("count", "countkey"):
            nc = [x for x in fl if m.flows[x].nonconvex is not None
                  and m.flows[x].investment is None]
            if not nc:
                continue
            lo, up = r.choice([0, 1]), r.choice([None, 1, 2])
            if f == "count":
                a = [x for x in nc if g.p(0.7)]
                res = c.limit_active_flow_count(m, "cplcount", a, lower_limit=lo, upper_limit=up)
                calls.append(("limit_active_flow_count", ("cplcount", a, lo, up, res)))
            else:
                res = c.limit_active_flow_count_by_keyword(m, "keyword1", lower_limit=lo,
                                                           upper_limit=up)
                calls.append(("limit_active_flow_count_by_keyword", ("keyword1", lo, up, res)))
        elif f == "shared":
            st = [n for n in g.es.nodes if isinstance(n, cmp.GenericStorage)
                  and n.investment is None]
            if not st or m.TSAM_MODE:
                continue
            st = [x for x in st if g.p(0.8)] or st
            if g.p(0.2):    # counted twice
                st = st + [r.choice(st)]
            wt = [g.znum(0.5, 2) for _ in st]
            lo, up = r.choice([0, 1.5]), r.choice([None, 70.5])
            q = m.GenericStorageBlock.storage_content
            c.shared_limit(m, q, "cplshared", st, wt, lower_limit=lo, upper_limit=up)
            calls.append(("shared_limit", (q, "cplshared", st, wt, lo, up, m)))
        elif f == "level":
            st, bus, i, o = g.level
            c.storage_level_constraint(m, "cpllevel", st, bus, i, o)
            calls.append(("storage_level", ("cpllevel", st, bus, i, o, None)))
    return calls


def extra_limits(g):
    if g.p(0.5):
        g.storage(True)


def extra_couplings(g):
    g.level = None
    if g.p(0.5):
        g.storage(False)
    if "tsam" in g.mode or g.p(0.4):
        return
    b = g.make(Bus, label="mux")
    ins = {}
    outs = {}
    for _ in range(g.r.choice([1, 2])):
        x = g.make(Bus, label=g.label("lin"))
        x.outputs[b] = g.make(Flow, nominal_capacity=g.num(10, 90))
        ins[x] = g.num(0.1, 0.9)
    for _ in range(g.r.choice([1, 2])):
        x = g.make(Bus, label=g.label("lout"),
                   inputs={b: g.make(Flow, nominal_capacity=g.num(10, 90))})
        outs[x] = g.num(0.1, 0.9)
    st = g.make(cmp.GenericStorage, label=g.label("lst"), nominal_capacity=g.num(50, 90),
                inputs={b: g.make(Flow, nominal_capacity=9)},
                outputs={b: g.make(Flow, nominal_capacity=9)},
                initial_storage_level=g.num(0, 1) if g.p(0.5) else None)
    g.add(b, st, *ins, *outs)
    g.level = (st, b, ins, outs)
