"""Contracts of the time structure.

The time index is given as numbers or as points in time; `hours(index)` are
the durations of its intervals (points in time: in hours).  `year(x)` is the
year of a point in time, `start(p)`/`stop(p)` the first/last entry of a period
index."""


def model_sets(m, es, n, lengths, timeincrement=None, weighting=None, rate=None):
    """n steps; lengths: number of steps of each period (None: one period)"""
    P = "C19"
    holds(P, list(m.TIMESTEPS) == list(range(n)), "one step per interval")
    holds(P, list(m.TIMEPOINTS) == list(range(n + 1)), "one more time point than steps")
    equal(P, len(m.timeincrement), n, "number of durations")
    for t in range(n):
        if timeincrement is None:
            equal(P, m.timeincrement[t], es.timeincrement[t], "duration of a step")
        else:
            equal(P, m.timeincrement[t], timeincrement[t], "duration of a step")
        if weighting is None:
            equal(P, m.objective_weighting[t], m.timeincrement[t], "weight of a step")
        else:
            equal(P, m.objective_weighting[t], weighting[t], "weight of a step")
        equal(P, m.previous_timesteps[t], t - 1 if t > 0 else n - 1, "previous step")
    if lengths is None:
        lengths = [n]
    else:
        if rate is None:
            equal(P, m.discount_rate, 0.02, "discount rate")
        else:
            equal(P, m.discount_rate, rate, "discount rate")
    holds(P, list(m.PERIODS) == list(range(len(lengths))), "periods")
    index = [(p, t) for p in range(len(lengths))
             for t in range(sum(lengths[:p]), sum(lengths[:p + 1])) if t < n]
    holds(P, list(m.TIMEINDEX) == index, "the period of each step")
    for p in range(len(lengths)):
        holds(P, list(m.TIMESTEPS_IN_PERIOD[p]) == [t for q, t in index if q == p],
              "the steps of each period")
    # aggregated time series
    if es.tsa_parameters is None:
        holds(P, not m.TSAM_MODE, "no aggregation")
        holds(P, list(m.tsam_weighting) == [1] * n, "weight of a step")
    else:
        holds(P, m.TSAM_MODE, "aggregation")
        i = 0
        for p in range(len(lengths)):
            x = es.tsa_parameters[p]
            for k in sorted(set(x["order"])):
                for _ in range(x["timesteps"]):
                    equal(P, m.tsam_weighting[i], count(x["order"], k), "weight of a typical step")
                    i += 1
        equal(P, len(m.tsam_weighting), i, "number of typical steps")
        total = sum(len(es.tsa_parameters[p]["order"]) for p in m.PERIODS)
        holds(P, list(m.CLUSTERS) == list(range(total)), "one cluster per original period")
        holds(P, list(m.CLUSTERS_OFFSET) == list(range(total + 1)), "cluster boundaries")
        holds(P, list(m.TYPICAL_CLUSTERS) == [
            (p, k) for p in m.PERIODS for k in sorted(set(es.tsa_parameters[p]["order"]))],
            "typical periods")
        for name, what, more in (("TIMEINDEX_TYPICAL_CLUSTER", "typical", 0),
                                 ("TIMEINDEX_TYPICAL_CLUSTER_OFFSET", "typical", 1),
                                 ("TIMEINDEX_CLUSTER", "order", 0)):
            want = [(p, k, t) for p in m.PERIODS
                    for k in range(len(set(es.tsa_parameters[p]["order"])) if what == "typical"
                                   else len(es.tsa_parameters[p]["order"]))
                    for t in range(es.tsa_parameters[p]["timesteps"] + more)]
            holds(P, list(getattr(m, name)) == want, "index of the steps of a cluster")
        for p in m.PERIODS:
            before = sum(lengths[:p])
            for k in range(len(set(es.tsa_parameters[p]["order"]))):
                for g in range(es.tsa_parameters[p]["timesteps"]):
                    equal(P, m.get_timestep_from_tsam_timestep(p, k, g),
                          before + k * es.tsa_parameters[p]["timesteps"] + g,
                          "step of a typical step")
