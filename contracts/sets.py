"""Contract of Model._add_parent_block_sets: the index sets of the model.

`before(lengths, p)` is the number of steps before period p (the sum of the
lengths of the earlier periods), `typical(x)` the number of typical periods of
aggregated data, `count(order, k)` how often k occurs."""

P = "C19"


def model_sets(m, es, n, lengths):
    """n steps; lengths: number of steps of each period (None: one period)"""
    ordered(P, m.TIMESTEPS, range(n), "one step per interval")
    ordered(P, m.TIMEPOINTS, range(n + 1), "one more time point than steps")
    for t in range(n):
        if t == 0:
            equal(P, m.previous_timesteps[t], n - 1, "the first step follows the last")
        else:
            equal(P, m.previous_timesteps[t], t - 1, "previous step")
    if lengths is None:
        ordered(P, m.PERIODS, [0], "one period")
        ordered(P, m.TIMEINDEX, [(0, t) for t in range(n)], "the period of each step")
        ordered(P, m.TIMESTEPS_IN_PERIOD[0], range(n), "the steps of the period")
    else:
        ordered(P, m.PERIODS, range(len(lengths)), "periods")
        ordered(P, m.TIMEINDEX, [(p, before(lengths, p) + j) for p in range(len(lengths))
                                 for j in range(lengths[p])], "the period of each step")
        for p in range(len(lengths)):
            ordered(P, m.TIMESTEPS_IN_PERIOD[p], [before(lengths, p) + j for j in range(lengths[p])],
                    "the steps of each period")
    if es.tsa_parameters is None:
        holds(P, not m.TSAM_MODE, "no aggregation")
        ordered(P, m.tsam_weighting, [1 for t in range(n)], "weight of a step")
    else:
        aggregated(m, es)
    for x in m.nodes:
        holds("C21", x in m.NODES, "node of the energy system")
    for i, o in m.flows:
        holds("C21", (i, o) in m.FLOWS, "flow of the energy system")
        if m.flows[i, o].bidirectional:
            holds("C21 C02", (i, o) in m.BIDIRECTIONAL_FLOWS, "flow in both directions")
            holds("C21 C02", (i, o) not in m.UNIDIRECTIONAL_FLOWS, "flow in both directions")
        else:
            holds("C21 C02", (i, o) in m.UNIDIRECTIONAL_FLOWS, "flow in one direction")
            holds("C21 C02", (i, o) not in m.BIDIRECTIONAL_FLOWS, "flow in one direction")
    for i, o in m.FLOWS:
        holds("C21", (i, o) in m.flows, "flow that is not in the energy system")


def aggregated(m, es):
    """time series aggregated to typical periods"""
    x = es.tsa_parameters
    holds(P, m.TSAM_MODE, "aggregation")
    ordered(P, m.tsam_weighting, [
        count(x[p]["order"], k) for p in m.PERIODS for k in range(typical(x[p]))
        for _ in range(x[p]["timesteps"])], "weight of a typical step")
    clusters = sum(len(x[p]["order"]) for p in m.PERIODS)
    ordered(P, m.CLUSTERS, range(clusters), "one cluster per original period")
    ordered(P, m.CLUSTERS_OFFSET, range(clusters + 1), "cluster boundaries")
    ordered(P, m.TYPICAL_CLUSTERS, [(p, k) for p in m.PERIODS for k in range(typical(x[p]))],
            "typical periods")
    ordered(P, m.TIMEINDEX_CLUSTER, [
        (p, k, t) for p in m.PERIODS for k in range(len(x[p]["order"]))
        for t in range(x[p]["timesteps"])], "steps of the original periods")
    ordered(P, m.TIMEINDEX_TYPICAL_CLUSTER, [
        (p, k, t) for p in m.PERIODS for k in range(typical(x[p]))
        for t in range(x[p]["timesteps"])], "steps of the typical periods")
    ordered(P, m.TIMEINDEX_TYPICAL_CLUSTER_OFFSET, [
        (p, k, t) for p in m.PERIODS for k in range(typical(x[p]))
        for t in range(x[p]["timesteps"] + 1)], "time points of the typical periods")


def step_of_typical(r, m, lengths, p, k, g, steps):
    """position of step g of typical period k in the steps of the model"""
    equal(P, r, before(lengths, p) + k * steps + g, "step of a typical step")
