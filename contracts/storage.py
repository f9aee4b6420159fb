"""Contracts of GenericStorageBlock and GenericInvestmentStorageBlock
(oemof.solph.components._generic_storage)."""


def retained(m, n, p, k, g):
    """share of the content at the start of typical period k of period p that
    is left at its g-th step if nothing is charged or discharged"""
    t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
    return product(
        (1 - n.loss_rate[t0 + s]) ** m.timeincrement[t0 + s] for s in range(g)
    )


def first_cluster(m, p):
    """number of typical periods before period p"""
    return sum(len(m.es.tsa_parameters[q]["order"]) for q in range(p))


def charged(m, n, t):
    """energy put into the storage less energy taken from it"""
    i = first(n.inputs)
    o = first(n.outputs)
    return (
        m.flow[i, n, t] * n.inflow_conversion_factor[t]
        - m.flow[n, o, t] / n.outflow_conversion_factor[t]
    ) * m.timeincrement[t]


def fixed_losses(m, n, capacity, t):
    return (
        n.fixed_losses_relative[t] * capacity + n.fixed_losses_absolute[t]
    ) * m.timeincrement[t]


def typical_periods(m, block, n, capacity):
    """storage in a model of typical periods: content at the start of each
    period of the horizon plus difference within the typical period.
    `capacity(p)` is the capacity in period p"""
    for p in m.PERIODS:
        par = m.es.tsa_parameters[p]
        for k in range(len(par["occurrences"])):
            variable("C15", block.intra_storage_delta[n, p, k, 0], fix=0)
            for g in range(par["timesteps"]):
                t = m.get_timestep_from_tsam_timestep(p, k, g)
                require(
                    "C15",
                    block.intra_storage_delta[n, p, k, g + 1]
                    == block.intra_storage_delta[n, p, k, g]
                    * (1 - n.loss_rate[t]) ** m.timeincrement[t]
                    - fixed_losses(m, n, capacity(p), t)
                    + charged(m, n, t),
                )
                variable("C15", block.intra_storage_delta[n, p, k, g + 1])
        for j in range(len(par["order"])):
            i = first_cluster(m, p) + j
            k = par["order"][j]
            require(
                "C15",
                block.inter_storage_content[n, i + 1]
                == block.inter_storage_content[n, i]
                * retained(m, n, p, k, par["timesteps"])
                + block.intra_storage_delta[n, p, k, par["timesteps"]],
            )
            for g in range(par["timesteps"]):
                content = (
                    block.inter_storage_content[n, i] * retained(m, n, p, k, g)
                    + block.intra_storage_delta[n, p, k, g]
                )
                t = m.get_timestep_from_tsam_timestep(p, j, g)
                require("C15", content >= capacity(p) * n.min_storage_level[t])
                require("C15", content <= capacity(p) * n.max_storage_level[t])


def tie_power(m, n):
    """capacity of the inflow : capacity of the outflow"""
    if n.invest_relation_input_output is not None:
        i = first(n.inputs)
        o = first(n.outputs)
        for p in m.PERIODS:
            require(
                "C15",
                m.InvestmentFlowBlock.total[i, n, p]
                == m.InvestmentFlowBlock.total[n, o, p]
                * n.invest_relation_input_output[p],
            )


def storage(m, block, group):
    for n in group:
        cap = n.nominal_storage_capacity
        if m.TSAM_MODE:
            typical_periods(m, block, n, lambda p: cap)
            for c in m.CLUSTERS_OFFSET:
                if n.initial_storage_level is not None and c == 0:
                    variable(
                        "C15", block.inter_storage_content[n, c],
                        domain="NonNegativeReals",
                        fix=n.initial_storage_level * cap,
                    )
                else:
                    variable("C15", block.inter_storage_content[n, c],
                             domain="NonNegativeReals")
            if n.balanced is True:
                require(
                    "C15",
                    block.inter_storage_content[n, len(m.CLUSTERS)]
                    == block.inter_storage_content[n, 0],
                )
        else:
            for t in m.TIMEPOINTS:
                lb = cap * n.min_storage_level[t]
                ub = cap * n.max_storage_level[t]
                if n.initial_storage_level is not None and t == 0:
                    variable("C15", block.storage_content[n, t], lb=lb, ub=ub,
                             fix=n.initial_storage_level * cap)
                else:
                    variable("C15", block.storage_content[n, t], lb=lb, ub=ub)
            for t in m.TIMESTEPS:
                variable("C15", block.storage_losses[n, t])
                require(
                    "C15",
                    block.storage_losses[n, t]
                    == block.storage_content[n, t]
                    * (1 - (1 - n.loss_rate[t]) ** m.timeincrement[t])
                    + fixed_losses(m, n, cap, t),
                )
                require(
                    "C15",
                    block.storage_content[n, t + 1]
                    == block.storage_content[n, t]
                    - block.storage_losses[n, t]
                    + charged(m, n, t),
                )
                # charging slows down when the storage is nearly full
                if n.constant_soc_until is not None:
                    limit = n.max_charge_capacity * n.relative_charge_limit[t]
                    full = cap * n.max_storage_level[t]
                    level = block.storage_content[n, t + 1] / full
                    require(
                        "C15",
                        m.flow[first(n.inputs), n, t]
                        <= limit
                        - limit
                        * (1 - n.fraction_saturation_charging)
                        * (level - n.constant_soc_until)
                        / (1 - n.constant_soc_until),
                    )
            if n.balanced is True:
                require(
                    "C15",
                    block.storage_content[n, len(m.TIMESTEPS)]
                    == block.storage_content[n, 0],
                )
        tie_power(m, n)


def storage_objective(m, block, result):
    costs = 0
    fixed = 0
    for n in block.STORAGES:
        if n.storage_costs is not None:
            for t in m.TIMESTEPS:
                costs += block.storage_content[n, t + 1] * n.storage_costs[t]
        if n.fixed_costs is not None:
            fixed += sum(
                n.nominal_storage_capacity * n.fixed_costs[y]
                for y in range(m.es.end_year_of_optimization)
            )
    equal("C06", block.storage_costs.expr, costs, "storage costs")
    equal("C06", block.fixed_costs.expr, fixed, "fixed costs")
    equal("C06", result.expr, costs + fixed, "costs of the block")


# ------------------------------------------------------------- investment
def retired_in(m, lifetime, q, p):
    """capacity built in period q reaches its lifetime in period p"""
    return (
        q < p
        and m.es.periods_years[p] - m.es.periods_years[q] >= lifetime
        and m.es.periods_years[p - 1] - m.es.periods_years[q] < lifetime
    )


def old_end(m, block, nodes):
    for n in nodes:
        life = n.investment.lifetime
        for p in m.PERIODS:
            require(
                "C08",
                block.old_end[n, p]
                == sum(
                    block.invest[n, q]
                    for q in m.PERIODS
                    if retired_in(m, life, q, p)
                ),
            )


def capacities(m, block, n):
    multi = m.es.periods is not None
    inv = n.investment
    for p in m.PERIODS:
        if inv.nonconvex:
            variable("C16", block.invest[n, p], domain="NonNegativeReals",
                     lb=0, ub=inv.maximum[p])
            variable("C16", block.invest_status[n, p], domain="Binary")
            require(
                "C16",
                block.invest[n, p]
                <= inv.maximum[p] * block.invest_status[n, p],
            )
            require(
                "C16",
                block.invest[n, p]
                >= inv.minimum[p] * block.invest_status[n, p],
            )
        else:
            variable("C16", block.invest[n, p], domain="NonNegativeReals",
                     lb=inv.minimum[p], ub=inv.maximum[p])
        variable("C16", block.total[n, p], lb=0)
        if p == 0:
            require(
                "C16", block.total[n, p] == block.invest[n, p] + inv.existing
            )
        else:
            require(
                "C08",
                block.total[n, p]
                == block.total[n, p - 1] + block.invest[n, p] - block.old[n, p],
            )
        if multi:
            variable("C08", block.old[n, p], lb=0)
            variable("C08", block.old_end[n, p], lb=0)
            variable("C08", block.old_exo[n, p], lb=0)
            require(
                "C08",
                block.old[n, p] == block.old_end[n, p] + block.old_exo[n, p],
            )
            left = inv.lifetime - inv.age
            years = m.es.periods_years
            if (
                p > 0
                and left <= years[p]
                and not any(left <= years[q] for q in range(1, p))
            ):
                require("C08", block.old_exo[n, p] == inv.existing)
            else:
                require("C08", block.old_exo[n, p] == 0)
            if inv.overall_maximum is not None:
                require("C16", block.total[n, p] <= inv.overall_maximum)
        # power tied to the capacity
        if n.invest_relation_input_capacity is not None:
            require(
                "C16",
                m.InvestmentFlowBlock.total[first(n.inputs), n, p]
                == block.total[n, p] * n.invest_relation_input_capacity[p],
            )
        if n.invest_relation_output_capacity is not None:
            require(
                "C16",
                m.InvestmentFlowBlock.total[n, first(n.outputs), p]
                == block.total[n, p] * n.invest_relation_output_capacity[p],
            )
    if multi and inv.overall_minimum is not None:
        require(
            "C16",
            block.total[n, len(m.PERIODS) - 1] >= inv.overall_minimum,
        )


def invest_storage(m, block, group):
    multi = m.es.periods is not None
    for n in group:
        inv = n.investment
        capacities(m, block, n)
        tie_power(m, n)
        if m.TSAM_MODE:
            typical_periods(m, block, n, lambda p: block.total[n, p])
            for c in m.CLUSTERS_OFFSET:
                variable("C16", block.inter_storage_content[n, c],
                         domain="NonNegativeReals")
            start = block.inter_storage_content[n, 0]
        else:
            for t in m.TIMEPOINTS:
                variable("C16", block.storage_content[n, t],
                         domain="NonNegativeReals")
            start = block.storage_content[n, 0]
            for p, t in m.TIMEINDEX:
                require(
                    "C16",
                    block.storage_content[n, t + 1]
                    == block.storage_content[n, t]
                    * (1 - n.loss_rate[t]) ** m.timeincrement[t]
                    - fixed_losses(m, n, block.total[n, p], t)
                    + charged(m, n, t),
                )
            if multi:
                require("C16", start == 0)
                for p, t in m.TIMEINDEX:
                    within(m, block, n, p, t)
            else:
                for t in m.TIMEPOINTS:
                    within(m, block, n, 0, t)
                if n.balanced is True:
                    require(
                        "C16",
                        block.storage_content[n, len(m.TIMESTEPS)] == start,
                    )
        if not multi:
            if n.initial_storage_level is None:
                require("C16", start <= inv.existing + block.invest[n, 0])
            else:
                require(
                    "C16",
                    start
                    == n.initial_storage_level
                    * (inv.existing + block.invest[n, 0]),
                )
    if multi:
        old_end(m, block, group)


def within(m, block, n, p, t):
    require(
        "C16",
        block.storage_content[n, t] <= block.total[n, p] * n.max_storage_level[t],
    )
    if n.min_storage_level.max() > 0:
        require(
            "C16",
            block.storage_content[n, t]
            >= block.total[n, p] * n.min_storage_level[t],
        )


def spent(m, block, n, p):
    """annuities caused by the investment made in one period"""
    inv = n.investment
    duration = min(m.es.end_year_of_optimization - m.es.periods_years[p], inv.lifetime)
    cost = (
        block.invest[n, p]
        * annuity(inv.ep_costs[p], inv.lifetime, m.discount_rate)
        / annuity(1, duration, m.discount_rate)
    )
    if inv.nonconvex:
        cost += block.invest_status[n, p] * inv.offset[p]
    return cost


def invest_storage_objective(m, block, result):
    multi = m.es.periods is not None
    end = m.es.end_year_of_optimization
    years = m.es.periods_years if multi else None
    investment_costs = 0
    fixed_costs = 0
    storage_costs = 0
    for n in block.INVESTSTORAGES:
        inv = n.investment
        if n.storage_costs is not None:
            for t in m.TIMESTEPS:
                storage_costs += (
                    block.storage_content[n, t + 1] * n.storage_costs[t]
                )
        for p in m.PERIODS:
            invest = block.invest[n, p]
            if not multi:
                investment_costs += invest * inv.ep_costs[p]
                if inv.nonconvex:
                    investment_costs += (
                        block.invest_status[n, p] * inv.offset[p]
                    )
            else:
                rate = m.discount_rate
                duration = min(end - years[p], inv.lifetime)
                investment_costs += (
                    invest
                    * annuity(inv.ep_costs[p], inv.lifetime, rate)
                    / annuity(1, duration, rate)
                )
                if inv.nonconvex:
                    investment_costs += (
                        block.invest_status[n, p] * inv.offset[p]
                    )
                if m.es.use_remaining_value and end - years[p] < inv.lifetime:
                    left = inv.lifetime - (end - years[p])
                    investment_costs += (
                        invest
                        * (
                            annuity(inv.ep_costs[-1], left, rate)
                            - annuity(inv.ep_costs[p], left, rate)
                        )
                        / annuity(1, left, rate)
                    )
                    if inv.nonconvex:
                        investment_costs += block.invest_status[n, p] * (
                            inv.offset[-1] - inv.offset[p]
                        )
                if inv.fixed_costs is not None:
                    fixed_costs += sum(
                        invest * inv.fixed_costs[y]
                        for y in range(
                            years[p], min(end, years[p] + inv.lifetime)
                        )
                    )
        if multi and inv.fixed_costs is not None:
            fixed_costs += sum(
                inv.existing * inv.fixed_costs[y]
                for y in range(min(end, inv.lifetime - inv.age))
            )
    if multi:
        for p in m.PERIODS:
            equal("C17", block.period_investment_costs[p], sum(
                spent(m, block, n, p) for n in block.INVESTSTORAGES),
                "investment costs of a period")
    equal("C09", block.investment_costs.expr, investment_costs,
          "investment costs")
    equal("C09", block.fixed_costs.expr, fixed_costs, "fixed costs")
    equal("C06", block.storage_costs.expr, storage_costs, "storage costs")
    equal("C09", result.expr, investment_costs + fixed_costs + storage_costs,
          "costs of the block")
