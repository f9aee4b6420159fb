"""Contract of InvestmentFlowBlock (oemof.solph.flows._investment_flow_block)."""


def retired_in(m, lifetime, q, p):
    """capacity built in period q reaches its lifetime in period p"""
    return (
        q < p
        and m.es.periods_years[p] - m.es.periods_years[q] >= lifetime
        and m.es.periods_years[p - 1] - m.es.periods_years[q] < lifetime
    )


def old_end(m, block, flows):
    """what has been built is removed in the first period that starts at
    least `lifetime` years after the period it was built in"""
    for i, o, f in flows:
        life = f.investment.lifetime
        for p in m.PERIODS:
            require(
                "C08",
                block.old_end[i, o, p]
                == sum(
                    block.invest[i, o, q]
                    for q in m.PERIODS
                    if retired_in(m, life, q, p)
                ),
            )


def post(m, block, group):
    multi = m.es.periods is not None
    for i, o, f in group:
        inv = f.investment
        for p in m.PERIODS:
            # --- what may be built
            if inv.nonconvex:
                variable("C07", block.invest[i, o, p], lb=0, ub=inv.maximum[p])
                variable("C07", block.invest_status[i, o, p], domain="Binary")
                require(
                    "C07",
                    inv.minimum[p] * block.invest_status[i, o, p]
                    <= block.invest[i, o, p],
                )
                require(
                    "C07",
                    block.invest[i, o, p]
                    <= inv.maximum[p] * block.invest_status[i, o, p],
                )
            else:
                variable(
                    "C07",
                    block.invest[i, o, p],
                    domain="NonNegativeReals",
                    lb=inv.minimum[p],
                    ub=inv.maximum[p],
                )
            # --- installed capacity
            variable("C07", block.total[i, o, p], lb=0)
            if p == 0:
                require(
                    "C07",
                    block.total[i, o, p]
                    == block.invest[i, o, p] + inv.existing,
                )
            else:
                require(
                    "C08",
                    block.total[i, o, p]
                    == block.total[i, o, p - 1]
                    + block.invest[i, o, p]
                    - block.old[i, o, p],
                )
            if multi:
                variable("C08", block.old[i, o, p], lb=0)
                variable("C08", block.old_end[i, o, p], lb=0)
                variable("C08", block.old_exo[i, o, p], lb=0)
                require(
                    "C08",
                    block.old[i, o, p]
                    == block.old_end[i, o, p] + block.old_exo[i, o, p],
                )
                # existing capacity is removed once, in the first period
                # after the start in which it has reached its lifetime
                left = inv.lifetime - inv.age
                years = m.es.periods_years
                if (
                    p > 0
                    and left <= years[p]
                    and not any(left <= years[q] for q in range(1, p))
                ):
                    require("C08", block.old_exo[i, o, p] == inv.existing)
                else:
                    require("C08", block.old_exo[i, o, p] == 0)
                if inv.overall_maximum is not None:
                    require(
                        "C07", block.total[i, o, p] <= inv.overall_maximum
                    )
        if multi and inv.overall_minimum is not None:
            require(
                "C07",
                block.total[i, o, len(m.PERIODS) - 1] >= inv.overall_minimum,
            )

        # --- the flow follows the installed capacity
        for p, t in m.TIMEINDEX:
            if f.fix is not None:
                require(
                    "C07",
                    m.flow[i, o, t] == block.total[i, o, p] * f.fix[t],
                )
            else:
                require(
                    "C07",
                    m.flow[i, o, t] <= block.total[i, o, p] * f.maximum[t],
                )
            if f.minimum.min() != 0 or f.minimum.max() != 0:
                require(
                    "C07",
                    m.flow[i, o, t] >= block.total[i, o, p] * f.minimum[t],
                )
        energy = sum(
            m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
            for t in m.TIMESTEPS
        )
        capacity = sum(block.total[i, o, p] for p in m.PERIODS)
        if f.full_load_time_max is not None:
            require("C03", energy <= f.full_load_time_max * capacity)
        if f.full_load_time_min is not None:
            require("C03", energy >= f.full_load_time_min * capacity)
    if multi:
        old_end(m, block, group)


def spent(m, block, i, o, p):
    """annuities caused by the investment made in one period"""
    inv = m.flows[i, o].investment
    duration = min(m.es.end_year_of_optimization - m.es.periods_years[p], inv.lifetime)
    cost = (
        block.invest[i, o, p]
        * annuity(inv.ep_costs[p], inv.lifetime, 0.05)
        / annuity(1, duration, 0.05)
    )
    if inv.nonconvex:
        cost += block.invest_status[i, o, p] * annuity(
            inv.offset[p], inv.lifetime, 0.05
        )
    return cost


def post_objective(m, block, result):
    years = m.es.periods_years if m.es.periods is not None else None
    end = m.es.end_year_of_optimization
    interest = 0.05
    investment_costs = 0
    fixed_costs = 0
    for i, o in m.flows:
        inv = m.flows[i, o].investment
        if inv is not None and m.flows[i, o].nonconvex is None:
            for p in m.PERIODS:
                invest = block.invest[i, o, p]
                if m.es.periods is None:
                    # equivalent periodical costs
                    investment_costs += invest * inv.ep_costs[p]
                    if inv.nonconvex:
                        investment_costs += (
                            block.invest_status[i, o, p] * inv.offset[p]
                        )
                else:
                    # annuities paid within the horizon, as a present value
                    duration = min(end - years[p], inv.lifetime)
                    investment_costs += (
                        invest
                        * annuity(inv.ep_costs[p], inv.lifetime, interest)
                        / annuity(1, duration, interest)
                    )
                    if inv.nonconvex:
                        investment_costs += block.invest_status[
                            i, o, p
                        ] * annuity(inv.offset[p], inv.lifetime, interest)
                    if m.es.use_remaining_value and end - years[p] < inv.lifetime:
                        left = inv.lifetime - (end - years[p])
                        investment_costs += (
                            invest
                            * (
                                annuity(inv.ep_costs[-1], left, interest)
                                - annuity(inv.ep_costs[p], left, interest)
                            )
                            / annuity(1, left, interest)
                        )
                        if inv.nonconvex:
                            investment_costs += block.invest_status[i, o, p] * (
                                inv.offset[-1] - inv.offset[p]
                            )
                    if inv.fixed_costs is not None:
                        fixed_costs += sum(
                            invest * inv.fixed_costs[y]
                            for y in range(
                                years[p], min(end, years[p] + inv.lifetime)
                            )
                        )
            if m.es.periods is not None and inv.fixed_costs is not None:
                fixed_costs += sum(
                    inv.existing * inv.fixed_costs[y]
                    for y in range(min(end, inv.lifetime - inv.age))
                )
    if m.es.periods is not None:
        for p in m.PERIODS:
            equal("C17", block.period_investment_costs[p], sum(
                spent(m, block, i, o, p) for i, o in m.flows
                if m.flows[i, o].investment is not None
                and m.flows[i, o].nonconvex is None), "investment costs of a period")
    equal("C09", block.investment_costs.expr, investment_costs,
          "investment costs")
    equal("C09", block.fixed_costs.expr, fixed_costs, "fixed costs")
    equal("C09", result.expr, investment_costs + fixed_costs,
          "costs of the block")
