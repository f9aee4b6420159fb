"""Contracts of NonConvexFlowBlock and InvestNonConvexFlowBlock
(oemof.solph.flows._non_convex_flow_block, _invest_non_convex_flow_block,
_shared)."""


def capacity(block, i, o, f, p):
    """given or invested capacity"""
    if f.investment is None:
        return f.nominal_capacity
    return block.invest[i, o, p]


def status_rules(m, block, group):
    """what the status means for switching, common to both blocks"""
    for i, o, f in group:
        nc = f.nonconvex
        starts = nc.startup_costs is not None or nc.maximum_startups is not None
        stops = (
            nc.shutdown_costs is not None or nc.maximum_shutdowns is not None
        )
        for t in m.TIMESTEPS:
            on = block.status[i, o, t]
            before = block.status[i, o, t - 1] if t > 0 else nc.initial_status
            # indicators are at least the rise/fall of the status
            if starts:
                variable("C10", block.startup[i, o, t], domain="Binary")
                require("C10", block.startup[i, o, t] >= on - before)
            if stops:
                variable("C10", block.shutdown[i, o, t], domain="Binary")
                require("C10", block.shutdown[i, o, t] >= before - on)
            # minimum up and down time after a switch; the last step has
            # no successor
            if (
                nc.first_flexible_timestep <= t
                and t < len(m.TIMESTEPS) - 1
            ):
                if nc.minimum_uptime.max() > 0:
                    up = nc.minimum_uptime[t]
                    require(
                        "C10",
                        (on - before) * up
                        <= sum(
                            block.status[i, o, u]
                            for u in range(t, min(t + up, len(m.TIMESTEPS)))
                        ),
                    )
                if nc.minimum_downtime.max() > 0:
                    down = nc.minimum_downtime[t]
                    require(
                        "C10",
                        (before - on) * down
                        <= down
                        - sum(
                            block.status[i, o, d]
                            for d in range(t, min(t + down, len(m.TIMESTEPS)))
                        ),
                    )
        # change between two consecutive steps, relative to the capacity
        if nc.positive_gradient_limit is not None:
            for p, t in m.TIMEINDEX:
                rise = block.positive_gradient[i, o, t]
                variable("C04", rise, lb=0)
                require("C04", rise <= nc.positive_gradient_limit[t]
                        * capacity(block, i, o, f, p))
                if t > 0:
                    require("C04", m.flow[i, o, t] - m.flow[i, o, t - 1] <= rise)
                else:
                    require("C04", rise == 0)
        if nc.negative_gradient_limit is not None:
            for p, t in m.TIMEINDEX:
                fall = block.negative_gradient[i, o, t]
                variable("C04", fall, lb=0)
                require("C04", fall <= nc.negative_gradient_limit[t]
                        * capacity(block, i, o, f, p))
                if t > 0:
                    require("C04", m.flow[i, o, t - 1] - m.flow[i, o, t] <= fall)
                else:
                    require("C04", fall == 0)
        if nc.maximum_startups is not None:
            require(
                "C10",
                sum(block.startup[i, o, t] for t in m.TIMESTEPS)
                <= nc.maximum_startups,
            )
        if nc.maximum_shutdowns is not None:
            require(
                "C10",
                sum(block.shutdown[i, o, t] for t in m.TIMESTEPS)
                <= nc.maximum_shutdowns,
            )


def post(m, block, group):
    for i, o, f in group:
        nc = f.nonconvex
        for t in m.TIMESTEPS:
            if t < nc.first_flexible_timestep:
                # keeps the initial status
                variable(
                    "C10",
                    block.status[i, o, t],
                    domain="Binary",
                    fix=nc.initial_status,
                )
            else:
                variable("C10", block.status[i, o, t], domain="Binary")
            # capacity that may be used: zero if off
            variable("C10", block.status_nominal[i, o, t], lb=0)
            require(
                "C10",
                block.status_nominal[i, o, t]
                == block.status[i, o, t] * f.nominal_capacity,
            )
            require(
                "C10",
                f.minimum[t] * block.status_nominal[i, o, t]
                <= m.flow[i, o, t],
            )
            require(
                "C10",
                m.flow[i, o, t]
                <= f.maximum[t] * block.status_nominal[i, o, t],
            )
    status_rules(m, block, group)


def status_costs(m, block, wanted):
    """{kind of costs: expression}"""
    startup = 0
    shutdown = 0
    active = 0
    inactive = 0
    for i, o in m.flows:
        f = m.flows[i, o]
        if f.nonconvex is not None:
            if (f.investment is not None) == wanted:
                nc = f.nonconvex
                for t in m.TIMESTEPS:
                    w = m.tsam_weighting[t]
                    on = block.status[i, o, t]
                    if nc.startup_costs is not None:
                        startup += (
                            block.startup[i, o, t] * nc.startup_costs[t] * w
                        )
                    if nc.shutdown_costs is not None:
                        shutdown += (
                            block.shutdown[i, o, t] * nc.shutdown_costs[t] * w
                        )
                    if nc.activity_costs is not None:
                        active += on * nc.activity_costs[t] * w
                    if nc.inactivity_costs is not None:
                        inactive += (1 - on) * nc.inactivity_costs[t] * w
    return startup, shutdown, active, inactive


def post_objective(m, block, result):
    startup, shutdown, active, inactive = status_costs(m, block, False)
    equal("C11", block.startup_costs.expr, startup, "start-up costs")
    equal("C11", block.shutdown_costs.expr, shutdown, "shut-down costs")
    equal("C11", block.activity_costs.expr, active, "activity costs")
    equal("C11", block.inactivity_costs.expr, inactive, "inactivity costs")
    equal("C11", result.expr, startup + shutdown + active + inactive,
          "costs of the block")


def post_invest(m, block, group):
    for i, o, f in group:
        inv = f.investment
        for p in m.PERIODS:
            if inv.nonconvex:
                variable("C12", block.invest[i, o, p], lb=0, ub=inv.maximum[p])
                variable("C12", block.invest_status[i, o, p], domain="Binary")
                require(
                    "C12",
                    inv.minimum[p] * block.invest_status[i, o, p]
                    <= block.invest[i, o, p],
                )
                require(
                    "C12",
                    block.invest[i, o, p]
                    <= inv.maximum[p] * block.invest_status[i, o, p],
                )
            else:
                variable(
                    "C12",
                    block.invest[i, o, p],
                    domain="NonNegativeReals",
                    lb=inv.minimum[p],
                    ub=inv.maximum[p],
                )
        for p, t in m.TIMEINDEX:
            variable("C12", block.status[i, o, t], domain="Binary")
            # status_nominal == status * invest (for binary status and
            # 0 <= invest <= maximum)
            variable("C12", block.status_nominal[i, o, t], lb=0)
            require(
                "C12",
                block.status_nominal[i, o, t]
                <= inv.maximum[p] * block.status[i, o, t],
            )
            require(
                "C12",
                block.status_nominal[i, o, t] <= block.invest[i, o, p],
            )
            require(
                "C12",
                block.status_nominal[i, o, t]
                >= block.invest[i, o, p]
                - inv.maximum[p] * (1 - block.status[i, o, t]),
            )
            require(
                "C12",
                f.minimum[t] * block.status_nominal[i, o, t]
                <= m.flow[i, o, t],
            )
            require(
                "C12",
                m.flow[i, o, t]
                <= f.maximum[t] * block.status_nominal[i, o, t],
            )
    status_rules(m, block, group)


def spent(m, block, i, o, p):
    inv = m.flows[i, o].investment
    cost = block.invest[i, o, p] * inv.ep_costs[p]
    if inv.nonconvex:
        cost += block.invest_status[i, o, p] * inv.offset[p]
    return cost


def post_invest_objective(m, block, result):
    startup, shutdown, active, inactive = status_costs(m, block, True)
    investment_costs = 0
    for i, o in m.flows:
        f = m.flows[i, o]
        if f.nonconvex is not None and f.investment is not None:
            inv = f.investment
            for p in m.PERIODS:
                investment_costs += block.invest[i, o, p] * inv.ep_costs[p]
                if inv.nonconvex:
                    investment_costs += (
                        block.invest_status[i, o, p] * inv.offset[p]
                    )
    for p in m.PERIODS:
        equal("C17", block.period_investment_costs[p], sum(
            spent(m, block, i, o, p) for i, o in m.flows
            if m.flows[i, o].nonconvex is not None
            and m.flows[i, o].investment is not None), "investment costs of a period")
    equal("C09", block.investment_costs.expr, investment_costs,
          "investment costs")
    equal("C11", result, startup + shutdown + active + inactive
          + investment_costs, "costs of the block")
