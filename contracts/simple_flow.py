"""Contract of SimpleFlowBlock (oemof.solph.flows._simple_flow_block)."""


def post(m, block, group):
    for i, o, f in group:
        # --- full load time: hours at nominal power, summed over the horizon
        if f.nominal_capacity is not None:
            energy = sum(
                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
                for t in m.TIMESTEPS
            )
            if f.full_load_time_max is not None:
                require("C03", energy <= f.full_load_time_max * f.nominal_capacity)
            if f.full_load_time_min is not None:
                require("C03", energy >= f.full_load_time_min * f.nominal_capacity)

        # --- gradients: change between two consecutive steps
        if f.positive_gradient_limit is not None:
            for t in m.TIMESTEPS:
                variable(
                    "C04",
                    block.positive_gradient[i, o, t],
                    lb=0,
                    ub=f.positive_gradient_limit[t] * f.nominal_capacity,
                )
                if t > 0:
                    require(
                        "C04",
                        m.flow[i, o, t] - m.flow[i, o, t - 1]
                        <= block.positive_gradient[i, o, t],
                    )
                else:
                    require("C04", block.positive_gradient[i, o, t] == 0)
        if f.negative_gradient_limit is not None:
            for t in m.TIMESTEPS:
                variable(
                    "C04",
                    block.negative_gradient[i, o, t],
                    lb=0,
                    ub=f.negative_gradient_limit[t] * f.nominal_capacity,
                )
                if t > 0:
                    require(
                        "C04",
                        m.flow[i, o, t - 1] - m.flow[i, o, t]
                        <= block.negative_gradient[i, o, t],
                    )
                else:
                    require("C04", block.negative_gradient[i, o, t] == 0)

        # --- integer flows
        if f.integer:
            for t in m.TIMESTEPS:
                variable("C05", block.integer_flow[i, o, t],
                         domain="NonNegativeIntegers")
                require("C05", block.integer_flow[i, o, t] == m.flow[i, o, t])

        # --- end of life (multi-period only)
        if m.es.periods is not None and f.lifetime is not None:
            age = 0 if f.age is None else f.age
            for p, t in m.TIMEINDEX:
                if f.lifetime - age <= m.es.periods_years[p]:
                    require("C05", m.flow[i, o, t] == 0)


def post_objective(m, block, result):
    variable_costs = 0
    fixed_costs = 0
    for i, o in m.flows:
        f = m.flows[i, o]
        if f.variable_costs is not None:
            for p, t in m.TIMEINDEX:
                cost = (
                    m.flow[i, o, t]
                    * f.variable_costs[t]
                    * m.objective_weighting[t]
                    * m.tsam_weighting[t]
                )
                if m.es.periods is not None:
                    cost = cost * (1 + m.discount_rate) ** (
                        -m.es.periods_years[p]
                    )
                variable_costs += cost
        if (
            m.es.periods is not None
            and f.fixed_costs is not None
            and f.nominal_capacity is not None
        ):
            years = m.es.end_year_of_optimization
            if f.lifetime is not None:
                age = 0 if f.age is None else f.age
                years = min(years, f.lifetime - age)
            fixed_costs += sum(
                f.nominal_capacity * f.fixed_costs[y] for y in range(years)
            )
    equal("C06", block.variable_costs.expr, variable_costs, "variable costs")
    equal("C06", block.fixed_costs.expr, fixed_costs, "fixed costs")
    equal("C06", result.expr, variable_costs + fixed_costs, "costs of the block")
