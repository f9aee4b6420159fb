"""Contracts of oemof.solph.constraints: what each function adds to a model.

`at(x, t)` is the value at step t of a parameter given as number or series.
"""


def chosen(m, keyword, flows):
    """flows the limit applies to"""
    if flows is not None:
        return [(i, o) for i, o in flows]
    return [(i, o) for i, o in m.flows
            if keyword in m.flows[i, o].custom_properties]


# ------------------------------------------------------------------- C17
def integral_limit(m, keyword, flows, upper_limit, lower_limit, limit_name, result):
    total = sum(
        m.flow[i, o, t]
        * m.timeincrement[t]
        * m.tsam_weighting[t]
        * at(m.flows[i, o].custom_properties[keyword], t)
        for i, o in chosen(m, keyword, flows)
        for t in m.TIMESTEPS
    )
    name = "integral_limit_" + keyword if limit_name is None else limit_name
    equal("C17", getattr(m, name).expr, total, "total of the limit")
    if upper_limit is not None:
        require("C17", total <= upper_limit)
    if lower_limit is not None:
        require("C17", total >= lower_limit)
    holds("C17", result is m, "the model is returned")


def emission_limit(m, flows, limit, result):
    integral_limit(m, "emission_factor", flows, limit, None, None, m)


def periodical_integral_limit(m, keyword, flows, limit, result):
    for p in m.PERIODS:
        require("C17", sum(
            m.flow[i, o, t]
            * m.timeincrement[t]
            * m.tsam_weighting[t]
            * at(m.flows[i, o].custom_properties[keyword], t)
            for i, o in chosen(m, keyword, flows)
            for t in m.TIMESTEPS_IN_PERIOD[p]
        ) <= at(limit, p))


def periodical_integral_limits(m, keyword, limit, keyword2, limit2, result):
    periodical_integral_limit(m, keyword, None, limit, result)
    periodical_integral_limit(m, keyword2, None, limit2, result)


def emission_limit_per_period(m, flows, limit, result):
    periodical_integral_limit(m, "emission_factor", flows, limit, result)


def cost(m, block):
    """what the block says its investments cost (its own contract); a block
    without objects has no costs and may be absent"""
    if has(m, block):
        if has(getattr(m, block), "investment_costs"):
            return getattr(m, block).investment_costs
    return 0


def investment_limit(m, limit, result):
    require("C17", cost(m, "InvestmentFlowBlock")
            + cost(m, "InvestNonConvexFlowBlock")
            + cost(m, "GenericInvestmentStorageBlock")
            + cost(m, "SinkDSMOemofInvestmentBlock")
            + cost(m, "SinkDSMDIWInvestmentBlock")
            + cost(m, "SinkDSMDLRInvestmentBlock") <= limit)
    holds("C17", result is m, "the model is returned")


def period_cost(m, block, p):
    if has(m, block):
        if has(getattr(m, block), "period_investment_costs"):
            return getattr(m, block).period_investment_costs[p]
    return 0


def investment_limit_per_period(m, limit, result):
    for p in m.PERIODS:
        require("C17", period_cost(m, "InvestmentFlowBlock", p)
                + period_cost(m, "InvestNonConvexFlowBlock", p)
                + period_cost(m, "GenericInvestmentStorageBlock", p)
                + period_cost(m, "SinkDSMOemofInvestmentBlock", p)
                + period_cost(m, "SinkDSMDIWInvestmentBlock", p)
                + period_cost(m, "SinkDSMDLRInvestmentBlock", p) <= at(limit, p))
    holds("C17", result is m, "the model is returned")


def additional_investment_flow_limit(m, keyword, limit, result):
    total = 0
    for i, o in m.flows:
        inv = m.flows[i, o].investment
        if inv is not None:
            if inv.custom_properties is not None:
                if keyword in inv.custom_properties:
                    for p in m.PERIODS:
                        if m.flows[i, o].nonconvex is None:
                            v = m.InvestmentFlowBlock.invest[i, o, p]
                        else:
                            v = m.InvestNonConvexFlowBlock.invest[i, o, p]
                        total += v * inv.custom_properties[keyword]
    equal("C17", getattr(m, "invest_limit_" + keyword).expr, total, "total of the limit")
    require("C17", total <= limit)
    holds("C17", result is m, "the model is returned")


# ------------------------------------------------------------------- C18
def equate_variables(m, var1, var2, factor1, result):
    require("C18", var1 * factor1 == var2)


def equate_flows(m, flows1, flows2, factor1, result):
    for t in m.TIMESTEPS:
        require("C18", factor1 * sum(m.flow[i, o, t] for i, o in flows1)
                == sum(m.flow[i, o, t] for i, o in flows2))
    holds("C18", result is m, "the model is returned")


def equate_flows_by_keyword(m, keyword1, keyword2, factor1, result):
    equate_flows(m, chosen(m, keyword1, None), chosen(m, keyword2, None), factor1, result)


def limit_active_flow_count(m, name, flows, lower_limit, upper_limit, result):
    for t in m.TIMESTEPS:
        n = getattr(m, name)[t]
        variable("C18", n, lb=lower_limit, ub=upper_limit)
        require("C18", sum(m.NonConvexFlowBlock.status[i, o, t] for i, o in flows) == n)
    holds("C18", result is m, "the model is returned")


def limit_active_flow_count_by_keyword(m, keyword, lower_limit, upper_limit, result):
    limit_active_flow_count(
        m, keyword,
        [(i, o) for i, o in chosen(m, keyword, None)
         if m.flows[i, o].nonconvex is not None and m.flows[i, o].investment is None],
        lower_limit, upper_limit, result)


def shared_limit(m, quantity, name, components, weights, lower_limit, upper_limit, result):
    for t in m.TIMESTEPS:
        v = getattr(m, name)[t]
        variable("C18", v, lb=lower_limit, ub=upper_limit)
        require("C18", sum(w * quantity[c, t] for c, w in zip(components, weights)) == v)


def storage_level(m, name, storage, bus, input_levels, output_levels, result):
    content = m.GenericStorageBlock.storage_content
    size = storage.nominal_storage_capacity
    for t in m.TIMESTEPS:
        # an output is used only if the content after the step reaches its level
        for o in output_levels:
            on = getattr(m, name + "_active_output")[o, t]
            variable("C18", on, domain="Binary")
            require("C18", content[storage, t + 1] / size >= output_levels[o] * on)
            require("C18", m.flow[bus, o, t] / m.flows[bus, o].nominal_capacity <= on)
        # an input only if the content before the step does not exceed it
        for i in input_levels:
            off = getattr(m, name + "_active_input")[i, t]
            variable("C18", off, domain="Binary")
            require("C18", content[storage, t] / size - input_levels[i] <= off)
            require("C18", m.flow[i, bus, t] / m.flows[i, bus].nominal_capacity <= 1 - off)
