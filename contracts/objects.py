"""Contracts of the constructors: what the objects know after creation.

`rejects(props, condition, what)`: the call raises an error if one of these
conditions holds and returns normally otherwise.  `at(x, t)` is the value at
step t of a parameter given as number or series, `steps(x)` the steps at which
it is given, `lowest(x)`/`highest(x)` its smallest/largest value, `is_series(x)`
whether it is a series, `number(x)`/`finite(x)` whether it is a (finite) number.
"""


def keeps(props, attribute, given, what):
    """the attribute has, element by element, the value given"""
    if given is None:
        holds(props, attribute is None, what + " stays unset")
    else:
        for t in steps(given):
            equal(props, attribute[t], at(given, t), what)
        if is_series(given):
            holds(props, len(attribute) == len(given), what + ": length")


def same(props, attribute, given, what):
    if given is None:
        holds(props, attribute is None, what + " stays unset")
    else:
        holds(props, attribute is given, what + " is the object given")


def default(given, value):
    if given is None:
        return value
    return given


# a constant that is given, in whichever way
def differs(given, value):
    """a parameter given as something other than its default value (an array
    with a single value, which compares like that value, is not considered)"""
    if given is None:
        return False
    if is_series(given):
        return True
    return given != value


def flow(f, nominal_capacity=None, nominal_value=None, min=None, max=None,
         variable_costs=0, minimum=None, maximum=None, fix=None,
         positive_gradient_limit=None, negative_gradient_limit=None,
         full_load_time_max=None, full_load_time_min=None, integer=False,
         bidirectional=False, nonconvex=None, lifetime=None, age=None,
         fixed_costs=None, custom_attributes=None, custom_properties=None):
    # deprecated names
    rejects("C20", nominal_value is not None and nominal_capacity is not None,
            "both names of the nominal capacity")
    rejects("C20", min is not None and minimum is not None, "both names of the minimum")
    rejects("C20", max is not None and maximum is not None, "both names of the maximum")
    rejects("C20", custom_attributes is not None and custom_properties is not None,
            "both names of the custom properties")
    capacity = nominal_capacity
    if nominal_value is not None:
        capacity = nominal_value
    if min is not None:
        minimum = min
    if max is not None:
        maximum = max
    if custom_attributes is not None:
        custom_properties = custom_attributes
    # the capacity is a finite number or an investment
    invest = is_a(capacity, "Investment")
    if capacity is not None and not invest:
        rejects("C20", not number(capacity), "nominal capacity is no number")
        rejects("C20", not finite(capacity), "infinite nominal capacity")
    rejects("C20", fix is not None and (differs(minimum, 0) or differs(maximum, 1)),
            "fixed flow with minimum or maximum")
    low = default(minimum, 0)
    negative = lowest(low) < 0
    if bidirectional and not is_series(low):
        if low == 0:
            low = -1
    if capacity is None:
        rejects("C20", fix is not None, "fix without capacity")
        rejects("C20", full_load_time_max is not None, "full load time without capacity")
        rejects("C20", full_load_time_min is not None, "full load time without capacity")
        rejects("C20", differs_somewhere(default(maximum, 1), 1), "maximum without capacity")
        if negative or bidirectional:
            rejects("C20", differs_somewhere(low, -1), "minimum without capacity")
        else:
            rejects("C20", differs_somewhere(low, 0), "minimum without capacity")
    if capacity is not None and not invest and maximum is not None:
        rejects("C20", not finite(highest(maximum)), "infinite maximum")
    if nonconvex is not None:
        if nonconvex.positive_gradient_limit is not None or \
                nonconvex.negative_gradient_limit is not None:
            rejects("C20", positive_gradient_limit is not None
                    or negative_gradient_limit is not None,
                    "gradients in flow and on/off options")
        if invest:
            rejects("C20", not finite(highest(capacity.maximum)),
                    "on/off investment without maximum")
    returned()
    # what is given is kept
    if invest:
        holds("C02 C07 C12 C20", f.nominal_capacity is None, "investment flows have no given capacity")
        holds("C02 C07 C09 C12 C20", f.investment is capacity, "the investment is kept")
    else:
        holds("C02 C07 C09 C20", f.investment is None, "no investment")
        if capacity is None:
            holds("C02 C20", f.nominal_capacity is None, "no capacity")
        else:
            equal("C02 C20", f.nominal_capacity, capacity, "nominal capacity")
    B = "C02 C07 C10 C12 C20"
    equal(B, f.bidirectional, negative or bidirectional, "bidirectional")
    keeps(B, f.fix, fix, "fix")
    keeps(B, f.maximum, default(maximum, 1), "maximum")
    keeps(B, f.minimum, low, "minimum")
    keeps("C06 C20", f.variable_costs, variable_costs, "variable costs")
    keeps("C06 C20", f.fixed_costs, fixed_costs, "fixed costs")
    keeps("C04 C20", f.positive_gradient_limit, positive_gradient_limit, "positive gradient limit")
    keeps("C04 C20", f.negative_gradient_limit, negative_gradient_limit, "negative gradient limit")
    same("C03 C20", f.full_load_time_max, full_load_time_max, "full load time maximum")
    same("C03 C20", f.full_load_time_min, full_load_time_min, "full load time minimum")
    same("C05 C20", f.integer, integer, "integer")
    same("C05 C20", f.lifetime, lifetime, "lifetime")
    same("C05 C20", f.age, age, "age")
    same("C10 C11 C12 C20", f.nonconvex, nonconvex, "on/off options")
    if custom_properties is not None:
        holds("C17 C18 C20", f.custom_properties is custom_properties, "custom properties")
    else:
        holds("C17 C18 C20", f.custom_properties is not None, "custom properties")


def investment(v, maximum=float("+inf"), minimum=0, ep_costs=0, existing=0,
               nonconvex=False, offset=0, overall_maximum=None,
               overall_minimum=None, lifetime=None, age=0, fixed_costs=None,
               custom_attributes=None, custom_properties=None):
    rejects("C20", custom_attributes is not None and custom_properties is not None,
            "both names of the custom properties")
    rejects("C20", nonconvex is not True and nonconvex is not False,
            "nonconvex is not of type bool")
    if nonconvex:
        rejects("C20", existing != 0, "non-convex investment with existing capacity")
        rejects("C20", not finite(highest(maximum)), "non-convex investment without maximum")
    else:
        rejects("C20", lowest(offset) != 0 or highest(offset) != 0,
                "offset of a convex investment")
    rejects("C20", lifetime is not None and age >= default(lifetime, age + 1),
            "age not smaller than lifetime")
    returned()
    L = "C07 C12 C16 C20"
    keeps(L, v.maximum, maximum, "maximum investment")
    keeps(L, v.minimum, minimum, "minimum investment")
    same(L, v.nonconvex, nonconvex, "non-convex investment")
    equal("C07 C08 C12 C16 C20", v.existing, existing, "existing capacity")
    same(L, v.overall_maximum, overall_maximum, "overall maximum")
    same(L, v.overall_minimum, overall_minimum, "overall minimum")
    keeps("C09 C20", v.ep_costs, ep_costs, "costs of investment")
    keeps("C09 C20", v.offset, offset, "offset of investment costs")
    keeps("C09 C20", v.fixed_costs, fixed_costs, "fixed costs of investment")
    same("C08 C09 C20", v.lifetime, lifetime, "lifetime")
    equal("C08 C09 C20", v.age, age, "age")
    if custom_attributes is None:
        same("C17 C20", v.custom_properties, custom_properties, "custom properties")
    else:
        same("C17 C20", v.custom_properties, custom_attributes, "custom properties")


def non_convex(n, initial_status=0, minimum_uptime=0, minimum_downtime=0,
               maximum_startups=None, maximum_shutdowns=None,
               startup_costs=None, shutdown_costs=None, activity_costs=None,
               inactivity_costs=None, negative_gradient_limit=None,
               positive_gradient_limit=None, custom_attributes=None,
               custom_properties=None):
    rejects("C20", custom_attributes is not None and custom_properties is not None,
            "both names of the custom properties")
    returned()
    equal("C10 C20", n.initial_status, initial_status, "initial status")
    keeps("C10 C20", n.minimum_uptime, minimum_uptime, "minimum uptime")
    keeps("C10 C20", n.minimum_downtime, minimum_downtime, "minimum downtime")
    same("C10 C20", n.maximum_startups, maximum_startups, "maximum number of start-ups")
    same("C10 C20", n.maximum_shutdowns, maximum_shutdowns, "maximum number of shut-downs")
    keeps("C11 C20", n.startup_costs, startup_costs, "start-up costs")
    keeps("C11 C20", n.shutdown_costs, shutdown_costs, "shut-down costs")
    keeps("C11 C20", n.activity_costs, activity_costs, "activity costs")
    keeps("C11 C20", n.inactivity_costs, inactivity_costs, "inactivity costs")
    keeps("C04 C20", n.positive_gradient_limit, positive_gradient_limit, "positive gradient limit")
    keeps("C04 C20", n.negative_gradient_limit, negative_gradient_limit, "negative gradient limit")
    # the first step whose status is not given by the initial status
    if initial_status == 0:
        equal("C10 C20", n.first_flexible_timestep, at(minimum_downtime, 0),
              "first flexible time step")
    else:
        equal("C10 C20", n.first_flexible_timestep, at(minimum_uptime, 0),
              "first flexible time step")


def bus(b, label=None, inputs=None, outputs=None, parent_node=None, balanced=True,
        custom_properties=None):
    returned()
    if balanced:
        holds("C01 C21", is_class(b.constraint_group(), "BusBlock"), "balanced by its block")
    else:
        holds("C01 C21", b.constraint_group() is None, "a bus that is not balanced")
    same("C01 C21", b.balanced, balanced, "balanced")
    if inputs is not None:
        for n in inputs:
            holds("C01 C20", b.inputs[n] is inputs[n], "input flow is the object given")
    if outputs is not None:
        for n in outputs:
            holds("C01 C20", b.outputs[n] is outputs[n], "output flow is the object given")
    noted("C17 C20", b, custom_properties)


def source(n, label=None, outputs=None, parent_node=None, custom_properties=None):
    returned()
    holds("C21", n.constraint_group() is None, "no block of its own")
    connected("C01 C20 C21", n.outputs, outputs, "output")
    noted("C17 C20", n, custom_properties)


def sink(n, label=None, inputs=None, parent_node=None, custom_properties=None):
    returned()
    holds("C21", n.constraint_group() is None, "no block of its own")
    connected("C01 C20 C21", n.inputs, inputs, "input")
    noted("C17 C20", n, custom_properties)


def connected(props, edges, given, what):
    """the flows are the ones given"""
    if given is None:
        holds(props, not edges, "no " + what)
    else:
        holds(props, len(edges) == len(given), "number of flows: " + what)
        for b in given:
            holds(props, b in edges, what + " is connected")
            if b in edges:
                holds(props, edges[b] is given[b], what + " flow is the object given")


def noted(props, node, custom_properties):
    if custom_properties is not None:
        holds(props, node.custom_properties is custom_properties, "custom properties")
    else:
        holds(props, node.custom_properties is not None, "custom properties")


def factors(props, attribute, given, buses, value, what):
    """the factor given for a bus, otherwise the default"""
    if given is not None:
        for b in given:
            entry(props, attribute, b, given[b], what)
    if buses is not None:
        for b in buses:
            if given is None:
                entry(props, attribute, b, value, what)
            elif b not in given:
                entry(props, attribute, b, value, what)


def entry(props, attribute, key, value, what):
    holds(props, key in attribute, what + " exists")
    if key in attribute:
        keeps(props, attribute[key], value, what)


def converter(c, label=None, inputs=None, outputs=None, parent_node=None,
              conversion_factors=None, custom_properties=None):
    returned()
    holds("C13 C21", is_class(c.constraint_group(), "ConverterBlock"), "its block")
    P = "C13 C20"
    connected(P, c.inputs, inputs, "input")
    connected(P, c.outputs, outputs, "output")
    noted("C17 C20", c, custom_properties)
    factors(P, c.conversion_factors, conversion_factors, inputs, 1,
            "conversion factor of an input")
    factors(P, c.conversion_factors, conversion_factors, outputs, 1,
            "conversion factor of an output")


def link(c, label=None, inputs=None, outputs=None, parent_node=None,
         conversion_factors=None, custom_properties=None):
    returned()
    holds("C13 C21", is_class(c.constraint_group(), "LinkBlock"), "its block")
    P = "C13 C20"
    connected(P, c.inputs, inputs, "input")
    connected(P, c.outputs, outputs, "output")
    noted("C17 C20", c, custom_properties)
    if conversion_factors is None:
        holds(P, not c.conversion_factors, "a link without connections")
    else:
        holds(P, len(c.conversion_factors) == len(conversion_factors),
              "number of connections of the link")
        for k in conversion_factors:
            entry(P, c.conversion_factors, k, conversion_factors[k],
                  "conversion factor of a link")


def offset_converter(c, inputs, outputs, parent_node=None, label=None,
                     conversion_factors=None, normed_offsets=None,
                     coefficients=None, custom_properties=None):
    P = "C13 C20"
    if coefficients is not None:
        rejects("C20", conversion_factors is not None or normed_offsets is not None,
                "deprecated and new factors")
        rejects("C20", len(coefficients) != 2, "not two coefficients")
    references = 0
    at_input = True
    for b in inputs:
        if inputs[b].nonconvex is not None:
            references = references + 1
    for b in outputs:
        if outputs[b].nonconvex is not None:
            references = references + 1
            at_input = False
    rejects("C20", references != 1, "not exactly one flow with on/off options")
    for b in inputs:
        if inputs[b].nonconvex is None:
            rejects("C20", inputs[b].investment is not None,
                    "investment in a flow without on/off options")
        else:
            rejects("C20", conversion_factors is not None and b in conversion_factors,
                    "slope for the reference")
            rejects("C20", normed_offsets is not None and b in normed_offsets,
                    "offset for the reference")
    for b in outputs:
        if outputs[b].nonconvex is None:
            rejects("C20", outputs[b].investment is not None,
                    "investment in a flow without on/off options")
        else:
            rejects("C20", conversion_factors is not None and b in conversion_factors,
                    "slope for the reference")
            rejects("C20", normed_offsets is not None and b in normed_offsets,
                    "offset for the reference")
    returned()
    holds("C13 C21", is_class(c.constraint_group(), "OffsetConverterBlock"), "its block")
    connected(P, c.inputs, inputs, "input")
    connected(P, c.outputs, outputs, "output")
    noted("C17 C20", c, custom_properties)
    holds("C13", c._reference_node_at_input == at_input, "side of the reference flow")
    for b in inputs:
        if inputs[b].nonconvex is not None:
            holds("C13", c._reference_node is b, "reference node")
    for b in outputs:
        if outputs[b].nonconvex is not None:
            holds("C13", c._reference_node is b, "reference node")
    if coefficients is None:
        factors(P, c.conversion_factors, conversion_factors, inputs, 1, "slope of an input")
        factors(P, c.conversion_factors, conversion_factors, outputs, 1, "slope of an output")
        factors(P, c.normed_offsets, normed_offsets, inputs, 0, "offset of an input")
        factors(P, c.normed_offsets, normed_offsets, outputs, 0, "offset of an output")
    else:
        # reference * slope = input - offset, deprecated the other way round
        for b in inputs:
            for t in range(shortest(coefficients[0], coefficients[1], *[
                    x for f in outputs.values() for x in (f.minimum, f.maximum)])):
                equal(P, c.conversion_factors[b][t] * at(coefficients[1], t), 1,
                      "slope of the deprecated coefficients")
                equal(P, c.normed_offsets[b][t] * at(coefficients[1], t),
                      -at(coefficients[0], t), "offset of the deprecated coefficients")


def slope_offset_input(r, max_load, min_load, eta_at_max, eta_at_min):
    """out = slope * in + offset * nominal hits both efficiencies"""
    returned()
    equal("C13", r[0] * max_load + r[1], max_load * eta_at_max, "output at maximum load")
    equal("C13", r[0] * min_load + r[1], min_load * eta_at_min, "output at minimum load")


def slope_offset_output(r, max_load, min_load, eta_at_max, eta_at_min):
    """in = slope * out + offset * nominal hits both efficiencies"""
    returned()
    equal("C13", (r[0] * max_load + r[1]) * eta_at_max, max_load, "input at maximum load")
    equal("C13", (r[0] * min_load + r[1]) * eta_at_min, min_load, "input at minimum load")


def old_coefficients(r, offset, slope, inputs, outputs):
    """slope and offset of the input, of in = slope * out + offset, deprecated"""
    returned()
    for b in inputs:
        for f in outputs.values():
            for t in range(shortest(offset, slope, f.minimum, f.maximum)):
                equal("C13", at(r[1][b], t) * at(slope, t), 1, "slope of the deprecated coefficients")
                equal("C13", at(r[0][b], t) * at(slope, t), -at(offset, t),
                      "offset of the deprecated coefficients")


def turbine(c, conversion_factor_full_condensation, label=None, inputs=None,
            outputs=None, parent_node=None, conversion_factors=None,
            custom_properties=None):
    returned()
    holds("C14 C21", is_class(c.constraint_group(), "ExtractionTurbineCHPBlock"), "its block")
    P = "C14 C20"
    connected(P, c.inputs, inputs, "input")
    connected(P, c.outputs, outputs, "output")
    noted("C17 C20", c, custom_properties)
    factors(P, c.conversion_factors, conversion_factors, inputs, 1,
            "conversion factor of the input")
    factors(P, c.conversion_factors, conversion_factors, outputs, 1,
            "conversion factor of an output")
    holds(P, len(c.conversion_factor_full_condensation)
          == len(conversion_factor_full_condensation), "number of condensation factors")
    for k in conversion_factor_full_condensation:
        entry(P, c.conversion_factor_full_condensation, k,
              conversion_factor_full_condensation[k], "efficiency at full condensation")


def alphas(r, p_min, eta_min, p_max, eta_max):
    """fuel = a0 + a1 * power hits both efficiencies, at every step"""
    for x in (eta_min, p_max, eta_max):
        rejects("C14", len(x) != len(p_min), "series of different length")
    returned()
    holds("C14", len(r) == 2, "two coefficients")
    for t in range(len(p_min)):
        equal("C14", (r[0][t] + r[1][t] * p_min[t]) * eta_min[t], p_min[t],
              "fuel at minimum power")
        equal("C14", (r[0][t] + r[1][t] * p_max[t]) * eta_max[t], p_max[t],
              "fuel at maximum power")


def generic_chp(c, fuel_input, electrical_output, heat_output, beta, back_pressure,
                parent_node=None, label=None, custom_properties=None):
    returned()
    holds("C14 C21", is_class(c.constraint_group(), "GenericCHPBlock"), "its block")
    P = "C14 C20"
    keeps(P, c.beta, beta, "power loss index")
    same(P, c.back_pressure, back_pressure, "back pressure")
    holds(P, c.fuel_input is fuel_input, "fuel input")
    holds(P, c.electrical_output is electrical_output, "electrical output")
    holds(P, c.heat_output is heat_output, "heat output")
    noted("C17 C20", c, custom_properties)
    for b in fuel_input:
        holds(P, b.outputs[c] is fuel_input[b], "fuel flow")
    for b in electrical_output:
        holds(P, c.outputs[b] is electrical_output[b], "electricity flow")
    for b in heat_output:
        holds(P, c.outputs[b] is heat_output[b], "heat flow")


def entry_is(props, attribute, key, value, what):
    holds(props, key in attribute, what + " exists")
    if key in attribute:
        same(props, attribute[key], value, what)


def generic_caes(c, label, electrical_input, fuel_input, electrical_output, params,
                 parent_node=None, custom_properties=None):
    returned()
    holds("C24 C21", is_class(c.constraint_group(), "GenericCAESBlock"), "its block")
    P = "C24 C20"
    for k in params:
        entry_is(P, c.params, k, params[k], "parameter")
    holds(P, c.electrical_input is electrical_input, "electrical input")
    holds(P, c.fuel_input is fuel_input, "fuel input")
    holds(P, c.electrical_output is electrical_output, "electrical output")
    noted("C17 C20", c, custom_properties)
    holds(P, len(c.inputs) == len(electrical_input) + len(fuel_input), "number of inputs")
    holds(P, len(c.outputs) == len(electrical_output), "number of outputs")
    for b in electrical_input:
        entry_is(P, c.inputs, b, electrical_input[b], "electricity flow in")
    for b in fuel_input:
        entry_is(P, c.inputs, b, fuel_input[b], "fuel flow")
    for b in electrical_output:
        entry_is(P, c.outputs, b, electrical_output[b], "electricity flow out")


def piecewise_converter(c, label, inputs, outputs, conversion_function, in_breakpoints,
                        pw_repn, parent_node=None, custom_properties=None):
    P = "C24 C20"
    rejects(P, len(inputs) > 1, "more than one input")
    rejects(P, len(outputs) > 1, "more than one output")
    for b in inputs:
        rejects(P, max(in_breakpoints) < inputs[b].nominal_capacity,
                "capacity beyond the last point of the function")
    returned()
    holds("C24 C21", is_class(c.constraint_group(), "PiecewiseLinearConverterBlock"), "its block")
    connected(P, c.inputs, inputs, "input")
    connected(P, c.outputs, outputs, "output")
    noted("C17 C20", c, custom_properties)
    same(P, c.conversion_function, conversion_function, "conversion function")
    same(P, c.pw_repn, pw_repn, "representation of the function")
    keeps(P, c.in_breakpoints, in_breakpoints, "points of the function")


def generic_storage(s, label=None, inputs=None, outputs=None, parent_node=None,
                    nominal_capacity=None, nominal_storage_capacity=None,
                    initial_storage_level=None, invest_relation_input_output=None,
                    invest_relation_input_capacity=None,
                    invest_relation_output_capacity=None, min_storage_level=0,
                    max_storage_level=1, balanced=True, loss_rate=0,
                    fixed_losses_relative=0, fixed_losses_absolute=0,
                    inflow_conversion_factor=1, outflow_conversion_factor=1,
                    constant_soc_until=None, fraction_saturation_charging=None,
                    fixed_costs=0, storage_costs=None, lifetime_inflow=None,
                    lifetime_outflow=None, custom_properties=None):
    P = "C15 C16 C20"
    rejects("C20", nominal_storage_capacity is not None and nominal_capacity is not None,
            "both names of the nominal capacity")
    capacity = nominal_capacity
    if nominal_storage_capacity is not None:
        capacity = nominal_storage_capacity
    if inputs is not None:
        rejects("C20", len(inputs) > 1, "more than one input")
    if outputs is not None:
        rejects("C20", len(outputs) > 1, "more than one output")
    invest = is_a(capacity, "Investment")
    if capacity is not None and not invest:
        rejects("C20", not number(capacity), "nominal capacity is no number")
    if initial_storage_level is not None:
        rejects("C20", initial_storage_level < at(min_storage_level, 0),
                "initial level below the minimum")
        rejects("C20", initial_storage_level > at(max_storage_level, 0),
                "initial level above the maximum")
    soc = constant_soc_until is not None or fraction_saturation_charging is not None
    if invest:
        rejects("C20", differs_somewhere(fixed_losses_absolute, 0) and capacity.existing == 0
                and lowest(capacity.minimum) == 0,
                "absolute losses of a storage that may not be built")
        rejects("C20", soc,
                "charging depending on the content of an investment storage")
    else:
        rejects("C20", invest_relation_input_capacity is not None
                or invest_relation_output_capacity is not None,
                "relation to the capacity of a storage of fixed size")
    rejects("C20", soc and not inputs, "charging depending on the content without input")
    to_input = invest_relation_input_capacity is not None \
        or invest_relation_input_output is not None
    to_output = invest_relation_output_capacity is not None \
        or invest_relation_input_output is not None
    rejects("C20", to_input and not inputs, "relation to a missing input")
    rejects("C20", to_output and not outputs, "relation to a missing output")
    if inputs is not None:
        for b in inputs:
            rejects("C20", to_input and inputs[b].investment is None,
                    "relation to an input of fixed size")
    if outputs is not None:
        for b in outputs:
            rejects("C20", to_output and outputs[b].investment is None,
                    "relation to an output of fixed size")
    rejects("C20", invest_relation_input_output is not None
            and invest_relation_input_capacity is not None
            and invest_relation_output_capacity is not None, "three relations")
    returned()
    if invest:
        holds("C16 C21", is_class(s.constraint_group(), "GenericInvestmentStorageBlock"),
              "block of an investment storage")
    else:
        holds("C15 C21", is_class(s.constraint_group(), "GenericStorageBlock"),
              "block of a storage of fixed size")
    if invest:
        holds(P, s.investment is capacity, "the investment is kept")
        holds(P, s.nominal_storage_capacity is None, "no given capacity")
    else:
        holds(P, s.investment is None, "no investment")
        same(P, s.nominal_storage_capacity, capacity, "nominal capacity")
    connected("C15 C16 C20", s.inputs, inputs, "input")
    connected("C15 C16 C20", s.outputs, outputs, "output")
    noted("C17 C20", s, custom_properties)
    same(P, s.initial_storage_level, initial_storage_level, "initial level")
    same(P, s.balanced, balanced, "balanced")
    keeps(P, s.invest_relation_input_output, invest_relation_input_output, "relation")
    keeps(P, s.invest_relation_input_capacity, invest_relation_input_capacity, "relation")
    keeps(P, s.invest_relation_output_capacity, invest_relation_output_capacity, "relation")
    keeps(P, s.min_storage_level, min_storage_level, "minimum level")
    keeps(P, s.max_storage_level, max_storage_level, "maximum level")
    keeps(P, s.loss_rate, loss_rate, "loss rate")
    keeps(P, s.fixed_losses_relative, fixed_losses_relative, "fixed relative losses")
    keeps(P, s.fixed_losses_absolute, fixed_losses_absolute, "fixed absolute losses")
    keeps(P, s.inflow_conversion_factor, inflow_conversion_factor, "inflow efficiency")
    keeps(P, s.outflow_conversion_factor, outflow_conversion_factor, "outflow efficiency")
    keeps("C06 C20", s.fixed_costs, fixed_costs, "fixed costs")
    keeps("C06 C20", s.storage_costs, storage_costs, "storage costs")
    same(P, s.lifetime_inflow, lifetime_inflow, "lifetime")
    same(P, s.lifetime_outflow, lifetime_outflow, "lifetime")
    same(P, s.constant_soc_until, constant_soc_until, "limit of constant charging")
    same(P, s.fraction_saturation_charging, fraction_saturation_charging, "saturation charging")
    if soc and inputs is not None:
        for b in inputs:
            same(P, s.max_charge_capacity, inputs[b].nominal_capacity, "charging capacity")
            keeps(P, s.relative_charge_limit, inputs[b].maximum, "limit of charging")


def differs_somewhere(x, value):
    return lowest(x) != value or highest(x) != value
