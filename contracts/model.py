"""Contracts of Model._add_parent_block_variables (oemof.solph._models)."""


def post_flow_variable(m, block, group):
    # one variable per flow and time step, bounded as the Flow object says
    for i, o in m.flows:
        f = m.flows[i, o]
        for t in m.TIMESTEPS:
            if f.nominal_capacity is None:
                # capacity decided elsewhere: only the direction is known
                if f.bidirectional:
                    variable("C02", m.flow[i, o, t], lb=None, ub=None)
                else:
                    variable("C02", m.flow[i, o, t], lb=0, ub=None)
            elif f.fix is not None:
                variable(
                    "C02",
                    m.flow[i, o, t],
                    fix=f.fix[t] * f.nominal_capacity,
                )
            elif f.nonconvex is None:
                variable(
                    "C02",
                    m.flow[i, o, t],
                    lb=f.minimum[t] * f.nominal_capacity,
                    ub=f.maximum[t] * f.nominal_capacity,
                )
            elif f.bidirectional:
                variable(
                    "C02",
                    m.flow[i, o, t],
                    lb=None,
                    ub=f.maximum[t] * f.nominal_capacity,
                )
            else:
                # may be off: the minimum binds through the status
                variable(
                    "C02",
                    m.flow[i, o, t],
                    lb=0,
                    ub=f.maximum[t] * f.nominal_capacity,
                )
