"""Contracts of ConverterBlock, LinkBlock and OffsetConverterBlock
(oemof.solph.components)."""


def converter(m, block, group):
    for n in group:
        for i in n.inputs:
            for o in n.outputs:
                for t in m.TIMESTEPS:
                    # input / its factor == output / its factor
                    require(
                        "C13",
                        m.flow[i, n, t] * n.conversion_factors[o][t]
                        == m.flow[n, o, t] * n.conversion_factors[i][t],
                    )


def link(m, block, group):
    for n in group:
        for (i, o), c in n.conversion_factors.items():
            for t in m.TIMESTEPS:
                require(
                    "C13", m.flow[n, o, t] == c[t] * m.flow[i, n, t]
                )


def offset_converter(m, block, group):
    for n in group:
        r = n._reference_node
        for t in m.TIMESTEPS:
            if n._reference_node_at_input:
                f = n.inputs[r]
                ref = m.flow[r, n, t]
                if f.investment is not None:
                    nominal = m.InvestNonConvexFlowBlock.status_nominal[r, n, t]
                else:
                    nominal = m.NonConvexFlowBlock.status_nominal[r, n, t]
            else:
                f = n.outputs[r]
                ref = m.flow[n, r, t]
                if f.investment is not None:
                    nominal = m.InvestNonConvexFlowBlock.status_nominal[n, r, t]
                else:
                    nominal = m.NonConvexFlowBlock.status_nominal[n, r, t]
            for i in n.inputs:
                if i != r:
                    require(
                        "C13",
                        m.flow[i, n, t]
                        == n.conversion_factors[i][t] * ref
                        + n.normed_offsets[i][t] * nominal,
                    )
            for o in n.outputs:
                if o != r:
                    require(
                        "C13",
                        m.flow[n, o, t]
                        == n.conversion_factors[o][t] * ref
                        + n.normed_offsets[o][t] * nominal,
                    )
