"""Contract of BusBlock._create (oemof.solph.buses._bus)."""


def post(m, block, group):
    # what flows into a balanced bus leaves it in the same time step
    for n in group:
        for t in m.TIMESTEPS:
            require(
                "C01",
                sum(m.flow[i, n, t] for i in n.inputs)
                == sum(m.flow[n, o, t] for o in n.outputs),
            )
