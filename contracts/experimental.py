"""Contracts of GenericCAESBlock and PiecewiseLinearConverterBlock
(oemof.solph.components.experimental)."""


def caes(m, block, group):
    for n in group:
        par = n.params
        for source in n.electrical_input:
            for fuel in n.fuel_input:
                for sink in n.electrical_output:
                    for t in m.TIMESTEPS:
                        for v in (
                            block.cmp_p[n, t],
                            block.cmp_p_max[n, t],
                            block.cmp_q_out_sum[n, t],
                            block.cmp_q_waste[n, t],
                            block.exp_p[n, t],
                            block.exp_p_max[n, t],
                            block.exp_q_in_sum[n, t],
                            block.exp_q_fuel_in[n, t],
                            block.exp_q_add_in[n, t],
                            block.cav_level[n, t],
                            block.cav_e_in[n, t],
                            block.cav_e_out[n, t],
                            block.tes_level[n, t],
                            block.tes_e_in[n, t],
                            block.tes_e_out[n, t],
                            block.exp_p_spot[n, t],
                            block.cmp_p_spot[n, t],
                        ):
                            variable("C24", v, domain="NonNegativeReals")
                        variable("C24", block.cmp_st[n, t], domain="Binary")
                        variable("C24", block.exp_st[n, t], domain="Binary")

                        # compression and expansion are the two ends of the plant
                        require("C24", block.cmp_p[n, t] == m.flow[source, n, t])
                        require("C24", block.exp_p[n, t] == m.flow[n, sink, t])
                        require("C24", block.exp_q_fuel_in[n, t] == m.flow[fuel, n, t])

                        # power is limited by the pressure, i.e. the level before
                        before = block.cav_level[n, t - 1] if t > 0 else 0
                        most = par["cav_level_max"]
                        for p, limit, on, slope, base, least in (
                            (block.cmp_p, block.cmp_p_max, block.cmp_st,
                             par["cmp_p_max_m"], par["cmp_p_max_b"], par["cmp_p_min"]),
                            (block.exp_p, block.exp_p_max, block.exp_st,
                             par["exp_p_max_m"], par["exp_p_max_b"], par["exp_p_min"]),
                        ):
                            require("C24", limit[n, t] == slope * before + base)
                            require("C24", p[n, t] <= limit[n, t])
                            require("C24", p[n, t] >= least * on[n, t])
                            require("C24", p[n, t] <= (slope * most + base) * on[n, t])

                        # affine relations while the machine is running
                        for y, p, on, slope, base in (
                            (block.cmp_q_out_sum, block.cmp_p, block.cmp_st,
                             par["cmp_q_out_m"], par["cmp_q_out_b"]),
                            (block.exp_q_in_sum, block.exp_p, block.exp_st,
                             par["exp_q_in_m"], par["exp_q_in_b"]),
                            (block.cav_e_in, block.cmp_p, block.cmp_st,
                             par["cav_e_in_m"], par["cav_e_in_b"]),
                            (block.cav_e_out, block.exp_p, block.exp_st,
                             par["cav_e_out_m"], par["cav_e_out_b"]),
                        ):
                            require("C24", y[n, t] == slope * p[n, t] + base * on[n, t])

                        # heat: to and from the thermal storage by fixed shares
                        waste, stored = block.cmp_q_waste[n, t], block.tes_e_in[n, t]
                        share = par["cmp_q_tes_share"]
                        require("C24", block.cmp_q_out_sum[n, t] == waste + stored)
                        require("C24", share * waste == (1 - share) * stored)
                        burnt = block.exp_q_fuel_in[n, t]
                        other = block.tes_e_out[n, t] + block.exp_q_add_in[n, t]
                        share = par["exp_q_tes_share"]
                        require("C24", block.exp_q_in_sum[n, t] == burnt + other)
                        require("C24", share * burnt == (1 - share) * other)

                        # both storages start empty
                        tau = m.timeincrement[t]
                        require(
                            "C24",
                            par["cav_eta_temp"] * block.cav_level[n, t]
                            == before + tau * (block.cav_e_in[n, t] - block.cav_e_out[n, t]),
                        )
                        require("C24", block.cav_level[n, t] <= most)
                        heat = block.tes_level[n, t - 1] if t > 0 else 0
                        require(
                            "C24",
                            block.tes_level[n, t]
                            == heat + tau * (block.tes_e_in[n, t] - block.tes_e_out[n, t]),
                        )
                        require("C24", block.tes_level[n, t] <= par["tes_level_max"])


def piecewise(m, block, group):
    for n in group:
        points = n.in_breakpoints
        values = [n.conversion_function(x) for x in points]
        for i in n.inputs:
            for o in n.outputs:
                for t in m.TIMESTEPS:
                    x, y = block.inflow[n, t], block.outflow[n, t]
                    variable("C24", x, lb=min(points), ub=max(points))
                    variable("C24", y, lb=min(values), ub=max(values))
                    require("C24", x == m.flow[i, n, t])
                    require("C24", y == m.flow[n, o, t])
                    # and y is the interpolation of the function at x
                    pw = pieces(block.piecewise, n, t)
                    holds("C24", pw[0] is x, "argument of the function")
                    holds("C24", pw[1] is y, "value of the function")
                    holds("C24", pw[2] == "EQ", "the output equals the function")
                    holds("C24", len(pw[3]) == len(points), "number of points")
                    for k in range(len(points)):
                        equal("C24", pw[3][k], points[k], "points of the function")
                        equal("C24", pw[4][k], n.conversion_function(points[k]),
                              "values of the function")
