"""Contracts of ExtractionTurbineCHPBlock and GenericCHPBlock
(oemof.solph.components)."""


def turbine(m, block, group):
    for n in group:
        for i in n.inputs:
            for main in n.conversion_factor_full_condensation:
                full = n.conversion_factor_full_condensation[main]
                for tapped in n.outputs:
                    if tapped != main:
                        el = n.conversion_factors[main]
                        th = n.conversion_factors[tapped]
                        for t in m.TIMESTEPS:
                            power = m.flow[n, main, t]
                            heat = m.flow[n, tapped, t]
                            # every unit of heat costs `beta` units of power
                            beta = (full[t] - el[t]) / th[t]
                            require(
                                "C14",
                                m.flow[i, n, t]
                                == (power + heat * beta) / full[t],
                            )
                            require("C14", power >= heat * (el[t] / th[t]))


def generic_chp(m, block, group):
    for n in group:
        for fuel in n.fuel_input:
            for eb in n.electrical_output:
                for hb in n.heat_output:
                    fp = n.fuel_input[fuel].custom_properties
                    ep = n.electrical_output[eb].custom_properties
                    hp = n.heat_output[hb].custom_properties
                    for t in m.TIMESTEPS:
                        fuel_use = block.H_F[n, t]
                        power = block.P[n, t]
                        heat = block.Q[n, t]
                        on = block.Y[n, t]
                        for v in (
                            fuel_use,
                            power,
                            heat,
                            block.P_woDH[n, t],
                            block.H_L_FG_max[n, t],
                            block.H_L_FG_min[n, t],
                        ):
                            variable("C14", v, domain="NonNegativeReals")
                        variable("C14", on, domain="Binary")
                        require("C14", fuel_use == m.flow[fuel, n, t])
                        require("C14", power == m.flow[n, eb, t])
                        require("C14", heat == m.flow[n, hb, t])

                        # fuel is an affine function of the power without
                        # heat extraction through the two given points
                        pmin, pmax = ep["P_min_woDH"][t], ep["P_max_woDH"][t]
                        hmin = pmin / ep["Eta_el_min_woDH"][t]
                        hmax = pmax / ep["Eta_el_max_woDH"][t]
                        slope = (hmax - hmin) / (pmax - pmin)
                        base = hmin - slope * pmin
                        require(
                            "C14",
                            fuel_use
                            == base * on + slope * block.P_woDH[n, t],
                        )
                        require(
                            "C14",
                            fuel_use
                            == base * on + slope * (power + n.beta[t] * heat),
                        )
                        # operating range
                        require("C14", fuel_use <= hmax * on)
                        require("C14", fuel_use >= hmin * on)
                        # flue gas and cooling water losses
                        require(
                            "C14",
                            block.H_L_FG_max[n, t]
                            == fuel_use * fp["H_L_FG_share_max"][t],
                        )
                        most = (
                            power
                            + heat
                            + block.H_L_FG_max[n, t]
                            + hp["Q_CW_min"][t] * on
                        )
                        if n.back_pressure:
                            require("C14", most == fuel_use)
                        else:
                            require("C14", most <= fuel_use)
                        if fp.get("H_L_FG_share_min") is not None:
                            require(
                                "C14",
                                block.H_L_FG_min[n, t]
                                == fuel_use * fp["H_L_FG_share_min"][t],
                            )
                            require(
                                "C14",
                                power
                                + heat
                                + block.H_L_FG_min[n, t]
                                + hp["Q_CW_min"][t] * on
                                >= fuel_use,
                            )


def generic_chp_objective(m, block, result):
    # variable costs are those of the flows
    equal("C06", result, 0, "costs of the block")
