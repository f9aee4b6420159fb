"""The recorded findings that are no slips of a single line, each shown against
the real code: a function returns what goes wrong, or None when it is repaired."""

import pandas as pd

from oemof.solph import EnergySystem, Flow, Investment, Model  # noqa: E402
from oemof.solph import components as cmp, buses, constraints, processing  # noqa: E402

H = lambda n, y=2020: pd.date_range("%d-01-01" % y, periods=n, freq="h")


def tsam(**storage):
    es = EnergySystem(timeindex=H(5), infer_last_interval=False, tsa_parameters=[
        {"timesteps_per_period": 2, "order": [0, 1, 0], "timeindex": H(6)}])
    b = buses.Bus("b")
    s = cmp.GenericStorage("s", inputs={b: Flow(nominal_capacity=4)}, outputs={b: Flow(nominal_capacity=4)},
                           nominal_capacity=10, **storage)
    es.add(b, s, cmp.Source("src", outputs={b: Flow(nominal_capacity=5, variable_costs=1)}),
           cmp.Sink("k", inputs={b: Flow(nominal_capacity=1, fix=[1, 2, 3, 4])}))
    return es, b, s


def failing(f):
    try:
        f()
    except (AttributeError, KeyError, ValueError) as e:
        return "%s: %s" % (type(e).__name__, e)


def tsam_storage_costs():
    return failing(lambda: Model(tsam(storage_costs=1)[0]))


def tsam_soc_charging():
    return failing(lambda: Model(tsam(constant_soc_until=0.5, fraction_saturation_charging=0.3)[0]))


def tsam_storage_level():
    es, b, s = tsam()
    o = cmp.Source("x", outputs={b: Flow(nominal_capacity=1)})
    mb = buses.Bus("mb")
    k = cmp.Sink("y", inputs={mb: Flow(nominal_capacity=1)})
    q = cmp.Source("z", outputs={mb: Flow(nominal_capacity=1)})
    es.add(mb, k, q, o)
    m = Model(es)
    return failing(lambda: constraints.storage_level_constraint(
        model=m, name="c", storage_component=s, multiplexer_bus=mb,
        input_levels={q: 0.5}, output_levels={k: 0.5}))


def multi():
    """two periods with two steps each"""
    per = [H(2, 2020), H(2, 2021)]
    return EnergySystem(timeindex=per[0].append(per[1]), timeincrement=[1] * 4, periods=per,
                        infer_last_interval=False)


def last_content():
    es = multi()
    b = buses.Bus("b")
    s = cmp.GenericStorage("s", inputs={b: Flow(nominal_capacity=9, variable_costs=[0, 0, 0, -5])},
                           outputs={b: Flow(nominal_capacity=9)}, balanced=False,
                           nominal_capacity=Investment(maximum=3, ep_costs=1, lifetime=20, existing=0))
    es.add(b, s, cmp.Source("src", outputs={b: Flow(nominal_capacity=50)}),
           cmp.Sink("k", inputs={b: Flow()}))
    m = Model(es)
    m.solve("cbc")
    B = m.GenericInvestmentStorageBlock
    c, t = B.storage_content[s, 4].value, B.total[s, 1].value
    if c > t + 1e-6:
        return "content %s after the last step, capacity %s" % (c, t)


def tsam_duals():
    es, b, s = tsam()
    m = Model(es)
    m.receive_duals()
    m.solve("cbc")
    return failing(lambda: processing.results(m))


FINDINGS = {
    "C22": {"tsam-duals": tsam_duals},
    "C15": {"tsam-storage-costs": tsam_storage_costs, "tsam-soc-charging": tsam_soc_charging},
    "C16": {"last-content": last_content},
    "C18": {"tsam-storage-level": tsam_storage_level},
}


