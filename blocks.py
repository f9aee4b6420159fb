"""Which contract belongs to which constraint block (shared by the symbolic
verifier and by the concrete runner; no imports, loads in both Pythons).

owners: constraint/variable name prefix -> property an unexpected constraint
or variable of that name is reported under (None: every property of the block)
"""

BLOCKS = {
    "BusBlock": dict(
        module="oemof.solph.buses._bus", file="bus.py", post="post",
        objective=None, group="bus", props=["C01"], owners={}, default="C01"),
    "SimpleFlowBlock": dict(
        module="oemof.solph.flows._simple_flow_block", file="simple_flow.py",
        post="post", objective="post_objective", group="flow",
        props=["C03", "C04", "C05", "C06"],
        owners={"full_load_time": "C03", "positive_gradient": "C04",
                "negative_gradient": "C04", "integer": "C05", "lifetime": "C05"},
        default="C05"),
    "InvestmentFlowBlock": dict(
        module="oemof.solph.flows._investment_flow_block", file="invest_flow.py",
        post="post", objective="post_objective", group="invest",
        props=["C03", "C07", "C08"],
        owners={"full_load_time": "C03", "old": "C08"}, default="C07"),
    "NonConvexFlowBlock": dict(
        module="oemof.solph.flows._non_convex_flow_block", file="nonconvex.py",
        post="post", objective="post_objective", group="nonconvex",
        props=["C04", "C10"], owners={"positive_gradient": "C04", "negative_gradient": "C04"},
        default="C10", cost="C11"),
    "InvestNonConvexFlowBlock": dict(
        module="oemof.solph.flows._invest_non_convex_flow_block", file="nonconvex.py",
        post="post_invest", objective="post_invest_objective", group="investnc",
        props=["C04", "C10", "C12"],
        owners={"positive_gradient": "C04", "negative_gradient": "C04", "startup": "C10", "shutdown": "C10", "max_startup": "C10",
                "max_shutdown": "C10", "min_uptime": "C10", "min_downtime": "C10"},
        default="C12", cost="C11"),
    "ConverterBlock": dict(
        module="oemof.solph.components._converter", file="converters.py",
        post="converter", objective=None, group="cls:Converter", props=["C13"],
        owners={}, default="C13"),
    "LinkBlock": dict(
        module="oemof.solph.components._link", file="converters.py",
        post="link", objective=None, group="cls:Link", props=["C13"],
        owners={}, default="C13"),
    "OffsetConverterBlock": dict(
        module="oemof.solph.components._offset_converter", file="converters.py",
        post="offset_converter", objective=None, group="cls:OffsetConverter",
        props=["C13"], owners={}, default="C13"),
    "ExtractionTurbineCHPBlock": dict(
        module="oemof.solph.components._extraction_turbine_chp", file="chp.py",
        post="turbine", objective=None, group="cls:ExtractionTurbineCHP",
        props=["C14"], owners={}, default="C14"),
    "GenericCHPBlock": dict(
        module="oemof.solph.components._generic_chp", file="chp.py",
        post="generic_chp", objective="generic_chp_objective", group="cls:GenericCHP",
        props=["C14"], owners={}, default="C14"),
    "GenericCAESBlock": dict(
        module="oemof.solph.components.experimental._generic_caes", file="experimental.py",
        post="caes", objective=None, group="cls:GenericCAES", props=["C24"],
        owners={}, default="C24"),
    "PiecewiseLinearConverterBlock": dict(
        module="oemof.solph.components.experimental._piecewise_linear_converter",
        file="experimental.py", post="piecewise", objective=None,
        group="cls:PiecewiseLinearConverter", props=["C24"], owners={}, default="C24"),
    "GenericStorageBlock": dict(
        module="oemof.solph.components._generic_storage", file="storage.py",
        post="storage", objective="storage_objective", group="storage",
        props=["C15"], owners={}, default="C15", cost="C06"),
    "GenericInvestmentStorageBlock": dict(
        module="oemof.solph.components._generic_storage", file="storage.py",
        post="invest_storage", objective="invest_storage_objective",
        group="investstorage", props=["C08", "C15", "C16"],
        owners={"old": "C08"}, default="C16", cost="C09"),
}

# contracts that apply to the whole model
MODEL = [
    dict(id="model.flow", file="model.py", post="post_flow_variable", prop="C02"),
]


def owner_prop(cls, name, default=None):
    b = BLOCKS[cls]
    if name:
        name = name.split(".")[-1]
        for k, p in b["owners"].items():
            if name.startswith(k):
                return p
    return default or b["default"]
