"""What decides each property: the units are found through UNITS[..].props,
the concrete profiles (bounded replay side) are listed here."""

PROFILES = {
    "C01": ["flow:single", "flow:multi", "flow:tsam"],
    "C02": ["flow:single", "flow:multi", "invest:single", "nonconvex:single", "investnc:single"],
    "C03": ["flow:single", "flow:multi", "flow:tsam", "invest:single,multi,tsam"],
    "C04": ["flow:single", "flow:multi", "nonconvex:single,multi", "investnc:single,multi"],
    "C05": ["flow:single", "flow:multi"],
    "C06": ["flow:single", "flow:multi", "flow:tsam", "storage:single,multi"],
    "C07": ["invest:single", "invest:multi", "invest:tsam"],
    "C08": ["invest:multi", "investstorage:multi"],
    "C09": ["invest:single", "invest:multi", "investnc:single,multi", "investstorage:single,multi"],
    "C10": ["nonconvex:single,multi,tsam", "investnc:single,multi"],
    "C11": ["nonconvex:single,multi", "nonconvex:tsam", "investnc:single,multi,tsam"],
    "C12": ["investnc:single", "investnc:multi", "investnc:tsam"],
    "C13": ["conv:single", "conv:multi", "conv:tsam"],
    "C14": ["chp:single", "chp:multi", "chp:tsam"],
    "C15": ["storage:single", "storage:multi", "storage:tsam", "storage:tsamulti"],
    "C17": ["limits:single", "limits:multi", "limits:tsam", "limits:tsamulti"],
    "C18": ["couplings:single", "couplings:multi", "couplings:tsam"],
    "C21": ["flow:single", "invest:multi", "nonconvex:single", "investnc:single", "conv:single",
            "chp:single", "storage:multi", "investstorage:single"],
    "C24": ["experimental:single", "experimental:multi"],
    "C16": ["investstorage:single", "investstorage:multi", "investstorage:tsam", "investstorage:tsamulti"],
}

# concrete checks that are not contracts on blocks (module:function in conc/)
PROBES = {
    "C15": ["findings", "components"],
    "C16": ["findings", "components"],
    "C18": ["findings"],
    "C19": ["times", "wiring"],
    "C13": ["components"],
    "C14": ["components"],
    "C24": ["components"],
    "C20": ["plumbing", "constructors", "components"],
    "C21": ["groups", "wiring"],
    "C22": ["results", "findings"],
    "C23": ["solve"],
}

# concrete search of the quick check [s], where most is decided by it
SECONDS = {"C22": 50}

_T = ("Every obligation generated from the current source by executing it symbolically against "
      "the contract is discharged for all inputs, horizons and graph sizes; floats are treated as "
      "reals, Pyomo/oemof.network/numpy behave as their assumed contracts state, parameters satisfy "
      "the data invariants of vcgen/data.py. ")

_B = ("Bounded: the contracts on the real functions are executed on randomly generated inputs; "
      "not proved for all inputs. ")

CLAIMED = {
    "C01": ("proof", _T),
    "C02": ("proof", _T),
    "C03": ("proof", _T),
    "C04": ("proof", _T),
    "C05": ("proof", _T),
    "C06": ("proof", _T),
    "C07": ("proof", _T),
    "C08": ("proof", _T),
    "C09": ("proof", _T),
    "C10": ("proof", _T),
    "C11": ("proof", _T),
    "C12": ("proof", _T),
    "C13": ("proof", _T),
    "C14": ("proof", _T),
    "C15": ("proof", _T),
    "C16": ("proof", _T),
    "C17": ("proof", _T),
    "C18": ("proof", _T),
    "C19": ("proof", _T + "A time index is a series of hours with an optional frequency (assumed contract of "
            "pandas' DatetimeIndex, vcgen/pdmodel.py); calendar arithmetic itself is only run (bounded). "),
    "C20": ("proof", _T + "Constructors take lists and numbers (arrays and pandas objects: bounded), storages and "
            "converters with offset up to two flows per side; the deprecated coefficients of OffsetConverter for "
            "one input and one output. "),
    "C21": ("proof", _T + "oemof.network applies the groupings as its assumed contract states. "),
    "C22": ("exploration", _B + "Proved on top (for all models): Results.get, _calc_variable_costs, _calc_capex, "
            "views.filter_nodes, get_node_by_name, the selection of node_*_by_type, access by name, meta_results, "
            "convert_keys_to_strings, indices of variables, given the assumed "
            "contract of the pandas operations they use. "),
    "C24": ("proof", _T + "The interpolation between the points of a piecewise linear function is Pyomo's; "
            "the points, values and variables handed to it are under contract. "),
    "C23": ("proof", _T + "The solver interface is represented by its assumed contract; real solvers are run "
            "on small problems (bounded). "),
}
NOT_APPLICABLE = {}
