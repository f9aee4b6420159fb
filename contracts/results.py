"""Contract of the results: they are the values of the variables.

`variables` are the pairs (name, {index: value}) of all variables of the
model.  The last entry of an index is the step (time step, time point, period),
the others are the nodes.  Tables are given as {(nodes, label of row): value}."""

P = "C22"


def all_variables(keys, variables, investment):
    for v in variables:
        holds(P, v[0] in keys, "variable is accessible")
    holds(P, "objective" in keys and "variable_costs" in keys, "derived results")
    if investment:
        holds(P, "investment_costs" in keys, "derived results")


def table(have, name, variables, label):
    """label(index): label of the row of an entry"""
    want = {}
    for v in variables:
        if v[0] == name:
            for k in v[1]:
                want[nodes(k), label(k)] = v[1][k]
    same_cells(have, want, name)


def last(k):
    return k[-1]


def labelled_table(have, labels, name, variables, index, rows):
    """have: {(nodes, number of the row): value}; index: labels of the rows"""
    table(have, name, variables, last)
    for t in rows:
        equal(P, labels[t], index[t], name + ": label of a row")


def same_cells(have, want, name):
    for k in want:
        holds(P, k in have, name + ": value is missing")
        if k in have:
            equal(P, have[k], want[k], name)
    for k in have:
        holds(P, k in want or missing(have[k]), name + ": value that is not in the model")


def nodes(k):
    return k[:-1] if len(k) > 1 else k


def variable_costs(have, flows, values, steps, label):
    """values[i, o, t]: value of a flow"""
    want = {}
    for i, o, f in flows:
        if f.variable_costs is not None:
            for t in steps:
                want[(i, o), label(t)] = values[i, o, t] * f.variable_costs[t]
    same_cells(have, want, "variable_costs")


def investment_costs(have, investments):
    """investments: (nodes, investment, invested, whether it is built)"""
    want = {}
    for k, i, x, built in investments:
        want[k, 0] = i.ep_costs[0] * x + (i.offset[0] * built if i.nonconvex else 0)
    same_cells(have, want, "investment_costs")


# ---------------------------------------------------------------- processing
def processed(have, variables, where, years, index, last):
    """have: {(nodes, "sequences"|"scalars", name): [(label, value), ...]}.

    where(name): "step", "point", "period" or "node"; years: the years in which
    the periods start, None without periods; index: labels of all
    points in time; last: whether the last point is part of the tables"""
    want = {}
    for v in variables:
        kind = where(v[0])
        for k in v[1]:
            n = k if kind == "node" else k[:-1]
            key = n if len(n) == 2 else (n[0], None)
            if kind == "period":
                want.setdefault((key, "scalars", v[0]), {})[k[-1]] = v[1][k]
            elif kind == "node":
                want.setdefault((key, "scalars", v[0]), {})[0] = v[1][k]
            else:
                want.setdefault((key, "sequences", v[0]), {})[k[-1]] = v[1][k]
    for k in want:
        holds(P, k in have, "%s of %s is missing" % (k[2], k[1]))
        if k in have and k[1] == "scalars":
            equal(P, len(have[k]), len(want[k]), "number of values of " + k[2])
            for p in want[k]:
                equal(P, have[k][p][1], want[k][p], k[2])
                if years is not None:
                    equal(P, have[k][p][0], years[p], "year of a value of " + k[2])
        if k in have and k[1] == "sequences":
            for t in want[k]:
                if t < len(have[k]):
                    equal(P, have[k][t][1], want[k][t], k[2])
                    holds(P, t < len(index) and have[k][t][0] == index[t],
                          "time of a value of " + k[2])
                else:
                    holds(P, t == len(index) - 1 and not last, "last value of " + k[2])
            holds(P, last or len(have[k]) < len(index), "the last point is removed")
            for t in range(len(have[k])):
                if t not in want[k]:
                    holds(P, missing(have[k][t][1]), "value of %s that is not in the model" % k[2])
    for k in have:
        holds(P, k in want, "%s: quantity that is not in the model" % k[2])


def disaggregated(have, variables, expanded, index):
    """aggregated model; expanded: [(step of the model, first of its hours)]
    for each original step"""
    want = {}
    for v in variables:
        for k in v[1]:
            n = k[:-1] if len(k) == 3 else (k[0], None)
            want.setdefault((n, v[0]), {})[k[-1]] = v[1][k]
    for k in want:
        h = (k[0], "sequences", k[1])
        holds(P, h in have, "%s is missing" % k[1])
        if h in have:
            for t in range(len(expanded)):
                equal(P, have[h][t][1], want[k][expanded[t]], k[1])
                holds(P, have[h][t][0] == index[t], "time of a value of " + k[1])


def content(have, storages):
    """storages: (storage, contents at the points of the original time)"""
    for s, values in storages:
        h = ((s, None), "sequences", "soc")
        holds(P, h in have, "soc is missing")
        if h in have:
            for t in range(len(values)):
                equal(P, have[h][t][1], values[t], "soc")


def renamed(have, want, string):
    """keys are replaced by the labels, the tables are the same"""
    equal(P, len(have), len(want), "number of tables")
    for k in want:
        holds(P, string(k) in have, "table is missing")
        if string(k) in have:
            holds(P, have[string(k)] is want[k], "another table")


def of_node(have, node, result):
    """views.node: everything that belongs to the node; have and result:
    {(nodes, part, name): column}"""
    for k in result:
        if node in k[0]:
            holds(P, k in have, "%s of the node is missing" % k[2])
            if k in have:
                holds(P, same_column(have[k], result[k]), k[2])
    for k in have:
        holds(P, k in result and node in k[0], "%s of another node" % k[2])


def by_type(have, result, select):
    """views.node_input_by_type and the like"""
    for k in result:
        if k[1] == "sequences" and select(k[0]):
            holds(P, (k[0], k[2]) in have, "%s is missing" % k[2])
            if (k[0], k[2]) in have:
                holds(P, same_column(have[k[0], k[2]], result[k]), k[2])
    for k in have:
        holds(P, (k[0], "sequences", k[1]) in result and select(k[0]), "%s: other type" % k[1])


def same_column(a, b):
    a, b = [x for x in a if not missing(x[1])], [x for x in b if not missing(x[1])]
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a, b))


def net_flow(have, storages, flow):
    for s, i, o in storages:
        holds(P, (s, o) in have, "storage is missing")
        if (s, o) in have:
            for t in range(len(have[s, o])):
                if not missing(flow(s, o, t)):
                    equal(P, have[s, o][t][1], flow(s, o, t) - flow(i, s, t), "net flow")


def selected(have, pairs, option, buses):
    """filter_nodes"""
    start = {k[0] for k in pairs if k[0] is not None}
    end = {k[1] for k in pairs if k[1] is not None}
    want = {"all": start | end, "has_outputs": start, "has_inputs": end,
            "has_only_outputs": start - end, "has_only_inputs": end - start}[option]
    for n in want:
        if buses or not is_a(n, "Bus"):
            holds(P, n in have, "node is missing")
    for n in have:
        holds(P, n in want and (buses or not is_a(n, "Bus")), "node that is not asked for")


# ------------------------------------------------------------------- parameters
def parameters(have, name, attributes, none):
    """parameter_as_dict of one object.  have: {name: value or column};
    attributes: {name: value} of the object; none: whether None is shown"""
    want = {}
    described(want, "", attributes, none)
    for a in want:
        holds(P, a in have, "%s of %s is missing" % (a, name))
        if a in have:
            same_parameter(have[a], want[a], "%s of %s" % (a, name))
    for a in have:
        holds(P, a in want or all(missing(x) for x in as_list(have[a])), "%s: no parameter of %s" % (a, name))


def described(want, prefix, attributes, none):
    for a in attributes:
        v = attributes[a]
        if is_a(v, "Investment"):
            described(want, "investment_", public(v), none)
        elif isinstance(v, dict):
            described(want, prefix + a + "_", {str(k): v[k] for k in v}, none)
        elif v is None:
            if none:
                want[prefix + a] = None
        elif a == "label":
            want[prefix + a] = str(v)
        elif is_constant(v):
            if v.value is not None or none:
                want[prefix + a] = v.value
        elif is_list(v):
            if len(v) > 0:
                want[prefix + a] = list(v)
        else:
            want[prefix + a] = v


def same_parameter(have, want, what):
    if isinstance(want, list):
        holds(P, isinstance(have, list) and len(have) >= len(want), what)
        if isinstance(have, list) and len(have) >= len(want):
            for t in range(len(want)):
                equal(P, have[t], want[t], what)
            holds(P, all(missing(x) for x in have[len(want):]), what + ": more values than given")
    elif number(want):
        equal(P, have, want, what)
    else:
        holds(P, have is want or have == want, what)


def as_list(x):
    return x if isinstance(x, list) else [x]


def shadow_prices(have, duals, index):
    """duals: {bus: [dual of each step]}"""
    for b in duals:
        k = ((b, None), "sequences", "duals")
        holds(P, k in have, "duals are missing")
        if k in have:
            seen = [x for x in have[k] if not missing(x[1])]
            holds(P, len(seen) == len(duals[b]), "number of duals")
            for t in range(min(len(seen), len(duals[b]))):
                equal(P, seen[t][1], duals[b][t], "dual")
                holds(P, seen[t][0] == index[t], "time of a dual")


def meta(have, objective, given, undefined, b, u):
    """meta_results; given: {part: {name: value}}, "<undefined>" if there is
    none; b, u: the lower and the upper bound"""
    equal(P, have["objective"], objective, "objective")
    for part in given:
        for k in given[part]:
            if given[part][k] != "<undefined>" or undefined:
                holds(P, k in have[part] and have[part][k] == given[part][k], part + " " + k)
            else:
                holds(P, k not in have[part], part + " " + k)
        for k in have[part]:
            holds(P, k in given[part] or k == "MIPGap", "%s: no such entry" % k)
    if u == b:
        equal(P, have["problem"]["MIPGap"], 0, "MIPGap")
    elif u + b != 0:
        # relative to the mean of both
        equal(P, have["problem"]["MIPGap"] * abs(u + b), 2 * abs(u - b), "MIPGap")
    else:
        equal(P, have["problem"]["MIPGap"], float("inf"), "MIPGap")
