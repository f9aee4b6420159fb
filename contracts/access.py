"""Contract of the access to results by name: what the solver reported, the
objective, and the tables of Results.get; other names are unknown."""

P = "C22"


def looked_up(have, key, solver, meta, table):
    """have: results[key]; table: Results.get(key)"""
    rejects(P, key not in solver and key not in meta and table is None, "unknown name")
    returned()
    if key in solver:
        equal(P, have, solver[key], "what the solver reported")
    elif key in meta:
        equal(P, have, meta[key], "objective")
    else:
        equal(P, have, table, "table")


def converted(have, table):
    """have: Results.to_df(name); table: Results.get(name)"""
    rejects(P, table is None, "unknown name")
    returned()
    equal(P, have, table, "table")


def contained(have, key, solver, variables):
    """have: key in results"""
    if key in variables or key in solver:
        holds(P, have, "name of a variable is in the results")
    else:
        holds(P, not have, "unknown name is not in the results")


def names(keys, solver, meta, variables, derived):
    for known in (solver, meta, variables, derived):
        for k in known:
            holds(P, k in keys, "known name is missing")
    for k in keys:
        holds(P, k in solver or k in meta or k in variables or k in derived,
              "unknown name")


def split_key(have_step, have_rest, parts, step):
    """index of a variable: nodes and the step, if there is one"""
    equal(P, have_step, 0 if step is None else step, "step of an index")
    n = 0
    for x in parts:
        holds(P, have_rest[n] is x, "nodes of an index")
        n = n + 1
    holds(P, len(have_rest) == n, "nodes of an index")


def renamed(have, want, string):
    """keys are replaced by the labels, the tables are the same"""
    known = {string(k) for k in want}
    for k in want:
        holds(P, string(k) in have, "table is missing")
        if string(k) in have:
            holds(P, have[string(k)] is want[k], "another table")
    for k in have:
        holds(P, k in known, "table of another key")


def by_name(have, pairs, labels, name):
    """get_node_by_name: the node of the results with this label, if any;
    labels(n): label of a node"""
    for k in pairs:
        for n in k:
            if n is not None and labels(n) == name:
                holds(P, have is n, "node of this name")
    if have is not None:
        holds(P, labels(have) == name, "name of the node")
        holds(P, any(have is n for k in pairs for n in k), "node of the results")


def of_type(have, tables, wanted):
    """node_input_by_type, node_output_by_type, node_weight_by_type: what they
    join, {pair: table of the pair}; wanted(pair): is the pair asked for"""
    for k in tables:
        if wanted(k):
            holds(P, have is not None, "there are tables to show")
            if have is not None:
                holds(P, k in have, "flow or node is missing")
                if k in have:
                    holds(P, have[k] is tables[k]["sequences"], "table of the flow or node")
    if have is not None:
        for k in have:
            holds(P, k in tables and wanted(k), "flow or node that is not asked for")


def index_of(have, index):
    """get_tuple: the index of the variable in (block, variable, index)"""
    holds(P, len(have) == len(index), "parts of the index")
    for j in range(len(index)):
        equal(P, have[j], index[j], "part of the index")
