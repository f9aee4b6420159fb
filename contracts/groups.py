"""Contract of the grouping: which block constrains which object.

`created` maps the name of a block class to the lists of objects its blocks
were created with; `flows` are all triples (start, end, flow), `nodes` all
nodes of the energy system."""

BLOCK_OF = {"GenericCHP": "GenericCHPBlock", "Link": "LinkBlock",
            "OffsetConverter": "OffsetConverterBlock",
            "ExtractionTurbineCHP": "ExtractionTurbineCHPBlock",
            "GenericCAES": "GenericCAESBlock",
            "PiecewiseLinearConverter": "PiecewiseLinearConverterBlock",
            "Own": "OwnBlock"}      # a component that brings its own block


def flow_block(flow):
    """the block for the combination of options of a flow"""
    if flow.investment is not None:
        if flow.nonconvex is not None:
            return "InvestNonConvexFlowBlock"
        return "InvestmentFlowBlock"
    if flow.nonconvex is not None:
        return "NonConvexFlowBlock"
    return None


def node_block(node):
    """the block for a node of this type and these options; a user's own type
    derived from a component is treated like the component"""
    if is_a(node, "Bus"):
        return "BusBlock" if node.balanced else None
    if is_a(node, "GenericStorage"):
        if node.investment is not None:
            return "GenericInvestmentStorageBlock"
        return "GenericStorageBlock"
    for kind in BLOCK_OF:
        if is_a(node, kind):
            return BLOCK_OF[kind]
    # a turbine is a special converter
    return "ConverterBlock" if is_a(node, "Converter") else None


def model_groups(created, flows, nodes):
    P = "C21"
    want = {"SimpleFlowBlock": list(flows)}      # every flow
    for x in flows:
        b = flow_block(x[2])
        if b is not None:
            want.setdefault(b, []).append(x)
    for n in nodes:
        b = node_block(n)
        if b is not None:
            want.setdefault(b, []).append(n)
    for b in want:
        holds(P, b in created, "there is a %s for its objects" % b)
        if b in created:
            holds(P, len(created[b]) == 1, "one %s" % b)
            have = [x for g in created[b] for x in g]
            holds(P, len(have) == len(want[b]), "%s: number of objects" % b)
            for x in want[b]:
                holds(P, any(same_object(x, y) for y in have), "%s: object forgotten" % b)
            for x in have:
                holds(P, any(same_object(x, y) for y in want[b]), "%s: object of another block" % b)
    for b in created:
        if b not in want:
            holds(P, sum(len(g) for g in created[b]) == 0, "%s: object of another block" % b)


def blocks(have, standard, before, given, passed, own, block):
    """the blocks of a model: the standard ones, those of its energy system and
    those named by the user, each once; neither list is changed"""
    P = "C21"
    holds(P, standard == before, "standard blocks are changed")
    holds(P, given == passed, "list of the user is changed")
    for b in before:
        holds(P, have.count(b) == 1, "one block for each standard group")
    holds(P, have.count(block) == (1 if own else 0), "block of the user or of his component")


def same_object(x, y):
    if isinstance(x, tuple):
        return all(a is b for a, b in zip(x, y))
    return x is y


def parts(m, nodes, flows):
    """the model knows all nodes and flows"""
    P = "C21"
    holds(P, len(m.nodes) == len(nodes), "number of nodes")
    for n in nodes:
        holds(P, any(n is x for x in m.nodes), "node forgotten")
        holds(P, n in m.NODES, "node forgotten")
    holds(P, len(m.flows) == len(flows), "number of flows")
    for i, o, f in flows:
        holds(P, (i, o) in m.flows and m.flows[i, o] is f, "flow forgotten")
        holds(P, (i, o) in m.FLOWS, "flow forgotten")
        holds(P, ((i, o) in m.BIDIRECTIONAL_FLOWS) == f.bidirectional, "bidirectional flows")
        holds(P, ((i, o) in m.UNIDIRECTIONAL_FLOWS) == (not f.bidirectional), "unidirectional flows")
        for t in m.TIMESTEPS:
            holds(P, (i, o, t) in m.flow, "flow variable")
