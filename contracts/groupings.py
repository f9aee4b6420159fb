"""Contract of the groupings: to which blocks an arbitrary flow belongs, and
which block an arbitrary node asks for.

`accepted` lists, for each grouping of flows that the energy systems use, the
block class and whether the grouping takes the flow."""


def takes(accepted, block):
    taken = False
    for x in accepted:
        if is_class(x[0], block) and x[1]:
            taken = True
    return taken


def flow_groupings(accepted, f):
    P = "C21"
    invest = has(f, "investment") and f.investment is not None
    nonconvex = has(f, "nonconvex") and f.nonconvex is not None
    holds(P, takes(accepted, "SimpleFlowBlock"), "every flow is in the general block")
    holds(P, takes(accepted, "InvestmentFlowBlock") == (invest and not nonconvex),
          "investment flows")
    holds(P, takes(accepted, "NonConvexFlowBlock") == (nonconvex and not invest),
          "flows with on/off options")
    holds(P, takes(accepted, "InvestNonConvexFlowBlock") == (invest and nonconvex),
          "investment flows with on/off options")
    for x in accepted:
        holds(P, is_class(x[0], "SimpleFlowBlock") or is_class(x[0], "InvestmentFlowBlock")
              or is_class(x[0], "NonConvexFlowBlock")
              or is_class(x[0], "InvestNonConvexFlowBlock"), "no other block for flows")


def node_grouping(keys, node):
    """keys: what the groupings of nodes return for the node"""
    want = None
    if has(node, "constraint_group"):
        want = node.constraint_group()
    if want is not None:
        found = False
        for k in keys:
            if k is want:
                found = True
        holds("C21", found, "the block the node asks for")
    for k in keys:
        holds("C21", k is None or k is want, "no other block")
