"""Contracts of Model.__init__ and Model._add_objective: what the model is
made of.

`created` lists the blocks the model creates, in pairs of their class and the
group they are created for; `standard` are the classes of the blocks every
model has."""


def model_init(m, es, created, standard, timeincrement=None, objective_weighting=None,
               constraint_groups=None, discount_rate=None, auto_construct=True):
    P = "C19"
    holds(P, m.es is es, "energy system of the model")
    if timeincrement is None:
        holds(P, m.timeincrement is es.timeincrement, "durations of the energy system")
    else:
        holds(P, m.timeincrement is timeincrement, "durations given to the model")
    if objective_weighting is None:
        holds("C06 C19", m.objective_weighting is m.timeincrement, "costs are weighted by the duration")
    else:
        holds("C06 C19", m.objective_weighting is objective_weighting, "weights given to the model")
    if es.periods is not None:
        if discount_rate is None:
            equal("C09 C19", m.discount_rate, 0.02, "default of the discount rate")
        else:
            equal("C09 C19", m.discount_rate, discount_rate, "discount rate")
    P = "C21"
    if constraint_groups is None:
        user = []
    else:
        user = constraint_groups
    if auto_construct:
        for g in standard:
            equal(P, sum(1 for x, a in created if x == g), 1, "one block for each standard group")
        for g in user:
            equal(P, sum(1 for x, a in created if x == g), 1, "one block for each group of the user")
        for g in es.groups:
            if has(g, "CONSTRAINT_GROUP"):
                equal(P, sum(1 for x, a in created if x == g), 1, "one block for each group of nodes")
        for x, a in created:
            holds(P, a is es.groups.get(x), "the block is created for its group")
            holds(P, x in standard or x in user or x in es.groups and has(x, "CONSTRAINT_GROUP"),
                  "block nobody asked for")
    else:
        for x, a in created:
            holds(P, False, "block of a model that is not constructed")
    # other models are not affected
    equal(P, len(type(m).CONSTRAINT_GROUPS), len(standard), "number of standard groups")
    for g in standard:
        holds(P, g in type(m).CONSTRAINT_GROUPS, "standard group of all models")


def objective(m, objective, sense, components):
    """the objective is the sum of the expressions of all blocks"""
    P = "C06"
    equal(P, sense, 1, "the objective is minimised")
    equal(P, objective, sum(b._objective_expression() for b in components
                            if has(b, "_objective_expression")), "objective")
