"""Contract of Model.solve.

`made` are the arguments the solver was created with, `options` its options
afterwards, `called` the arguments it was called with; `outcome` is what it
returned, with its status and termination condition; `before` are the options
of a new solver."""


def solve(result, m, made, options, called, outcome, before, warned,
          solver="cbc", solver_io="lp", allow_nonoptimal=False,
          solve_kwargs=None, cmdline_options=None):
    P = "C23"
    optimal = outcome.Solver.Status == "ok" \
        and outcome.Solver.Termination_condition == "optimal"
    rejects(P, not optimal and not allow_nonoptimal, "solution that is not optimal")
    returned()
    # what the user wants is passed on
    equal(P, made[0], solver, "solver")
    equal(P, made[1], solver_io, "interface of the solver")
    given = {} if cmdline_options is None else cmdline_options
    for k in given:
        holds(P, k in options, "option that is passed on")
        if k in options:
            holds(P, options[k] is given[k], "option")
    for k in options:
        holds(P, k in given or k in before, "option nobody asked for")
    wanted = {} if solve_kwargs is None else solve_kwargs
    holds(P, called[0] is m, "the model is solved")
    for k in wanted:
        holds(P, k in called[1], "argument that is passed on")
        if k in called[1]:
            holds(P, called[1][k] is wanted[k], "argument of the solver")
    for k in called[1]:
        holds(P, k in wanted, "argument nobody asked for")
    # the outcome is kept
    holds(P, has(m, "solver_results"), "the model keeps an outcome")
    if has(m, "solver_results"):
        holds(P, m.solver_results is outcome, "outcome kept by the model")
    holds(P, has(m.es, "results"), "the energy system keeps an outcome")
    if has(m.es, "results"):
        holds(P, m.es.results is outcome, "outcome kept by the energy system")
    if optimal:
        holds(P, is_a(result, "Results"), "optimal solution")
        holds(P, not warned, "warning about an optimal solution")
    else:
        holds(P, warned, "warning about a solution that is not optimal")
        holds(P, result is outcome, "outcome instead of results")


def message(text, outcome):
    """error or warning about a solution that is not optimal"""
    P = "C23"
    holds(P, str(outcome.Solver.Status) in text, "status in the message")
    holds(P, str(outcome.Solver.Termination_condition) in text, "reason in the message")


def receive_duals(result, m):
    """what the solver knows about constraints and variables is imported"""
    P = "C22"
    holds(P, has(m, "dual"), "the model asks for shadow prices")
    if has(m, "dual"):
        holds(P, m.dual.import_enabled(), "shadow prices are read from the solution")
    holds(P, has(m, "rc"), "the model asks for reduced costs")
    if has(m, "rc"):
        holds(P, m.rc.import_enabled(), "reduced costs are read from the solution")


def processed(result, m, expected, called, remove):
    """Model.results"""
    P = "C22"
    holds(P, called is m, "results of this model")
    holds(P, not remove, "all time points")
    holds(P, result is expected, "nothing else is returned")
