"""Contract of EnergySystem: time index, durations, aggregation and periods.

The time index is given as numbers or as points in time; `hours(index)` are
the durations of its intervals (points in time: in hours), `regular(index)`
says whether it has a frequency (given or inferred) and `one_more(index)` is
the index with one further point at the end.  `before(x, t)` is the sum of the
first t entries of x, `typical(x)` the number of typical periods of aggregated
data, `count(order, k)` how often k occurs.  `year(x)` is the year of a point
in time, `start(p)`/`stop(p)` the first/last entry of a period index.
`groupings_of(es)` are the groupings that sort the nodes."""


def energy_system(es, timeindex=None, timeincrement=None, infer_last_interval=False,
                  periods=None, tsa_parameters=None, use_remaining_value=False,
                  groupings=None, standard=()):
    P = "C19"
    index = timeindex
    if infer_last_interval and timeindex is not None:
        rejects(P, not regular(timeindex), "last interval of an irregular index")
        rejects(P, any(x <= 0 for x in hours(timeindex)), "index that does not increase")
        index = one_more(timeindex)
    segmented = False
    if tsa_parameters is not None:
        segmented = any("segments" in x for x in tsa_parameters)
        if segmented:
            rejects(P, timeincrement is not None, "increments and segments")
            rejects(P, not all("segments" in x for x in tsa_parameters),
                    "only some periods are segmented")
    if timeincrement is not None:
        rejects(P, timeindex is not None and periods is None, "index and increments")
        rejects(P, any(x <= 0 for x in timeincrement), "increments that are not positive")
    elif segmented:
        rejects(P, any(d <= 0 for x in tsa_parameters for d in x["segments"].values()),
                "segments that have no duration")
    elif timeindex is not None:
        rejects(P, any(x <= 0 for x in hours(index)), "index that does not increase")
    returned()
    # the duration of each interval
    if segmented:
        ordered(P, es.timeincrement, [d for x in tsa_parameters for d in x["segments"].values()],
                "duration of an interval")
    elif timeincrement is not None:
        durations(es, timeincrement)
    elif timeindex is not None:
        durations(es, hours(index))
    else:
        holds(P, es.timeincrement is None, "no durations")
    # the time index itself
    if timeindex is not None:
        equal(P, len(es.timeindex), len(index), "number of time points")
        for t in range(len(index)):
            holds(P, es.timeindex[t] == index[t], "time index")
    elif timeincrement is not None:
        equal(P, len(es.timeindex), len(timeincrement) + 1, "number of time points")
        for t in range(len(timeincrement) + 1):
            equal(P, es.timeindex[t], before(timeincrement, t), "time index")
    # typical periods
    if tsa_parameters is None:
        holds(P, es.tsa_parameters is None, "no aggregation")
    else:
        equal(P, len(es.tsa_parameters), len(tsa_parameters), "aggregation of each period")
        for p in range(len(tsa_parameters)):
            aggregated(es.tsa_parameters[p], tsa_parameters[p])
    # periods
    if periods is None:
        holds(P, es.periods is None, "no periods")
        equal(P, es.end_year_of_optimization, 1, "end of the optimisation")
    else:
        period_years(es, periods)
        equal(P, es.use_remaining_value, use_remaining_value, "remaining value")
    # groupings
    have = groupings_of(es)
    for g in standard:
        holds("C21", g in have, "standard grouping")
    if groupings is not None:
        for g in groupings:
            holds("C21", g in have, "grouping of the user")


def durations(es, given):
    equal("C19", len(es.timeincrement), len(given), "number of intervals")
    for t in range(len(given)):
        equal("C19", es.timeincrement[t], given[t], "duration of an interval")


def aggregated(have, x):
    """parameters of one period"""
    P = "C19"
    for k in x["order"]:
        equal(P, have["occurrences"][k], count(x["order"], k),
              "number of periods that a typical period stands for")
    equal(P, len(have["occurrences"]), typical(x), "number of typical periods")
    if "segments" in x:
        equal(P, have["timesteps"] * typical(x), len(x["segments"]), "steps of a typical period")
    else:
        equal(P, have["timesteps"], x["timesteps_per_period"], "steps of a typical period")


def period_years(es, periods):
    P = "C19 C08 C09"
    n = len(periods)
    equal(P, len(es.periods), n, "number of periods")
    equal(P, len(es.periods_years), n, "number of start years")
    for p in range(n):
        equal(P, es.periods_years[p], year(start(periods[p])) - year(start(periods[0])),
              "start year of a period")
        equal(P, es.get_period_duration(p),
              year(stop(periods[p])) - year(start(periods[p])) + 1, "duration of a period")
        for q in range(n):
            equal(P, es.periods_matrix[p, q],
                  max(year(start(periods[q])) - year(start(periods[p])), 0),
                  "years between two periods")
    equal(P, es.end_year_of_optimization,
          year(stop(periods[n - 1])) - year(start(periods[0])) + 1, "end of the optimisation")


def time_index(r, year=None, interval=1, number=None, start=None):
    """index of `number` equal intervals (default: of the whole year)"""
    P = "C19"
    rejects(P, start is not None and year is not None, "start and year")
    returned()
    if start is None:
        first_ = new_year(year)
    else:
        first_ = start
    holds(P, r[0] == first_, "first point of the time index")
    length = hours(r)
    if number is None:
        whole = year_hours(year)
        holds(P, 2 * (len(length) - whole / interval) <= 1, "index not longer than the year")
        holds(P, 2 * (whole / interval - len(length)) <= 1, "index covers the year")
    else:
        holds(P, len(length) == number, "number of intervals")
    for d in length:
        equal(P, d, interval, "length of the intervals")
