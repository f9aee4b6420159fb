"""Contracts of _plumbing: parameters given as number or as series.

A number behaves like the series that has this value everywhere, a series is
used element by element, nothing stays nothing."""


def sequence(result, x, t, length=None):
    """t: an arbitrary step of the series"""
    if is_series(x):
        rejects("C20", length is not None and length != len(x),
                "series of another length")
    returned()
    if is_series(x):
        equal("C20", len(result), len(x), "length of a series")
        equal("C20", result[t], at(x, t), "element of a series")
    else:
        if x is None:
            holds("C20", result is None, "nothing stays nothing")
        else:
            equal("C20", result[t], x, "every element of a constant series")
            equal("C20", result.size, length, "size of a constant series")


def constant(s, value, length, t):
    """s is the series that has `value` at each of `length` steps (no length:
    at every step)"""
    equal("C20", s[t], value, "element of a constant series")
    equal("C20", s.value, value, "value of a constant series")
    equal("C20", s.min(), value, "minimum of a constant series")
    equal("C20", s.max(), value, "maximum of a constant series")
    equal("C20", s.size, length, "size of a constant series")
    if length is not None:
        equal("C20", len(s), length, "length of a constant series")
        equal("C20", s.sum(), length * value, "sum of a constant series")


def items(have, number_of, value, length):
    """have: the items of a constant series of that length"""
    equal("C20", number_of, length, "number of items")
    for x in have:
        equal("C20", x, value, "item of a constant series")


def as_array(result, value, length, wanted, t):
    """constant series as array, of the wanted length if there is one"""
    rejects("C20", length is None and wanted is None, "array of unknown length")
    returned()
    n = length if wanted is None else wanted
    equal("C20", len(result), n, "length of an array")
    if t < n:
        equal("C20", result[t], value, "element of an array")


def scaled(result, value, factor, length, t):
    """a constant series times a number (from either side)"""
    constant(result, value * factor, length, t)


def divided(result, value, divisor, length, t):
    rejects("C20", divisor == 0, "division by zero")
    returned()
    constant(result, value / divisor, length, t)


def scaled_by_series(result, value, factors, length, t):
    rejects("C20", length is not None and length != len(factors),
            "series of another length")
    returned()
    equal("C20", len(result), len(factors), "length of a product")
    equal("C20", result[t], value * at(factors, t), "element of a product")


def valid(result, x, size, length):
    """x can be used for `length` steps; size: the size it had before"""
    if x is not None and is_series(x):
        rejects("C20", size < length, "series that is too short")
    returned()
    if x is None:
        holds("C20", not result, "nothing is no series")
    else:
        if is_series(x):
            holds("C20", result, "series that is long enough")
        else:
            # a number fits every horizon
            if size is None or size == length:
                holds("C20", result, "constant series fits the horizon")
                equal("C20", x.size, length, "size of a constant series")
            else:
                holds("C20", result,
                      "constant series that was used with another horizon before")
