"""Callee contracts used at call sites (checked on the callees by their own
units)."""

from . import terms as tm
from .interp import LamSeq, U


def valid_sequence(it, a, k):
    """_plumbing.valid_sequence(sequence, length) -> sequence is not None.
    Requires: the sequence is None, scalar-like, or at least `length` long."""
    s = a[0]
    return it.pybool(tm.not_(it.is_(it.simp(s), None, None)))


def element(it, x, t):
    """value of a number-or-series parameter at t"""
    x = it.simp(x)
    if isinstance(x, U):
        return it.lift(lambda y: element(it, y, t), x)
    if hasattr(x, "at") and not isinstance(x, tm.T):
        return x.at(it.term(t))
    if isinstance(x, (int, float, tm.T)):
        return x
    it.unsupported("element of %r" % (x,))


def sequence(it, a, k):
    """_plumbing.sequence(x): element t of the result is x if x is a number
    and element t of x if x is a series; None stays None"""
    def one(x):
        if x is None or isinstance(x, str):
            return x
        if isinstance(x, (int, float, tm.T)):
            return LamSeq(tm.fresh("k", "I"), x)
        if hasattr(x, "at"):
            return x
        it.unsupported("sequence(%r)" % (x,))
    if len(a) > 1 or k:
        it.unsupported("sequence with a length")
    return it.lift(one, it.simp(a[0]))


CONTRACTS = {"oemof.solph._plumbing.valid_sequence": valid_sequence,
             "oemof.solph._plumbing.sequence": sequence}
