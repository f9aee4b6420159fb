"""Units: lemmas that connect the constraints demanded by the contracts to the
statements of the properties (contracts/lemmas.py)."""

from . import terms as tm
from .units import UNITS, Unit


def lemma(fn, props, *args):
    def setup(w, run):
        return lambda it: None, lambda r: [tm.var("lemma:" + a, s) for a, s in args]
    UNITS["lemma." + fn] = Unit("lemma." + fn, props, setup, "lemmas.py", fn, lambda o: props[0], [])


R, I = "R", "I"
lemma("product", ["C12"], ("on", I), ("invest", R), ("maximum", R), ("y", R))
lemma("switched", ["C10", "C12"], ("on", I), ("flow", R), ("low", R), ("high", R), ("y", R), ("capacity", R))
lemma("indicators", ["C10"], ("on", I), ("before", I), ("startup", I), ("shutdown", I))
lemma("window", ["C10"], ("total", I), ("k", I), ("on", I))
lemma("minimum_time", ["C10"], ("on", I), ("before", I), ("up", I), ("total", I))
lemma("minimum_pause", ["C10"], ("on", I), ("before", I), ("down", I), ("total", I))
lemma("gradient", ["C04"], ("now", R), ("last", R), ("rise", R), ("fall", R), ("up", R), ("down", R))
lemma("built", ["C07", "C12", "C16"], ("invest", R), ("status", I), ("low", R), ("high", R))
lemma("by_level", ["C18"], ("content", R), ("level", R), ("flag", I), ("flow", R))
lemma("capacity_history", ["C08"], ("total", R), ("before", R), ("invest", R), ("old", R), ("built", R),
      ("retired", R))
