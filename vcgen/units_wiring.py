"""Units: how the model puts its parts together."""

from . import inputs as inp, terms as tm
from .data import FlowsMap, Periods, Schema, SymSeqLen, NT, World
from .interp import (Builtin, ClassVal, ExcVal, Fam, Inst, MISSING, Maybe, NativeClass, Obj, Seq, U)
from .terms import TRUE
from .units import UNITS, Unit

MODELS = "oemof.solph._models"
STANDARD = ("BusBlock", "ConverterBlock", "InvestmentFlowBlock", "SimpleFlowBlock",
            "NonConvexFlowBlock", "InvestNonConvexFlowBlock")


def class_key(c):
    return tm.var("class:" + c.name, "N")


class GroupKey:
    """key of a group of the energy system: perhaps the class of a block"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, GroupKey) and o.x is self.x

    def __hash__(self):
        return hash(self.x)

    def subst(self, m):
        return GroupKey(tm.subst(self.x, m))

    def truth(self, it):
        return TRUE

    def eq_(self, it, a, b):
        k = []
        for v in (a, b):
            if isinstance(v, GroupKey):
                k.append(v.x)
            elif isinstance(v, ClassVal):
                k.append(class_key(v))
            else:
                it.unsupported("comparison of the key of a group")
        return tm.eq(*k)

    def attr(self, it, name):
        if name == "CONSTRAINT_GROUP":
            c = tm.app("is_block", (self.x,), "B")
            return U([(c, True), (tm.not_(c), MISSING)])
        return MISSING

    def call(self, it, a, k):
        if a or k:
            it.unsupported("arguments of the class of a block")
        o = Inst(self.cls(it))
        it.setattr_(o, "kind", self)
        it.setattr_(o, "_create", Builtin("_create", lambda i, a, k: i._record(i, [o] + list(a), k)))
        o.is_block = True
        return o

    @staticmethod
    def cls(it):
        if not hasattr(it, "_user_block"):
            it._user_block = ClassVal("UserBlock", [it.models["pyomo.core"].attrs["ScalarBlock"]], {}, None)
        return it._user_block


class Groups:
    """es.groups"""

    def iterate(self, it):
        x = tm.fresh("g", "N")
        return Seq([Fam((x,), tm.app("isgroup", (x,), "B"), GroupKey(x))])

    def truth(self, it):
        it.unsupported("truth of the groups")

    def key(self, it, v):
        if isinstance(v, GroupKey):
            return v.x
        if isinstance(v, ClassVal):
            return class_key(v)
        it.unsupported("key of a group")

    def getitem(self, it, k):
        def f(v):
            x = self.key(it, v)
            it.raise_if(tm.not_(tm.app("isgroup", (x,), "B")), ExcVal("KeyError"))
            return Obj("Group", (x,))
        return it.lift(f, k)

    def attr(self, it, name):
        if name == "get":
            def get(i, a, k):
                def f(v):
                    x = self.key(i, v)
                    return i.merge(tm.app("isgroup", (x,), "B"), Obj("Group", (x,)),
                                   a[1] if len(a) > 1 else None)
                return i.lift(f, a[0])
            return Builtin(name, get)
        if name == "keys":
            return Builtin(name, lambda i, a, k: self.iterate(i))
        if name == "items":
            def items(i, a, k):
                x = tm.fresh("g", "N")
                return Seq([Fam((x,), tm.app("isgroup", (x,), "B"), (GroupKey(x), Obj("Group", (x,))))])
            return Builtin(name, items)
        return MISSING


def s_init(single):
    def setup(w, run):
        it = w.it
        it.naming = True
        th = it.theory
        sc = it.schema["EnergySystem"]
        it.schema["Group"] = Schema("Group", {})
        groups, flows, dt = Groups(), FlowsMap(), SymSeqLen("dt", NT)
        sc.fields.update(groups=("val", lambda i, o: groups), timeincrement=("val", lambda i, o: dt),
                         periods=("const", None) if single else ("val", lambda i, o: Periods()))
        sc.methods["flows"] = lambda i, o: Builtin("flows", lambda ii, a, k: flows)
        it.models["logging"].attrs["getLogger"] = Builtin(
            "getLogger", lambda i, a, k: root)
        root = Inst(NativeClass("Logger"))
        root.slots["level"] = 30
        mod = it.load(MODELS)
        mod.attrs["getLogger"] = it.models["logging"].attrs["getLogger"]
        cls = mod.attrs["Model"]
        standard = []
        for p, c in (("oemof.solph.buses._bus", STANDARD[0]),
                     ("oemof.solph.components._converter", STANDARD[1]),
                     ("oemof.solph.flows._investment_flow_block", STANDARD[2]),
                     ("oemof.solph.flows._simple_flow_block", STANDARD[3]),
                     ("oemof.solph.flows._non_convex_flow_block", STANDARD[4]),
                     ("oemof.solph.flows._invest_non_convex_flow_block", STANDARD[5])):
            standard.append(it.load(p).attrs[c])
        created = it.mklist([])

        def record(i, a, k):
            b = a[0]
            g = k.get("group", a[1] if len(a) > 1 else None)
            kind = b.slots["kind"] if "kind" in b.slots else b.cls
            i.list_extend(created, Seq([Fam((), TRUE, (kind, g))]))
        for c in standard:
            it.contracts[c.find("_create")[0].qual] = record
        it._record = record
        nothing = lambda i, a, k: None
        for f in ("_add_parent_block_sets", "_add_parent_block_variables", "_add_objective"):
            it.contracts[cls.find(f)[0].qual] = nothing
        x = tm.fresh("u", "N")
        # classes the user gives are neither standard nor those of groups
        new = lambda y: tm.and_(tm.not_(tm.app("isgroup", (y,), "B")),
                                *[tm.not_(tm.eq(y, class_key(c))) for c in standard])
        th.axiom("user_block", lambda y: tm.implies(tm.app("user_block", (y,), "B"), new(y)))
        for i, c in enumerate(standard):
            for d in standard[:i]:
                th.facts.append(tm.not_(tm.eq(class_key(c), class_key(d))))
        user = it.mklist([Fam((x,), tm.app("user_block", (x,), "B"), GroupKey(x))])
        kw = {
            "timeincrement": Maybe(tm.var("has:timeincrement", "B"), inp.choice(
                "timeincrement", none=None, given=inp.series(it, "inc"),
                array=inp.NdSeq(inp.series(it, "array")))),
            "objective_weighting": Maybe(tm.var("has:weighting", "B"), inp.series(it, "weighting")),
            "constraint_groups": Maybe(tm.var("has:groups", "B"), user),
            "discount_rate": Maybe(tm.var("has:rate", "B"), inp.choice(
                "rate", none=None, given=tm.var("rate", "R"))),
            "auto_construct": Maybe(tm.var("has:auto", "B"), tm.var("auto", "B"))}
        return (lambda i: i.call(cls, [w.es], dict(kw))), lambda r: (
            [r, w.es, created, it.mklist([Fam((), TRUE, c) for c in standard])], kw)
    return setup


for single in (True, False):
    uid = "Model.init." + ("single" if single else "multi")
    UNITS[uid] = Unit(uid, ["C19", "C21", "C06", "C09"], s_init(single), "wiring.py", "model_init", lambda o: "C21",
                      [MODELS + ".Model." + f for f in ("__init__", "_construct", "_add_child_blocks",
                                                        "_set_discount_rate_with_warning")],
                      world={"single": single}, callees={})


class Components:
    """what component_data_objects() gives: blocks and other components"""

    def iterate(self, it):
        x = tm.fresh("b", "N")
        return Seq([Fam((x,), tm.app("component", (x,), "B"), Obj("Component", (x,)))])


def s_objective(w, run):
    it = w.it
    it.naming = True

    def value(i, o):
        def f(ii, a, k):
            if a or k:
                ii.unsupported("arguments of _objective_expression")
            return tm.app("costs", o.key, "R")
        c = tm.app("has:costs", o.key, "B")
        return U([(c, Builtin("_objective_expression", f)), (tm.not_(c), MISSING)])
    it.schema["Component"] = Schema("Component", {"_objective_expression": ("val", value)})
    parts = Components()
    w.m.slots["component_data_objects"] = Builtin("component_data_objects", lambda i, a, k: parts)
    update = tm.var("update", "B")

    def cargs(r):
        o = it.getattr_(w.m, "objective")
        return [w.m, it.getattr_(o, "expr"), it.getattr_(o, "sense"), parts]
    return (lambda i: i.call(i.getattr_(w.m, "_add_objective"), [], {"update": update})), cargs


UNITS["Model.objective"] = Unit(
    "Model.objective", ["C06", "C09", "C11"], s_objective, "wiring.py", "objective", lambda o: "C06",
    [MODELS + ".Model._add_objective"], callees={})
