"""Symbolic evaluator for the Python subset the verified functions are
written in.

The evaluator works on the AST of the files in the repository's working tree;
nothing is transcribed.  Control flow joins are expressed with guarded values,
a loop over a symbolic index set is executed once for a generic element, and
what it does to every mutable slot is summarised with the (checked) inductive
invariant  slot = slot0 + Sum_{elements seen} delta  -- anything that does not
fit is reported as `Unsupported` and leaves the obligation undecided.
"""

import ast
import os
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import FALSE, TRUE, T, Z


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the current path has ended"""


class Poison:
    def __init__(self, why):
        self.why = why


class Undef:
    pass


UNDEF = Undef()


class U:
    """guarded union of values"""

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return "U" + repr(self.cases)


class Fam:
    """{ value | binders satisfying guard }"""

    __slots__ = ("binders", "guard", "value")

    def __init__(self, binders, guard, value):
        self.binders = tuple(binders)
        self.guard = guard
        self.value = value

    def __repr__(self):
        return "Fam(%s|%s: %r)" % (self.binders, self.guard, self.value)


class Seq:
    """immutable iterable (set / tuple-like / generator result)"""

    kind = "seq"

    def __init__(self, parts, rng=None, dimen=None):
        self.slots = {"parts": tuple(parts)}
        self.rng = rng          # (lo, hi) for an ordered integer range
        self.dimen = dimen
        self.locked = False
        self.base = TRUE
        self.meta = {}

    @property
    def parts(self):
        if self.locked:
            raise Unsupported("list read inside the loop that grows it")
        return self.slots["parts"]

    def concrete(self):
        return all(not p.binders and p.guard is TRUE for p in self.parts)

    def values(self):
        return [p.value for p in self.parts]

    def __repr__(self):
        return "Seq%r" % (self.slots["parts"],)


class SList(Seq):
    kind = "list"


class FamList:
    """one of a family of lists, all of them kept as pairs (key, value)"""

    def __init__(self, pairs, key):
        self.pairs, self.key = pairs, key

    def subst(self, m):
        return FamList(self.pairs, tm.subst(self.key, m))

    def iterate(self, it):
        out = []
        for p in self.pairs.parts:
            bs, g, (k, v) = it.generic(p)
            r = it.solve_match(bs, k, self.key, None)
            if r is None:
                it.unsupported("member of a family of lists")
            c, m = r
            g = tm.and_(tm.subst(g, m), c)
            if g is not FALSE:
                out.append(Fam([b for b in bs if b not in m], g, subst_value(v, m)))
        return Seq(out)

    def getitem(self, it, ix):
        return it.getitem(self.iterate(it), ix)

    def length(self, it):
        return it.length(self.iterate(it))

    def attr(self, it, name):
        if name == "append":
            return Builtin("append", lambda i, a, k: i.call(
                i.getattr_(self.pairs, "append"), [(self.key, a[0])], {}))
        if name == "extend":
            def f(i, a, k):
                s = i.lift_iter(a[0], None)
                i.list_extend(self.pairs, Seq([Fam(p.binders, p.guard, (self.key, p.value))
                                               for p in s.parts]))
            return Builtin("extend", f)
        return MISSING


class Entry:
    __slots__ = ("kind", "binders", "guard", "key", "value")

    def __init__(self, kind, binders, guard, key, value):
        self.kind, self.binders, self.guard = kind, tuple(binders), guard
        self.key, self.value = key, value

    def __repr__(self):
        return "Entry(%s %s|%s: %r->%r)" % (
            self.kind, self.binders, self.guard, self.key, self.value)


class SDict:
    def __init__(self, entries=(), default=None, base=TRUE):
        self.slots = {"entries": tuple(entries)}
        self.default = default
        self.base = base
        self.open = None     # list of (key, H) while in a loop that writes it

    @property
    def entries(self):
        return self.slots["entries"]


class Env:
    def __init__(self, parent, base):
        self.vars = {}
        self.parent = parent
        self.base = base
        self.globals_ = set()
        self.nonlocals = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


class Closure:
    def __init__(self, node, env, module, qual, cls=None):
        self.node, self.env, self.module = node, env, module
        self.qual, self.cls = qual, cls
        self.defaults = None
        self.kwdefaults = None
        self.decorators = []

    def __repr__(self):
        return "<closure %s>" % self.qual


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ClassVal:
    def __init__(self, name, bases, env, module):
        self.name, self.bases, self.module = name, bases, module
        self.ns = env
        self.base = TRUE

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class NativeClass:
    """a class of a library, known by name only"""

    def __init__(self, name, ctor=None, bases=()):
        self.name, self.ctor, self.bases = name, ctor, bases

    def __repr__(self):
        return "<native class %s>" % self.name


class Slots(dict):
    """attributes of an object; born: order of creation"""
    count = 0

    def __init__(self):
        Slots.count += 1
        self.born = Slots.count


class Inst:
    def __init__(self, cls, base=TRUE):
        self.cls = cls
        self.slots = Slots()
        self.base = base
        self.hook = None     # fn(interp, inst, name) -> value or None

    def __repr__(self):
        return "<%s instance>" % getattr(self.cls, "name", self.cls)


class Obj:
    """symbolic data object described by a schema (the data invariant)"""

    __slots__ = ("kind", "key", "slots", "base")

    def __init__(self, kind, key, base=TRUE):
        self.kind, self.key = kind, tuple(key)
        self.slots = {}
        self.base = base

    def __eq__(self, o):
        return isinstance(o, Obj) and o.kind == self.kind and o.key == self.key

    def __hash__(self):
        return hash((self.kind, self.key))

    def __repr__(self):
        return "%s(%s)" % (self.kind, ",".join(map(str, self.key)))


class SymSeq:
    """a parameter sequence: indexable by any integer term"""

    __slots__ = ("name", "key", "sort")

    def __init__(self, name, key, sort="R"):
        self.name, self.key, self.sort = name, tuple(key), sort

    def __eq__(self, o):
        return isinstance(o, SymSeq) and (o.name, o.key) == (self.name, self.key)

    def __hash__(self):
        return hash((self.name, self.key))

    def at(self, t):
        return tm.app(self.name, self.key + (t,), self.sort)

    def __repr__(self):
        return "SymSeq(%s)" % self.name


class ModuleVal:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class Opaque:
    """library object that is never inspected (warning categories, ...)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s(%s)" % (self.cls, ",".join(map(str, self.args)))


class Rel:
    """Pyomo relational expression lhs (<=|==|>=) rhs"""

    def __init__(self, op, lhs, rhs):
        self.op, self.lhs, self.rhs = op, lhs, rhs

    def row(self):
        if self.op == "==":
            return ("==", tm.sub(self.lhs, self.rhs))
        if self.op == "<=":
            return ("<=", tm.sub(self.lhs, self.rhs))
        return ("<=", tm.sub(self.rhs, self.lhs))

    def __repr__(self):
        return "%s %s %s" % (self.lhs, self.op, self.rhs)


DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv"}


class Row:
    __slots__ = ("kind", "expr", "guard", "owner", "tag", "where", "binders")

    def __init__(self, kind, expr, guard, owner, tag=None, where=None, binders=()):
        self.kind, self.expr, self.guard = kind, expr, guard
        self.owner, self.tag, self.where = owner, tag, where
        self.binders = tuple(binders)

    def __repr__(self):
        return "[%s] %s %s 0   when %s" % (self.owner, self.expr, self.kind, self.guard)


class Effect:
    """anything else the code does to the model: bounds, fixing, domains"""

    __slots__ = ("kind", "target", "args", "guard", "binders", "where")

    def __init__(self, kind, target, args, guard, binders, where=None):
        self.kind, self.target, self.args = kind, target, tuple(args)
        self.guard, self.binders, self.where = guard, tuple(binders), where

    def __repr__(self):
        return "%s(%s; %s) when %s" % (self.kind, self.target, self.args, self.guard)


EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception",
    "TypeError": "Exception", "ValueError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "ZeroDivisionError": "Exception", "AssertionError": "Exception",
    "StopIteration": "Exception", "Exception": "BaseException",
    "NameError": "Exception", "UnboundLocalError": "NameError",
    "BaseException": None,
    "LoggingError": "Exception", "UserWarning": "Warning",
    "FutureWarning": "Warning", "DeprecationWarning": "Warning",
    "Warning": "Exception",
}


def exc_isinstance(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENTS.get(name, None)
    return False


class Frame:
    def __init__(self, fn, env, module):
        self.fn, self.env, self.module = fn, env, module
        self.returns = []
        self.loops = []


class Theory:
    """background facts, instantiated on the terms occurring in a query"""

    def __init__(self):
        self.pairs = []       # (name, name, callable(args, args) -> T)
        self.axioms = {}      # function name -> [callable(args) -> T]
        self.facts = []       # global facts (preconditions)

    def axiom(self, fname, fn):
        self.axioms.setdefault(fname, []).append(fn)

    def pair(self, f, g, fn):
        """a fact about every pair of applications f(..), g(..)"""
        self.pairs.append((f, g, fn))

    def instances(self, ts):
        """facts about the terms in ts"""
        out = []
        seen = set()
        done = set()
        facts = [tm.witness(f) for f in self.facts]
        todo = list(ts) + facts
        apps = {n: [] for p in self.pairs for n in p[:2]}
        out.extend(facts)
        rounds = 0
        while todo and rounds < 6:
            rounds += 1
            new = []
            for t in todo:
                for s in tm.walk(t, seen):
                    if s.op == "f" and (s.args[0] in self.axioms or s.args[0] in apps):
                        if s in done:
                            continue
                        done.add(s)
                        if any(v.args[0].startswith("@") for v in s.fv):
                            continue
                        for ax in self.axioms.get(s.args[0], ()):
                            f = tm.witness(ax(*s.args[1:]))
                            if f is not None and f is not TRUE:
                                new.append(f)
                        if s.args[0] in apps:
                            apps[s.args[0]].append(s)
                            for a, b, ax in self.pairs:
                                for x, y in ([(s, z) for z in apps[b]] if s.args[0] == a else []) + (
                                        [(z, s) for z in apps[a] if z is not s] if s.args[0] == b else []):
                                    f = tm.witness(ax(x.args[1:], y.args[1:]))
                                    if f is not None and f is not TRUE:
                                        new.append(f)
            out.extend(new)
            todo = new
        return out


class Solver:
    def __init__(self, theory):
        self.theory = theory
        self.cache = {}
        self.timeout = 4000
        self.n = 0
        self.time = 0.0
        self.unknown = 0
        self.log = None

    def check(self, asserts):
        key = frozenset(a for a in asserts if a is not TRUE)
        if FALSE in key:
            return "unsat"
        r = self.cache.get(key)
        if r is not None:
            return r
        asserts = sorted((tm.witness(a) for a in key), key=lambda a: a.key)
        facts = self.theory.instances(asserts)
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for a in asserts:
            s.add(Z.cv(a))
        for f in facts:
            s.add(Z.cv(f))
        t0 = time.time()
        r = str(s.check())
        dt = time.time() - t0
        self.time += dt
        self.n += 1
        if dt > 1 and os.environ.get("VSLOW"):
            print("SLOW", round(dt, 1), r, "; ".join(str(a)[:300] for a in key))
        if r == "unknown":
            self.unknown += 1
        if self.log is not None:
            self.log.append((s.to_smt2(), r))
        self.cache[key] = r
        return r

    def entails(self, pc, c):
        """pc |= c"""
        if c is TRUE:
            return True
        cs = tm.conj(pc)
        if c in cs:
            return True
        if all(x in cs for x in tm.conj(c)):
            return True
        return self.check(tuple(cs) + (tm.not_(c),)) == "unsat"

    def infeasible(self, pc):
        if pc is FALSE:
            return True
        return self.check(tm.conj(pc)) == "unsat"


def flat_index(ix):
    out = []
    for v in ix if isinstance(ix, tuple) else (ix,):
        if isinstance(v, tuple):
            out.extend(flat_index(v))
        else:
            out.append(v)
    return tuple(out)


def absent(o, name):
    """the modelled object certainly has no such attribute (a model lists
    only part of the attributes of what it stands for)"""
    if isinstance(o, (Inst, ClassVal)) or o is None:
        return True
    if name in getattr(o, "ABSENT", ()):
        return True
    t = getattr(o, "PYTYPE", None)
    if t is None:
        if isinstance(o, SDict):
            t = dict
        elif isinstance(o, tuple):
            t = tuple
        elif isinstance(o, (str, SymStr)):
            t = str
        elif isinstance(o, bool) or isinstance(o, T) and o.sort == "B":
            t = bool
        elif isinstance(o, int):
            t = int
        elif isinstance(o, float) or isinstance(o, T) and o.sort in "RI":
            t = float
    return t is not None and name not in dir(t)


class Interp:
    def __init__(self, repo_src, theory, env_models):
        self.spec_mode = False
        self.bounds = False     # reading beyond the end of a series is an IndexError
        self.heap = {}
        self.src = repo_src
        self.theory = theory
        self.solver = Solver(theory)
        self.pc = TRUE
        self.binders = ()
        self.rows = []
        self.effects = []
        self.exc_stack = [[]]
        self.frames = []
        self.journal = None
        self.modules = {}
        self.mod_ast = {}
        self.models = env_models     # library module models
        self.invariants = {}         # qualname -> proposal of loop invariants
        self.inverses = {}           # function name -> witness for its last argument
        self.contracts = {}          # qualname -> python callable(interp, args, kwargs)
        self.called_contracts = set()
        self.executed = {}           # qualname -> count
        self.var_names = set()       # function symbols that are decision variables
        self.schema = {}             # kind -> callable(interp, obj, attr) -> value
        self.comp_owner = None
        self.warned = []
        self.depth = 0
        self.lits = {}
        self.notes = []
        self.where = None
        self.steps = 0
        self.layers = []
        self.naming = False          # abbreviate large conditions
        self.check_div = False       # divisors may be zero
        self.names = {}

    # ------------------------------------------------------------- modules
    def load(self, dotted):
        """symbolically import a repository module"""
        if dotted in self.modules:
            return self.modules[dotted]
        rel = dotted.replace(".", os.sep)
        path = os.path.join(self.src, rel + ".py")
        pkg = False
        if not os.path.exists(path):
            path = os.path.join(self.src, rel, "__init__.py")
            pkg = True
        if not os.path.exists(path):
            raise Unsupported("no module %s" % dotted)
        return self.load_source(dotted, open(path).read(), path, pkg)

    def load_source(self, dotted, text, path="<string>", pkg=False):
        tree = ast.parse(text, path)
        env = Env(None, TRUE)
        mod = ModuleVal(dotted, env.vars)
        mod.env = env
        mod.path = path
        mod.pkg = pkg
        self.modules[dotted] = mod
        env.vars["__name__"] = dotted
        save = (self.pc, self.binders, self.journal)
        self.pc, self.binders, self.journal = TRUE, (), None
        fr = Frame(None, env, mod)
        self.frames.append(fr)
        for st in tree.body:
            try:
                self.stmt(st)
            except Unsupported as e:
                self.notes.append("module %s line %d: %s" % (dotted, st.lineno, e))
            except Dead:
                self.pc = TRUE
        self.frames.pop()
        self.pc, self.binders, self.journal = save
        return mod

    def import_module(self, dotted):
        if dotted in self.models:
            return self.models[dotted]
        if dotted.startswith("oemof.solph"):
            return self.load(dotted)
        if dotted in ("oemof",):
            return ModuleVal("oemof", {})
        return ModuleVal(dotted, {})

    def module_attr(self, mod, name):
        if name in mod.attrs:
            return mod.attrs[name]
        if mod.name.startswith("oemof.solph") and getattr(mod, "pkg", False):
            try:
                return self.load(mod.name + "." + name)
            except Unsupported:
                pass
        if mod.name.startswith("oemof.solph"):
            return None
        full = mod.name + "." + name
        if full in self.models:
            return self.models[full]
        return Opaque(full)

    # ---------------------------------------------------------- small utils
    def unsupported(self, msg, node=None):
        ln = getattr(node, "lineno", None)
        fr = self.frames[-1] if self.frames else None
        w = ""
        if fr is not None and fr.module is not None:
            w = os.path.basename(getattr(fr.module, "path", "?"))
        raise Unsupported("%s [%s:%s]" % (msg, w, ln if ln else self.where))

    def lit(self, v):
        """a string / arbitrary constant as a term of sort S"""
        return tm.T("c", ("s:" + v,), "S")

    def rel_cond(self, base):
        """conjuncts of pc beyond base"""
        b = set(tm.conj(base))
        return tm.and_(*[c for c in tm.conj(self.pc) if c not in b])

    def with_pc(self, c):
        return tm.and_(self.pc, c)

    def decide(self, c):
        if c is TRUE or c is True:
            return True
        if c is FALSE or c is False:
            return False
        if self.solver.entails(self.pc, c):
            return True
        if self.solver.entails(self.pc, tm.not_(c)):
            return False
        return None

    def simp(self, v):
        """prune a value under the current path condition"""
        if isinstance(v, U):
            out = []
            for g, x in v.cases:
                d = self.quick(g)
                if d is False:
                    continue
                if d is True:
                    return x
                out.append((g, x))
            if len(out) > 1:
                o2 = []
                for g, x in out:
                    if not self.solver.infeasible(self.with_pc(g)):
                        o2.append((g, x))
                out = o2
            if len(out) == 1:
                return out[0][1]
            if not out:
                raise Dead()
            return U(out)
        if isinstance(v, T):
            return self.simp_t(v)
        return v

    def quick(self, g):
        """syntactic decision of g under pc"""
        cs = set(tm.conj(self.pc))
        und = False
        for c in tm.conj(g):
            if c in cs:
                continue
            if tm.neg_of(c) in cs or tm.not_(c) in cs:
                return False
            und = True
        return None if und else True

    def simp_t(self, t):
        n = 0
        while t.op == "ite" and n < 20:
            n += 1
            c = t.args[0]
            d = self.quick(c)
            if d is None:
                d = self.decide(c)
            if d is True:
                t = t.args[1]
            elif d is False:
                t = t.args[2]
            else:
                break
        return t

    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if b is UNDEF and not isinstance(a, U):
            return U([(c, a), (tm.not_(c), UNDEF)])
        ta, tb = self.maybe_term(a), self.maybe_term(b)
        if ta is not None and tb is not None:
            if ta.sort == tb.sort or (tm.is_num_sort(ta.sort)
                                      and tm.is_num_sort(tb.sort)):
                return self.unterm(tm.ite(c, ta, tb))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if self.same(a, b):
            return a
        cases = []
        for g0, v in ((c, a), (tm.not_(c), b)):
            for g, x in (v.cases if isinstance(v, U) else [(TRUE, v)]):
                gg = tm.and_(g0, g)
                if gg is FALSE:
                    continue
                for k, (h, y) in enumerate(cases):
                    if self.same(x, y):
                        cases[k] = (tm.or_(h, gg), y)
                        break
                else:
                    cases.append((gg, x))
        if len(cases) == 1:
            return cases[0][1]
        return U(cases)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            return False
        if isinstance(a, (U, Seq, SDict)) or isinstance(b, (U, Seq, SDict)):
            return False
        try:
            return type(a) is type(b) and bool(a == b)
        except TypeError:
            return False

    def maybe_term(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, bool):
            return tm.boolc(v)
        if isinstance(v, (int, float, Fraction)):
            return tm.num(v)
        return None

    def unterm(self, t):
        return t

    def term(self, v, node=None):
        """numeric term of a value"""
        v = self.simp(v)
        if isinstance(v, T):
            return v
        r = self.maybe_term(v)
        if r is not None:
            return r
        h = getattr(v, "as_term", None)
        if h is not None:
            return h()
        if isinstance(v, U):
            return self.term(self.lift(lambda x: self.term(x), v))
        if v is None:
            self.raise_(ExcVal("TypeError", ("None in arithmetic",)))
        self.unsupported("not a number: %r" % (v,), node)

    def cases(self, v):
        v = self.simp(v)
        if isinstance(v, U):
            return v.cases
        return [(TRUE, v)]

    def lift(self, f, *vs):
        """apply f to every combination of union cases and merge"""
        vs = [self.simp(v) for v in vs]
        if not any(isinstance(v, U) for v in vs):
            return f(*vs)
        combos = [(TRUE, ())]
        for v in vs:
            nxt = []
            for g, acc in combos:
                for h, x in (v.cases if isinstance(v, U) else [(TRUE, v)]):
                    gh = tm.and_(g, h)
                    if gh is FALSE:
                        continue
                    nxt.append((gh, acc + (x,)))
            combos = nxt
        pc0 = self.pc
        results = []
        pcs = []
        for g, args in combos:
            self.pc = tm.and_(pc0, g)
            if self.pc is FALSE or self.solver.infeasible(self.pc):
                continue
            try:
                r = f(*args)
            except Dead:
                continue
            pcs.append(self.pc)
            results.append((g, r))
        if not results:
            self.pc = FALSE
            raise Dead()
        self.pc = self.join(pc0, pcs)
        out = results[-1][1]
        for g, r in reversed(results[:-1]):
            out = self.merge(g, r, out)
        return out

    def join(self, pc0, pcs):
        pcs = [p for p in pcs if p is not FALSE]
        if not pcs:
            return FALSE
        if len(pcs) == 1:
            # keep exactly what survived
            p = pcs[0]
            if p is pc0:
                return pc0
            if self.solver.entails(pc0, p):
                return pc0
            return p
        base = set(tm.conj(pc0))
        rels = [tm.and_(*[c for c in tm.conj(p) if c not in base]) for p in pcs]
        r = tm.or_(*rels)
        if r is TRUE:
            return pc0
        r = self.named(r)
        if self.solver.entails(pc0, r):
            return pc0
        return tm.and_(pc0, r)

    # --------------------------------------------------------------- slots
    def setslot(self, cont, key, value, base):
        d = cont
        had = key in d
        old = d.get(key, UNDEF)
        if self.layers:
            lay = self.layers[-1]
            if len(tm.conj(lay["base"])) > len(tm.conj(base)):
                if (id(d), key) not in lay["saved"]:
                    lay["saved"][(id(d), key)] = (d, key, had, old, base)
                base = lay["base"]
        if self.journal is not None:
            self.journal.append((d, key, had, old))
        c = self.rel_cond(base)
        if c is TRUE or (not had and isinstance(value, (Closure,))):
            d[key] = value
        else:
            if isinstance(old, Poison):
                old = UNDEF
            d[key] = self.merge(c, value, old)

    def rawset(self, d, key, value):
        had = key in d
        old = d.get(key, UNDEF)
        if self.journal is not None:
            self.journal.append((d, key, had, old))
        d[key] = value

    # ---------------------------------------------------------------- names
    def getname(self, name, node=None):
        fr = self.frames[-1]
        e = fr.env.lookup(name)
        if e is not None:
            v = e.vars[name]
        else:
            mod = fr.module
            if mod is not None and name in mod.attrs:
                v = mod.attrs[name]
            elif name in self.models["builtins"].attrs:
                v = self.models["builtins"].attrs[name]
            elif name in EXC_PARENTS:
                return NativeClass(name)
            else:
                self.unsupported("unknown name %s" % name, node)
        v = self.simp(v)
        if isinstance(v, Poison):
            self.unsupported("value of %r after a loop: %s" % (name, v.why), node)
        if v is UNDEF:
            self.raise_(ExcVal("UnboundLocalError", (name,)))
        if isinstance(v, U) and any(x is UNDEF for _, x in v.cases):
            self.raise_if(tm.or_(*[g for g, x in v.cases if x is UNDEF]),
                          ExcVal("UnboundLocalError", (name,)))
            v = self.simp(U([(g, x) for g, x in v.cases if x is not UNDEF]))
        return self.known(v, name, node)

    def known(self, v, name, node):
        """drop the cases in which a loop left an unknown value"""
        if isinstance(v, U) and any(isinstance(x, Poison) for _, x in v.cases):
            for g, x in v.cases:
                if isinstance(x, Poison) and not self.solver.infeasible(tm.and_(self.pc, g)):
                    self.unsupported("value of %r after a loop: %s" % (name, x.why), node)
            v = self.simp(U([(g, x) for g, x in v.cases if not isinstance(x, Poison)]))
        return v

    def setname(self, name, value):
        fr = self.frames[-1]
        env = fr.env
        if name in env.nonlocals:
            e = env.parent.lookup(name)
            self.setslot(e.vars, name, value, e.base)
            return
        if name in env.globals_:
            self.setslot(fr.module.attrs, name, value, TRUE)
            return
        self.setslot(env.vars, name, value, env.base)

    # ----------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported("step limit")
        self.where = getattr(s, "lineno", None)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement " + type(s).__name__, s)
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.setname(a.asname, self.import_module(a.name))
            else:
                self.setname(a.name.split(".")[0],
                             self.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            mod = self.frames[-1].module
            parts = mod.name.split(".")
            if not getattr(mod, "pkg", False):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[: -(s.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        for a in s.names:
            if name in self.models and a.name in self.models[name].attrs:
                v = self.models[name].attrs[a.name]
            else:
                m = self.import_module(name)
                v = self.module_attr(m, a.name)
                if v is None:
                    raise Unsupported("import %s from %s" % (a.name, name))
            self.setname(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        qual = s.name
        if fr.fn is not None:
            qual = fr.fn.qual + ".<locals>." + s.name
        elif fr.module is not None:
            qual = fr.module.name + "." + s.name
        if getattr(fr, "classname", None):
            qual = fr.classname + "." + s.name
        c = Closure(s, fr.env, fr.module, qual)
        self.fill_defaults(c, s.args)
        for d in s.decorator_list:
            try:
                c.decorators.append(ast.unparse(d))
            except Exception:
                pass
        v = c
        decs = c.decorators
        if decs:
            if decs == ["property"] or decs == ["staticmethod"] or decs == ["classmethod"] \
                    or (len(decs) == 1 and decs[0].endswith(".setter")):
                pass
            else:
                # a wrapping decorator: evaluate it
                for d in reversed(s.decorator_list):
                    v = self.call(self.ev(d), [v], {})
        if len(decs) == 1 and decs[0].endswith(".setter"):
            self.setname(s.name + "@setter", v)
            return
        self.setname(s.name, v)

    def fill_defaults(self, c, a):
        c.defaults = [self.ev(d) for d in a.defaults]
        c.kwdefaults = [None if d is None else self.ev(d) for d in a.kw_defaults]

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        env = Env(fr.env, self.pc)
        f2 = Frame(None, env, fr.module)
        f2.classname = (fr.module.name + "." if fr.module else "") + s.name
        self.frames.append(f2)
        try:
            for st in s.body:
                try:
                    self.stmt(st)
                except Unsupported as e:
                    self.notes.append("class %s: %s" % (s.name, e))
        finally:
            self.frames.pop()
        cls = ClassVal(s.name, bases, env.vars, fr.module)
        for v in env.vars.values():
            if isinstance(v, Closure):
                v.cls = cls
                v.env = fr.env
        self.setname(s.name, cls)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frames[-1].returns.append((self.pc, v))
        if self.frames[-1].loops and self.frames[-1].loops[-1]["symbolic"]:
            self.frames[-1].loops[-1]["return"] = True
        self.pc = FALSE
        raise Dead()

    def s_Continue(self, s):
        self.frames[-1].loops[-1]["cont"].append(self.pc)
        self.pc = FALSE
        raise Dead()

    def s_Break(self, s):
        lp = self.frames[-1].loops[-1]
        if lp["symbolic"]:
            self.unsupported("break in a loop over a symbolic set", s)
        lp["brk"].append(self.pc)
        self.pc = FALSE
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            if getattr(self, "handling", None):
                self.raise_(self.handling[-1])
            self.unsupported("bare raise", s)
        e = self.ev(s.exc)
        if isinstance(e, NativeClass) or isinstance(e, ClassVal):
            e = ExcVal(e.name)
        if isinstance(e, Inst):
            e = ExcVal(e.cls.name)
        if isinstance(e, Opaque):
            e = ExcVal(e.name.split(".")[-1])
        self.raise_(e)

    def raise_(self, exc):
        self.exc_stack[-1].append((self.pc, exc))
        self.pc = FALSE
        raise Dead()

    def raise_if(self, c, exc):
        """raise under condition c, go on otherwise"""
        if c is FALSE:
            return
        c = self.named(c)
        d = self.decide(c)
        if d is False:
            return
        if d is True:
            self.raise_(exc)
        self.exc_stack[-1].append((self.with_pc(c), exc))
        self.pc = self.with_pc(tm.not_(c))
        if self.pc is FALSE:
            raise Dead()

    def s_Try(self, s):
        pc0 = self.pc
        self.exc_stack.append([])
        try:
            self.block(s.body)
        except Dead:
            self.pc = FALSE
        raised = self.exc_stack.pop()
        ends = []
        if self.pc is not FALSE:
            if s.orelse:
                try:
                    self.block(s.orelse)
                    ends.append(self.pc)
                except Dead:
                    pass
            else:
                ends.append(self.pc)
        for g, exc in raised:
            if g is FALSE or self.solver.infeasible(g):
                continue
            handled = False
            for h in s.handlers:
                if self.handler_matches(h, exc):
                    self.pc = g
                    if h.name:
                        self.setname(h.name, exc)
                    if not hasattr(self, "handling"):
                        self.handling = []
                    self.handling.append(exc)
                    try:
                        self.block(h.body)
                        ends.append(self.pc)
                    except Dead:
                        pass
                    finally:
                        self.handling.pop()
                    handled = True
                    break
            if not handled:
                self.exc_stack[-1].append((g, exc))
        self.pc = self.join(pc0, ends) if ends else FALSE
        if s.finalbody and self.pc is not FALSE:
            self.block(s.finalbody)
        if self.pc is FALSE:
            raise Dead()

    def handler_matches(self, h, exc):
        if h.type is None:
            return True
        ts = self.ev(h.type)
        ts = ts if isinstance(ts, tuple) else (ts,)
        return any(exc_isinstance(exc.cls, getattr(x, "name", str(x)).split(".")[-1])
                   for x in ts)

    def s_If(self, s):
        c = self.truth(self.ev(s.test), s.test)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Match(self, s):
        """cases one after the other: values, None/True/False, alternatives,
        names and the wildcard"""
        v = self.ev(s.subject)

        def test(p):
            if isinstance(p, ast.MatchValue):
                return self.truth(self.pybool(self.eq_(v, self.ev(p.value), s)))
            if isinstance(p, ast.MatchSingleton):
                return self.is_(v, p.value, s)
            if isinstance(p, ast.MatchOr):
                return tm.or_(*[test(q) for q in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return TRUE
            self.unsupported("pattern", s)

        def case(cs):
            if not cs:
                return
            c = cs[0]
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                self.setname(c.pattern.name, v)
            t = test(c.pattern)
            if t is not FALSE and c.guard is not None:
                sv = self.pc
                self.pc = tm.and_(sv, t)
                g = self.truth(self.ev(c.guard), c.guard)
                self.pc = sv
                t = tm.and_(t, g)
            self.branch(t, lambda: self.block(c.body), lambda: case(cs[1:]))
        case(s.cases)

    def named(self, c):
        """abbreviate a large condition by a defined atom"""
        if not self.naming or c is TRUE or c is FALSE or len(c.key) < 120:
            return c
        if any("!" in v.args[0] or v.args[0].startswith("@") for v in c.fv):
            return c
        neg = c.op == "not"
        b = c.args[0] if neg else c
        n = self.names.get(b)
        if n is None:
            n = self.names[b] = tm.app("cond%d" % len(self.names), (), "B")
            d = tm.and_(tm.implies(n, b), tm.implies(b, n))
            self.theory.axiom(n.args[0], lambda: d)
        return tm.not_(n) if neg else n

    def branch(self, c, f, g):
        c = self.named(c)
        d = self.decide(c)
        if d is True:
            f()
            return
        if d is False:
            g()
            return
        pc0 = self.pc
        pcs = []
        sides = []
        for cond, h in ((c, f), (tm.not_(c), g)):
            self.pc = tm.and_(pc0, cond)
            lay = {"base": self.pc, "saved": {}}
            self.layers.append(lay)
            try:
                h()
                pcs.append(self.pc)
            except Dead:
                pass
            finally:
                self.layers.pop()
            fin = {}
            for key, (dd, k, had, old, base) in lay["saved"].items():
                fin[key] = dd.get(k, UNDEF)
                if had:
                    dd[k] = old
                else:
                    dd.pop(k, None)
            sides.append((lay["saved"], fin))
        self.pc = pc0
        todo = dict(sides[0][0])
        for key, rec in sides[1][0].items():
            todo.setdefault(key, rec)
        for key, (dd, k, had, old, base) in todo.items():
            vf = sides[0][1].get(key, old)
            vg = sides[1][1].get(key, old)
            if isinstance(vf, Poison) or isinstance(vg, Poison):
                new = vf if isinstance(vf, Poison) else vg
            else:
                new = self.merge(c, vf, vg)
            self.setslot(dd, k, new, base)
        self.pc = self.join(pc0, pcs)
        if self.pc is FALSE:
            raise Dead()

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if not isinstance(v, (Opaque, Builtin)) and not (
                    isinstance(v, Inst)):
                self.unsupported("with", s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test), s.test)
        self.raise_if(tm.not_(c), ExcVal("AssertionError"))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setname(t.id, UNDEF)
            else:
                self.unsupported("del", s)

    def s_Global(self, s):
        self.frames[-1].env.globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].env.nonlocals.update(s.names)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.simp(v)
            self.unpack(t.elts, v, t)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_index(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsupported("assignment target", t)

    def unpack(self, elts, v, node):
        vals = self.tuple_of(v, node, n=len(elts))
        if any(isinstance(e, ast.Starred) for e in elts):
            k = [isinstance(e, ast.Starred) for e in elts].index(True)
            after = len(elts) - k - 1
            mid = vals[k: len(vals) - after]
            vals = list(vals[:k]) + [SList([Fam((), TRUE, x) for x in mid])] \
                + list(vals[len(vals) - after:])
        if len(vals) != len(elts):
            self.raise_(ExcVal("ValueError", ("unpack",)))
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def tuple_of(self, v, node, n=None):
        if isinstance(v, tuple):
            return v
        if isinstance(v, U):
            cs = [(g, self.tuple_of(x, node, n)) for g, x in v.cases]
            out = cs[-1][1]
            for g, x in reversed(cs[:-1]):
                out = self.merge(g, x, out)
            if isinstance(out, tuple):
                return out
        h = getattr(v, "iter_concrete", None)
        if h is not None:
            return tuple(h(self))
        if isinstance(v, (Seq,)) and v.concrete():
            return tuple(v.values())
        v2 = self.iterate(v, node)
        if v2.concrete():
            return tuple(v2.values())
        self.unsupported("cannot unpack %r" % (v,), node)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, t)
            v = self.binop(s.op, cur, self.ev(s.value), s, aug=True)
            if v is not cur or not isinstance(cur, SList):
                self.setname(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr_(o, t.attr, t)
            self.setattr_(o, t.attr, self.binop(s.op, cur, self.ev(s.value), s, aug=True), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            cur = self.getitem(o, ix, t)
            v = self.binop(s.op, cur, self.ev(s.value), s, aug=True)
            if isinstance(cur, SList) and v is cur:
                return
            self.setitem(o, ix, v, t)
        else:
            self.unsupported("augmented assignment", s)

    def s_While(self, s):
        # only loops whose condition stays decidable
        lp = {"symbolic": False, "cont": [], "brk": []}
        self.frames[-1].loops.append(lp)
        n = 0
        try:
            while True:
                c = self.truth(self.ev(s.test), s.test)
                d = self.decide(c)
                if d is None:
                    self.unsupported("while with a symbolic condition", s)
                if not d:
                    break
                n += 1
                if n > 2000:
                    self.unsupported("while bound", s)
                pc0 = self.pc
                lp["cont"] = []
                ends = []
                try:
                    self.block(s.body)
                    ends.append(self.pc)
                except Dead:
                    pass
                self.pc = self.join(pc0, ends + lp["cont"])
                if self.pc is FALSE:
                    break
        finally:
            self.frames[-1].loops.pop()
        if lp["brk"]:
            self.pc = tm.or_(*([self.pc] + lp["brk"])) if self.pc is not FALSE \
                else tm.or_(*lp["brk"])
        if self.pc is FALSE:
            raise Dead()

    # ----------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        seq = self.lift_iter(it, s.iter)
        lp = {"symbolic": False, "cont": [], "brk": []}
        fr = self.frames[-1]
        fr.loops.append(lp)
        try:
            for part in seq.parts:
                if not part.binders:
                    self.loop_concrete(s, part, lp)
                else:
                    if lp["brk"]:
                        self.unsupported("break before a symbolic part", s)
                    self.loop_symbolic(s, part, lp)
        finally:
            fr.loops.pop()
        if s.orelse:
            if lp["brk"]:
                self.unsupported("for/else with break", s)
            self.block(s.orelse)
        if lp["brk"]:
            ends = ([self.pc] if self.pc is not FALSE else []) + lp["brk"]
            r = tm.or_(*ends)
            self.pc = r
        if self.pc is FALSE:
            raise Dead()

    def lift_iter(self, it, node):
        it = self.simp(it)
        if isinstance(it, U):
            parts = []
            for g, x in it.cases:
                sv = self.pc
                self.pc = self.with_pc(g)
                if self.pc is FALSE or self.solver.infeasible(self.pc):
                    self.pc = sv
                    continue
                try:
                    sq = self.iterate(x, node)
                    for p in sq.parts:
                        parts.append(Fam(p.binders, tm.and_(g, p.guard), p.value))
                except Dead:
                    pass
                self.pc = sv
            return Seq(parts)
        return self.iterate(it, node)

    def loop_concrete(self, s, part, lp):
        if self.pc is FALSE:
            return
        pc0 = self.pc
        if part.guard is TRUE:
            lp["cont"] = []
            ends = []
            try:
                self.assign(s.target, part.value)
                self.block(s.body)
                ends.append(self.pc)
            except Dead:
                pass
            ends += lp["cont"]
            if ends:
                self.pc = self.join(pc0, ends)
            else:
                self.pc = FALSE
                if not lp["brk"]:
                    raise Dead()
        else:
            def body():
                lp["cont"] = []
                p1 = self.pc
                ends = []
                try:
                    self.assign(s.target, part.value)
                    self.block(s.body)
                    ends.append(self.pc)
                except Dead:
                    pass
                ends += lp["cont"]
                if not ends:
                    self.pc = FALSE
                    raise Dead()
                self.pc = self.join(p1, ends)
            self.branch(part.guard, body, lambda: None)

    def generic(self, part):
        """rename the binders of a family to fresh constants"""
        ren = {}
        for b in part.binders:
            ren[b] = tm.fresh(b.args[0].split("!")[0].lstrip("@") or "k", b.sort)
        return (tuple(ren[b] for b in part.binders),
                tm.subst(part.guard, ren), subst_value(part.value, ren))

    def loop_symbolic(self, s, part, lp):
        self.summarise(part, lambda v: (self.assign(s.target, v),
                                        self.block(s.body)), lp, s)

    def summarise(self, part, body, lp, node):
        """one generic iteration + summarisation of the slots it writes"""
        pc0 = self.pc
        bs, guard, value = self.generic(part)
        pcb = tm.and_(pc0, guard)
        if pcb is FALSE or self.solver.infeasible(pcb):
            return
        binders0 = self.binders
        touched = []

        def run():
            self.binders = binders0 + bs
            self.pc = pcb
            lp["cont"] = []
            sym = lp["symbolic"]
            lp["symbolic"] = True
            ends = []
            lay = {"base": pcb, "saved": {}}
            self.layers.append(lay)
            try:
                body(value)
                ends.append(self.pc)
            except Dead:
                pass
            finally:
                self.layers.pop()
                lp["symbolic"] = sym
                self.binders = binders0
            touched.append(lay["saved"])
            return self.join(pcb, ends + lp["cont"])

        # --- dry run: which slots are written?
        jsave = self.journal
        self.journal = []
        marks = (len(self.rows), len(self.effects), len(self.exc_stack[-1]),
                 len(self.warned))
        rets0 = [len(f.returns) for f in self.frames]
        run()
        written = []
        seen = set()
        for d, k, had, old in self.journal:
            if (id(d), k) not in seen:
                seen.add((id(d), k))
                written.append((d, k, had, old, d.get(k, UNDEF)))
        for d, k, had, old in reversed(self.journal):
            if had:
                d[k] = old
            else:
                d.pop(k, None)
        del self.rows[marks[0]:]
        del self.effects[marks[1]:]
        del self.exc_stack[-1][marks[2]:]
        del self.warned[marks[3]:]
        for f, n in zip(self.frames, rets0):
            if len(f.returns) != n:
                self.unsupported("return inside a loop over a symbolic set", node)
        self.journal = jsave
        # the enclosing branch must see that the loop writes these slots
        if self.layers:
            outer = self.layers[-1]
            for key, (d, k, had, old, base) in touched[0].items():
                if len(tm.conj(outer["base"])) > len(tm.conj(base)) \
                        and key not in outer["saved"]:
                    outer["saved"][key] = (d, k, k in d, d.get(k, UNDEF), base)
        # --- havoc
        hav = {}
        forms = self.invariant(written, bs, guard, value, node, pc0)
        start = (len(self.rows), len(self.effects), len(self.exc_stack[-1]), len(self.warned))
        for d, k, had, old, new in written:
            if not had:
                continue
            owner = self.slot_owner(old, k)
            if (id(d), k) in forms:
                hav[(id(d), k)] = ("form", d, k, old, None)
                self.rawset(d, k, forms[id(d), k](bs[0]))
            elif k == "entries" and isinstance(old, tuple):
                hav[(id(d), k)] = ("dict", d, k, old, None)
            elif k == "parts" and isinstance(old, tuple):
                hav[(id(d), k)] = ("list", d, k, old, None)
            else:
                tt = self.maybe_term(old) if not isinstance(old, U) else None
                if tt is not None and not self.same(old, new):
                    srt = tt.sort
                    if srt == "I" and self.maybe_term(new) is not None \
                            and self.maybe_term(new).sort == "R":
                        srt = "R"
                    H = tm.fresh("acc", srt)
                    hav[(id(d), k)] = ("term", d, k, old, H)
                    self.rawset(d, k, H)
                else:
                    hav[(id(d), k)] = ("val", d, k, old, None)
                    if not self.same(old, new):
                        # not known before an iteration writes it
                        self.rawset(d, k, Poison("changes from one iteration to the next"))
        self.journal = []
        lists = {}
        opened = []
        for (_, k), h in hav.items():
            if h[0] == "dict":
                o = DICTS.get(id(h[1]))
                if o is not None:
                    opened.append((o, o.open))
                    o.open = [len(h[3]), []]
        exc_mark = len(self.exc_stack[-1])
        born = Slots.count
        pce = run()
        last_open = {}
        for o, prev in opened:
            last_open[id(o)] = o.open
            o.open = prev
        jr = self.journal
        self.journal = jsave
        finals = []
        seen = set()
        for d, k, had, old in jr:
            if (id(d), k) in seen:
                continue
            seen.add((id(d), k))
            finals.append((d, k, had, old, d.get(k, UNDEF)))
        # --- summarise
        finals = self.carried(hav, finals, bs, guard, start, node)
        bset = set(bs)
        base = set(tm.conj(pc0))

        def rel(g):
            return tm.and_(*[c for c in tm.conj(g) if c not in base])

        if forms:
            self.preserved(forms, finals, hav, bs[0], pce, node)
        self.pc = pcb
        for d, k, had, old, new in finals:
            h = hav.get((id(d), k))
            if h is not None and h[0] == "form":
                if self.journal is not None:
                    self.journal.append((d, k, True, h[3]))
                d[k] = forms[id(d), k](range_guard(guard, bs[0])[1])
                continue
            if h is None:
                if had and (isinstance(old, (int, float, T)) or k in ("parts", "entries")):
                    # became visible only in the second run
                    if not self.same(old, new):
                        self.unsupported("unstable loop summary", node)
                # fresh slot: local of the loop body
                if self.journal is not None:
                    self.journal.append((d, k, had, old))
                if isinstance(new, (Closure, ModuleVal, ClassVal)):
                    d[k] = new
                elif getattr(d, "born", 0) > born:
                    d[k] = new      # attribute of an object made in the body
                elif not had and not free_of(new, bset) or not had:
                    d[k] = Poison("set inside a loop over a symbolic set")
                else:
                    d[k] = Poison("set inside a loop over a symbolic set")
                continue
            kind, _, _, old0, H = h
            if self.journal is not None:
                self.journal.append((d, k, True, old0))
            if kind == "term":
                try:
                    newv = self.simp(new)
                except Dead:
                    newv = new
                if isinstance(newv, T) and newv is H:
                    d[k] = old0
                    continue
                newv = self.accumulate(old0, H, newv, bs, rel(pcb), node)
                if not isinstance(newv, Poison):
                    # paths that left the enclosing block keep the old value
                    sl = touched[0].get((id(d), k))
                    sb = pc0 if sl is None else sl[4]
                    if self.layers and len(tm.conj(self.layers[-1]["base"])) > len(tm.conj(sb)):
                        sb = self.layers[-1]["base"]
                    known = set(tm.conj(sb))
                    c = tm.and_(*[x for x in tm.conj(pc0) if x not in known])
                    if c is not TRUE:
                        newv = self.merge(c, newv, old0)
                d[k] = newv
            elif kind == "list":
                if new[: len(old0)] != old0:
                    self.unsupported("list changed in a loop", node)
                extra = new[len(old0):]
                d[k] = old0 + tuple(
                    Fam(bs + p.binders, tm.and_(rel(pcb), p.guard), p.value)
                    for p in extra)
            elif kind == "dict":
                if new[: len(old0)] != old0:
                    self.unsupported("dict changed in a loop", node)
                o = DICTS.get(id(d))
                hs = {x[1]: x[0] for x in (last_open[id(o)][1] if id(o) in last_open else [])}
                out = []
                for e in new[len(old0):]:
                    g = tm.and_(rel(pcb), e.guard)
                    v = e.value
                    tv = self.maybe_term(v) if not isinstance(v, U) else None
                    if tv is not None and any(x in tv.fv for x in hs):
                        Hs = [x for x in hs if x in tv.fv]
                        if len(Hs) > 1 or not self.same_key(hs[Hs[0]], e.key):
                            self.unsupported("dict accumulation", node)
                        kd, delta = self.delta(tv, Hs[0])
                        if kd != "+":
                            self.unsupported("dict accumulation", node)
                        out.append(Entry("acc", bs + e.binders, g, e.key, delta))
                    elif e.kind == "acc":
                        out.append(Entry("acc", bs + e.binders, g, e.key, v))
                    else:
                        out.append(Entry("set", bs + e.binders, g, e.key, v))
                d[k] = old0 + tuple(out)
            else:
                if self.same(old0, new):
                    d[k] = old0
                else:
                    d[k] = Poison("reassigned inside a loop over a symbolic set")
        # --- slots havocked but not written in the second run
        wr = {(id(d), k) for d, k, *_ in finals}
        for key, (kind, d, k, old0, H) in hav.items():
            if key not in wr and kind == "term":
                d[k] = old0
        # --- exceptions raised for some element end the whole loop
        self.pc = pc0
        newexc = self.exc_stack[-1][exc_mark:]
        if newexc:
            del self.exc_stack[-1][exc_mark:]
            conds = []
            for g, e in newexc:
                x = tm.exists(bs, rel(g), TRUE)
                conds.append(x)
                self.exc_stack[-1].append((tm.and_(pc0, x), e))
            pcx = tm.and_(pc0, tm.not_(tm.or_(*conds)))
            if pcx is FALSE or self.solver.infeasible(pcx):
                self.pc = FALSE
                raise Dead()
            # an uncaught exception is reported in any case
            self.pc = pc0 if len(self.exc_stack) == 1 else pcx

    def invariant(self, written, bs, guard, value, node, pc0):
        """closed forms of the values before iteration q of a loop, proposed
        by a unit: {slot: function of q}.  They are shown to hold at the
        first iteration (here) and to be preserved by the body (preserved);
        a proposal that is not confirmed ends the evaluation."""
        fn = getattr(self.frames[-1].fn, "qual", None)
        hook = self.invariants.get(fn) if isinstance(node, ast.For) and len(bs) == 1 else None
        if hook is None:
            return {}
        forms = hook(self, written, value)
        if not forms:
            return {}
        lh = range_guard(guard, bs[0])
        if lh is None or lh[2] is not TRUE:
            self.unsupported("loop invariant: range of the loop", node)
        lo, hi, _ = lh
        if not self.solver.entails(pc0, tm.le(lo, hi)):
            self.unsupported("loop invariant: possibly empty range", node)
        for d, k, had, old, new in written:
            if (id(d), k) in forms:
                self.agree(pc0, old, forms[id(d), k](lo), node)
        return forms

    def preserved(self, forms, finals, hav, q, pce, node):
        seen = set()
        for d, k, had, old, new in finals:
            if (id(d), k) in forms:
                seen.add((id(d), k))
                f = forms[id(d), k]
                self.agree(pce, new, getattr(f, "unfolded", f)(tm.add(q, tm.ONE)), node)
        if seen != set(forms):
            self.unsupported("loop invariant: a value is not written", node)

    def agree(self, pc, have, want, node):
        """the value is the proposed one wherever the proposal says something"""
        from .oblig import Prover
        from .spec import val_equal
        cases = lambda v: v.cases if isinstance(v, U) else [(TRUE, v)]
        for g, x in cases(want):
            if isinstance(x, Poison):
                continue
            for h, y in cases(have):
                p = tm.and_(pc, g, h)
                if p is FALSE or self.solver.infeasible(p) or x is y:
                    continue
                if isinstance(y, (Poison, Rel)) or not val_equal(self, Prover(self), p, y, x):
                    self.unsupported("loop invariant not confirmed: %r / %r" % (y, x), node)

    def slot_owner(self, old, k):
        return None

    def carried(self, hav, finals, bs, guard, start, node):
        """a slot read in the iteration before it is updated: over an ordered
        integer range its value is  slot0 + Sum_{lo<=j<k} delta(j)  (or the
        disjunction), which replaces the placeholder everywhere"""
        Hs = {h[4]: key for key, h in hav.items() if h[0] == "term"}
        if not Hs:
            return finals
        own = {}
        for d, k, had, old, new in finals:
            h = hav.get((id(d), k))
            if h is not None and h[0] == "term":
                own[h[4]] = (new, h[3])

        def used(x, skip=None):
            fv = getattr(x, "fv", ())
            return [H for H in Hs if H in fv and H is not skip]
        rows, effs = self.rows[start[0]:], self.effects[start[1]:]
        excs = self.exc_stack[-1][start[2]:]
        need = set()
        for r in rows:
            need.update(used(r.expr) + used(r.guard))
        for e in effs:
            need.update(used(e.guard))
            for a in (e.target,) + tuple(e.args):
                need.update(H for H in Hs if not free_of(a, {H}))
        for g, e in excs:
            need.update(used(g))
        for d, k, had, old, new in finals:
            h = hav.get((id(d), k))
            if h is not None and h[0] in ("list", "dict"):
                for x in new[len(h[3]):]:
                    need.update(H for H in Hs if not free_of(x.guard, {H})
                                or not free_of(x.value, {H}))
            elif h is not None and h[0] == "term" and isinstance(new, T):
                need.update(used(new, h[4]))
        if not need:
            return finals
        lh = range_guard(guard, bs[0]) if len(bs) == 1 else None
        if lh is None:
            return finals
        lo, hi, rest = lh
        m = {}
        todo = set(need)
        # closed forms; a delta may only use already solved slots
        for _ in range(len(todo) + 1):
            for H in list(todo):
                nt = own.get(H)
                if nt is None:
                    todo.discard(H)
                    continue
                new, old0 = nt
                try:
                    new = self.simp(new)
                except Dead:
                    pass
                nt = self.maybe_term(subst_value(new, m)) if not isinstance(new, U) else None
                if nt is None or any(x in nt.fv for x in Hs if x is not H):
                    continue
                kd, dl = self.delta(nt, H)
                if kd not in ("+", "or"):
                    continue
                j = tm.fresh("j", "I")
                sub = {bs[0]: j}
                g = tm.and_(tm.le(lo, j), tm.lt(j, bs[0]), tm.subst(rest, sub))
                o0 = self.maybe_term(old0)
                if kd == "+":
                    m[H] = tm.add(o0, tm.mksum((j,), g, tm.subst(dl, sub)))
                else:
                    m[H] = tm.or_(o0, tm.exists((j,), tm.and_(g, tm.subst(dl, sub)), TRUE))
                todo.discard(H)
        if not m:
            return finals
        for r in rows:
            r.expr, r.guard = tm.subst(r.expr, m), tm.subst(r.guard, m)
        for e in effs:
            e.guard = tm.subst(e.guard, m)
            e.target = subst_value(e.target, m)
            e.args = tuple(subst_value(a, m) for a in e.args)
        self.exc_stack[-1][start[2]:] = [(tm.subst(g, m), e) for g, e in excs]
        out = []
        for d, k, had, old, new in finals:
            h = hav.get((id(d), k))
            if h is not None and h[0] == "list":
                new = tuple(new[: len(h[3])]) + tuple(
                    Fam(x.binders, tm.subst(x.guard, m), subst_value(x.value, m))
                    for x in new[len(h[3]):])
            elif h is not None and h[0] == "dict":
                new = tuple(new[: len(h[3])]) + tuple(
                    Entry(x.kind, x.binders, tm.subst(x.guard, m), x.key,
                          subst_value(x.value, m)) for x in new[len(h[3]):])
            elif h is not None and h[0] == "term":
                new = subst_value(new, {q: v for q, v in m.items() if q is not h[4]})
            out.append((d, k, had, old, new))
        return out

    def same_key(self, a, b):
        a, b = flat_index(a), flat_index(b)
        return len(a) == len(b) and all(x is y or self.same(x, y)
                                        for x, y in zip(a, b))

    def delta(self, F, H):
        """F = H + d  -> ('+', d);   F boolean: H or d -> ('or', d)"""
        if F.sort == "B":
            h1 = tm.subst(F, {H: TRUE})
            h0 = tm.subst(F, {H: FALSE})
            if h1 is TRUE:
                return "or", h0
            if h0 is FALSE:
                return "and", h1
            return "?", None
        if F.op == "ite":
            c, a, b = F.args
            if H in c.fv:
                return "?", None
            ka, da = self.delta(a, H)
            kb, db = self.delta(b, H)
            if ka == kb == "+":
                return "+", tm.ite(c, da, db)
            return "?", None
        d = tm.sub(F, H)
        it = 0
        while H in d.fv and it < 8:
            a = tm.find_ite(d)
            if a is None:
                break
            c, x, y = a.args
            if H in c.fv:
                return "?", None
            k1, d1 = self.delta(tm.replace(F, a, x), H)
            k2, d2 = self.delta(tm.replace(F, a, y), H)
            if k1 == k2 == "+":
                return "+", tm.ite(c, d1, d2)
            return "?", None
        if H in d.fv:
            return "?", None
        return "+", d

    def accumulate(self, old0, H, new, bs, guard, node):
        if isinstance(new, U):
            return Poison("accumulator with non-numeric cases")
        nt = self.maybe_term(new)
        if nt is None:
            return Poison("accumulator became %r" % (new,))
        if H not in nt.fv:
            return Poison("overwritten in every iteration of a symbolic loop")
        k, d = self.delta(nt, H)
        if k == "+":
            return tm.add(self.maybe_term(old0), tm.mksum(bs, guard, d))
        if k == "or":
            return tm.or_(self.maybe_term(old0), tm.exists(bs, guard, d))
        if k == "and":
            return tm.and_(self.maybe_term(old0),
                           tm.not_(tm.exists(bs, tm.and_(guard, tm.not_(d)), TRUE)))
        return Poison("no inductive summary for the accumulator")

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported("expression " + type(e).__name__, e)
        return m(e)

    def ev_index(self, e):
        if isinstance(e, ast.Slice):
            return ("slice",
                    None if e.lower is None else self.ev(e.lower),
                    None if e.upper is None else self.ev(e.upper),
                    None if e.step is None else self.ev(e.step))
        return self.ev(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.getname(e.id, e)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.tuple_of(self.simp(self.ev(x.value)), x))
            else:
                out.append(self.ev(x))
        return tuple(out)

    def e_List(self, e):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.lift_iter(self.ev(x.value), x).parts)
            else:
                parts.append(Fam((), TRUE, self.ev(x)))
        return self.mklist(parts)

    def mklist(self, parts):
        lst = SList(parts)
        lst.base = self.pc
        return lst

    def e_Set(self, e):
        return Seq([Fam((), TRUE, self.ev(x)) for x in e.elts])

    def e_Dict(self, e):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                if not isinstance(d, SDict):
                    self.unsupported("** in dict", e)
                ents.extend(d.entries)
            else:
                ents.append(Entry("set", (), TRUE, self.ev(k), self.ev(v)))
        return self.mkdict(ents)

    def mkdict(self, ents=(), default=None):
        d = SDict(ents, default, self.pc)
        DICTS[id(d.slots)] = d
        return d

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value)
                out.append(str(x) if isinstance(x, (str, int, float)) else x)
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return SymStr("fstring", tuple(out))

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test), e.test)
        return self.cond(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def cond(self, c, f, g):
        c = self.named(c)
        d = self.decide(c)
        if d is True:
            return f()
        if d is False:
            return g()
        pc0 = self.pc
        res = []
        pcs = []
        for cc, h in ((c, f), (tm.not_(c), g)):
            self.pc = tm.and_(pc0, cc)
            try:
                res.append((cc, h()))
                pcs.append(self.pc)
            except Dead:
                pass
        self.pc = self.join(pc0, pcs)
        if not res:
            raise Dead()
        if len(res) == 1:
            return res[0][1]
        return self.merge(res[0][0], res[0][1], res[1][1])

    def e_BoolOp(self, e):
        # value semantics of and/or, short circuit under the guard
        def go(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v, vals[0])
            if isinstance(e.op, ast.And):
                return self.cond(c, lambda: go(vals[1:]), lambda: v if not isinstance(v, T) or v.sort != "B" else False)
            return self.cond(c, lambda: v if not isinstance(v, T) or v.sort != "B" else True, lambda: go(vals[1:]))
        return go(e.values)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.pybool(tm.not_(self.truth(v, e)))
        if isinstance(e.op, ast.USub):
            v = self.simp(v)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return self.lift(lambda x: tm.neg(self.term(x, e)), v)
        if isinstance(e.op, ast.UAdd):
            return v
        self.unsupported("unary", e)

    def pybool(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return t

    def truth(self, v, node=None):
        """boolean term of a python value used as a condition"""
        v = self.simp(v)
        if isinstance(v, bool):
            return tm.boolc(v)
        if v is None:
            return FALSE
        if isinstance(v, T):
            if v.sort == "B":
                return v
            if tm.is_num_sort(v.sort):
                if self.has_var(v):
                    self.unsupported("truth value of a decision variable", node)
                return tm.not_(tm.eq(v, tm.num(0)))
            return TRUE
        if isinstance(v, U):
            outs = []
            for g, x in v.cases:
                outs.append(tm.and_(g, self.truth(x, node)))
            return tm.or_(*outs)
        if isinstance(v, (int, float, str, tuple)):
            return tm.boolc(bool(v))
        if isinstance(v, Seq):
            return self.nonempty(v)
        if isinstance(v, SDict):
            return self.nonempty(self.dict_iter(v))
        if isinstance(v, Rel):
            self.unsupported("truth value of a constraint", node)
        h = getattr(v, "truth", None)
        if h is not None:
            return h(self)
        if isinstance(v, (Obj, Inst, Closure, Bound, Builtin, ClassVal, NativeClass,
                          ModuleVal, Opaque, ExcVal)):
            return TRUE
        if isinstance(v, SymStr):
            self.unsupported("truth of string", node)
        if isinstance(v, SymSeq):
            self.unsupported("truth of an array", node)
        self.unsupported("truth of %r" % (v,), node)

    def nonempty(self, seq):
        outs = []
        for p in seq.parts:
            outs.append(tm.exists(p.binders, p.guard, TRUE))
        return tm.or_(*outs)

    def has_var(self, t):
        r = self._hv.get(t) if hasattr(self, "_hv") else None
        if not hasattr(self, "_hv"):
            self._hv = {}
        if r is None:
            r = any(s.op == "f" and s.args[0] in self.var_names
                    for s in tm.walk(t))
            self._hv[t] = r
        return r

    # ------------------------------------------------------------ operators
    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)

    def binop(self, op, a, b, node, aug=False):
        a, b = self.simp(a), self.simp(b)
        if isinstance(a, U) or isinstance(b, U):
            return self.lift(lambda x, y: self.binop(op, x, y, node), a, b)
        for x in (a, b):
            h = getattr(x, "binop", None)
            if h is not None:
                r = h(self, op, a, b)
                if r is not NotImplemented:
                    return r
        for x, y, pre in ((a, b, ""), (b, a, "r")):
            if isinstance(x, Inst) and isinstance(x.cls, ClassVal) and type(op) in DUNDER:
                if pre and isinstance(y, SymSeq) and x.cls.find("__array_ufunc__")[1] is None:
                    # numpy would treat the object as an array of objects
                    self.unsupported("array operand", node)
                f, _ = x.cls.find("__%s%s__" % (pre, DUNDER[type(op)]))
                if f is not None:
                    return self.call(f, [x, y], {})
        if isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)) and isinstance(op, (ast.Add, ast.BitOr)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            sa, sb = self.iterate(a, node), self.iterate(b, node)
            if aug and isinstance(a, SList):
                self.list_extend(a, sb)
                return a
            return self.mklist(sa.parts + sb.parts)
        if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(op, (ast.Sub, ast.BitAnd)):
            parts = []
            for p in a.parts:
                bs, g, v = self.generic(p)
                sv = self.pc
                self.pc = tm.and_(sv, g)
                c = self.truth(self.contains(b, v, node))
                self.pc = sv
                parts.append(Fam(bs, tm.and_(g, c if isinstance(op, ast.BitAnd) else tm.not_(c)), v))
            return Seq(parts)
        if isinstance(a, Seq) and isinstance(op, ast.Mult):
            n = self.simp(b)
            if isinstance(n, int) and a.concrete():
                return self.mklist(a.parts * n)
            nt = self.term(n, node)
            if a.concrete() and len(a.parts) == 1:
                k = tm.fresh("k", "I")
                lst = self.mklist([Fam((k,), tm.and_(tm.le(tm.ZERO, k), tm.lt(k, nt)), a.parts[0].value)])
                lst.rng = None
                lst.meta["repeat"] = (a.parts[0].value, nt)
                return lst
            self.unsupported("list repetition", node)
        if isinstance(b, Seq) and isinstance(op, ast.Mult):
            return self.binop(op, b, a, node)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return SymStr("str op")
        if (isinstance(a, (int, float)) and isinstance(b, (int, float))
                and not isinstance(op, ast.Div)):
            return self.pyop(op, a, b, node)
        if a is None or b is None:
            self.raise_(ExcVal("TypeError", ("operand None",)))
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            return self.seq_op(op, a, b, node)
        x, y = self.term(a, node), self.term(b, node)
        if x.sort == "B" or y.sort == "B":
            if isinstance(op, ast.BitAnd):
                return tm.and_(x, y)
            if isinstance(op, ast.BitOr):
                return tm.or_(x, y)
            x = tm.ite(x, tm.ONE, tm.ZERO) if x.sort == "B" else x
            y = tm.ite(y, tm.ONE, tm.ZERO) if y.sort == "B" else y
        if isinstance(op, ast.Add):
            return tm.add(x, y)
        if isinstance(op, ast.Sub):
            return tm.sub(x, y)
        if isinstance(op, ast.Mult):
            return tm.mul(x, y)
        if isinstance(op, ast.Div):
            if not tm.to_poly(y):
                self.raise_(ExcVal("ZeroDivisionError"))
            if self.check_div:
                self.raise_if(tm.eq(y, tm.ZERO), ExcVal("ZeroDivisionError"))
            return tm.div(x, y)
        if isinstance(op, ast.Pow):
            return tm.power(x, y)
        if isinstance(op, ast.FloorDiv):
            return tm.app("floordiv", (x, y), "I")
        if isinstance(op, ast.Mod):
            return tm.app("mod", (x, y), "I")
        self.unsupported("operator", node)

    def seq_op(self, op, a, b, node):
        k = tm.var("@ix", "I")
        va = a.at(k) if isinstance(a, SymSeq) else self.term(a, node)
        vb = b.at(k) if isinstance(b, SymSeq) else self.term(b, node)
        body = self.binop(op, va, vb, node)
        return LamSeq(k, body)

    def pyop(self, op, a, b, node):
        if isinstance(op, ast.Add):
            return a + b if not isinstance(a, float) and not isinstance(b, float) else self._f(tm.add(tm.num(a), tm.num(b)))
        if isinstance(op, ast.Sub):
            return a - b if not isinstance(a, float) and not isinstance(b, float) else self._f(tm.sub(tm.num(a), tm.num(b)))
        if isinstance(op, ast.Mult):
            return a * b if not isinstance(a, float) and not isinstance(b, float) else self._f(tm.mul(tm.num(a), tm.num(b)))
        if isinstance(op, ast.Pow):
            if isinstance(b, int) and not isinstance(a, float) and b >= 0:
                return a ** b
            return tm.power(tm.num(a), tm.num(b))
        if isinstance(op, ast.FloorDiv) and isinstance(a, int) and isinstance(b, int) and b:
            return a // b
        if isinstance(op, ast.Mod) and isinstance(a, int) and isinstance(b, int) and b:
            return a % b
        self.unsupported("python operator", node)

    def _f(self, t):
        return t

    def e_Compare(self, e):
        left = self.ev(e.left)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.ev(e.comparators[0]), e)
        # chained: a op b op c
        vals = [left] + [self.ev(c) for c in e.comparators]
        outs = []
        for k, op in enumerate(e.ops):
            outs.append(self.compare(op, vals[k], vals[k + 1], e))
        if any(isinstance(o, Rel) for o in outs):
            self.unsupported("chained constraint", e)
        return self.pybool(tm.and_(*[self.truth(o, e) for o in outs]))

    def compare(self, op, a, b, node):
        a, b = self.simp(a), self.simp(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, node)
            return self.pybool(r if isinstance(op, ast.Is) else tm.not_(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.truth(self.contains(b, a, node))
            return self.pybool(r if isinstance(op, ast.In) else tm.not_(r))
        if isinstance(a, U) or isinstance(b, U):
            return self.lift(lambda x, y: self.compare(op, x, y, node), a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_(a, b, node)
            if isinstance(r, Rel):
                if isinstance(op, ast.NotEq):
                    self.unsupported("!= on variables", node)
                return r
            return self.pybool(r if isinstance(op, ast.Eq) else tm.not_(r))
        for x in (a, b):
            h = getattr(x, "compare", None)
            if h is not None:
                return h(self, op, a, b)
        if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(op, (ast.LtE, ast.GtE)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            conds = []
            for p in a.parts:
                bs, g, v = self.generic(p)
                sv = self.pc
                self.pc = tm.and_(sv, g)
                c = self.truth(self.contains(b, v, node))
                self.pc = sv
                conds.append(tm.not_(tm.exists(bs, tm.and_(g, tm.not_(c)), TRUE)))
            return self.pybool(tm.and_(*conds))
        if a is None or b is None:
            self.raise_(ExcVal("TypeError", ("compare with None",)))
        x, y = self.term(a, node), self.term(b, node)
        if self.has_var(x) or self.has_var(y):
            o = {ast.LtE: "<=", ast.GtE: ">="}.get(type(op))
            if o is None:
                self.unsupported("strict inequality constraint", node)
            return Rel(o, x, y)
        if isinstance(op, ast.Lt):
            return self.pybool(tm.lt(x, y))
        if isinstance(op, ast.LtE):
            return self.pybool(tm.le(x, y))
        if isinstance(op, ast.Gt):
            return self.pybool(tm.lt(y, x))
        if isinstance(op, ast.GtE):
            return self.pybool(tm.le(y, x))
        self.unsupported("comparison", node)

    def is_(self, a, b, node):
        outs = []
        for g, x in (a.cases if isinstance(a, U) else [(TRUE, a)]):
            for h, y in (b.cases if isinstance(b, U) else [(TRUE, b)]):
                gh = tm.and_(g, h)
                if gh is FALSE:
                    continue
                outs.append(tm.and_(gh, self.is1(x, y, node)))
        return tm.or_(*outs)

    def is1(self, x, y, node):
        if isinstance(y, Rel) or (isinstance(x, bool) and isinstance(y, (T,))):
            x, y = y, x
        if isinstance(x, Rel) and isinstance(y, bool):
            # `expr is True`: the relation has no variables and holds
            kind, ex = x.row()
            return self.trivial_rel(x, y)
        if isinstance(x, T) and isinstance(y, bool):
            if x.sort == "B":
                return x if y else tm.not_(x)
            return FALSE
        if isinstance(x, bool) and isinstance(y, bool):
            return tm.boolc(x is y)
        if x is None or y is None:
            return tm.boolc(x is None and y is None)
        if isinstance(x, (T, int, float, Obj)) and isinstance(y, (T, int, float, Obj)):
            r = self.eq_(x, y, node)
            if isinstance(r, Rel):
                return tm.boolc(x is y)
            if tm.is_num_sort(getattr(x, "sort", "Q")) or isinstance(x, (int, float)):
                if r is not TRUE and r is not FALSE:
                    self.unsupported("identity of numbers", node)
            return r
        if x is not y and (isinstance(x, SomeClass) or isinstance(y, SomeClass)):
            self.unsupported("identity of %r and %r" % (x, y), node)
        return tm.boolc(x is y)

    def trivial_rel(self, rel, val):
        """condition under which Pyomo returns the python bool `val`:
        an atom b with  b => every sum in the relation is empty"""
        kind, ex = rel.row()
        p = tm.to_poly(ex)
        if any(a.op == "f" and a.args[0] in self.var_names for m in p for a, _ in m):
            return FALSE
        fvs = sorted(ex.fv, key=lambda t: t.key)
        ren = {x: tm.var("#%d%s" % (k, x.sort), x.sort) for k, x in enumerate(fvs)}
        b = tm.app("trivial%s[%s %s]" % (val, kind, tm.subst(ex, ren).key), fvs, "B")
        self.trivials = getattr(self, "trivials", [])
        self.trivials.append((b, kind, ex, val))
        return b

    def eq_(self, a, b, node):
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.kind != b.kind:
                return FALSE
            return tm.and_(*[tm.eq(x, y) for x, y in zip(a.key, b.key)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            outs = []
            for x, y in zip(a, b):
                r = self.lift(lambda p, q: self.eq_(p, q, node), x, y)
                outs.append(self.truth(r))
            return tm.and_(*outs)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return tm.boolc(a == b)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, T) and y.sort == "S":
                    return tm.eq(self.lit(x) if isinstance(x, str) else x, y)
                h = getattr(y, "eq_", None)
                if h is not None and not isinstance(y, T):
                    return h(self, a, b)
                if isinstance(y, (SymStr, Opaque)):
                    self.unsupported("equality of a string and %r" % (y,), node)
            return FALSE
        if a is None or b is None:
            return tm.boolc(a is None and b is None)
        for x in (a, b):
            h = getattr(x, "eq_", None)
            if h is not None and not isinstance(x, T):
                return h(self, a, b)
        ta = a if isinstance(a, T) else self.maybe_term(a)
        tb = b if isinstance(b, T) else self.maybe_term(b)
        if ta is None and hasattr(a, "as_term"):
            ta = a.as_term()
        if tb is None and hasattr(b, "as_term"):
            tb = b.as_term()
        if ta is not None and tb is not None:
            if tm.is_num_sort(ta.sort) and tm.is_num_sort(tb.sort):
                if self.has_var(ta) or self.has_var(tb):
                    return Rel("==", ta, tb)
                return tm.eq(ta, tb)
            if ta.sort == "B" and tm.is_num_sort(tb.sort):
                return tm.eq(tm.ite(ta, tm.ONE, tm.ZERO), tb)
            if tb.sort == "B" and tm.is_num_sort(ta.sort):
                return tm.eq(tm.ite(tb, tm.ONE, tm.ZERO), ta)
            if ta.sort != tb.sort:
                return FALSE
            return tm.eq(ta, tb)
        plain = lambda x: isinstance(x, (Closure, Opaque)) or isinstance(x, Inst) and (
            isinstance(x.cls, NativeClass) or x.cls.find("__eq__")[1] is None)
        if a is not b and (isinstance(a, SomeClass) or isinstance(b, SomeClass)):
            self.unsupported("equality of %r and %r" % (a, b), node)
        if plain(a) and plain(b):
            return tm.boolc(a is b)
        if (ta is None) != (tb is None):
            if isinstance(a, (SymSeq, LamSeq, Seq)) or isinstance(b, (SymSeq, LamSeq, Seq)):
                self.unsupported("array comparison", node)
            return FALSE
        if isinstance(a, (Closure, ClassVal, NativeClass, Builtin, Opaque)):
            return tm.boolc(a is b)
        if a is b:
            return TRUE
        self.unsupported("equality of %r and %r" % (a, b), node)

    def contains(self, coll, v, node):
        coll = self.simp(coll)
        if isinstance(coll, U):
            return self.lift(lambda c: self.contains(c, v, node), coll)
        if isinstance(coll, str) and isinstance(v, str):
            return v in coll
        if isinstance(coll, SDict):
            coll = self.dict_iter(coll)
        if isinstance(v, str) and hasattr(coll, "contains_"):
            return self.pybool(coll.contains_(self, v))
        if isinstance(coll, Inst):
            m = self.attr_or_missing(coll, "__contains__", node)
            if m is not MISSING:
                return self.pybool(self.truth(self.call(m, [v], {})))
        seq = self.iterate(coll, node)
        v = self.simp(v)
        if isinstance(v, U):
            return self.lift(lambda x: self.contains(coll, x, node), v)
        outs = []
        for p in seq.parts:
            bs, g, x = self.generic(p)
            r = self.eq_in(x, v, node)
            if r is FALSE:
                continue
            outs.append(tm.exists(bs, tm.and_(g, r), TRUE))
        return self.pybool(tm.or_(*outs))

    def eq_in(self, x, v, node):
        x = self.simp(x)
        if isinstance(x, U):
            return tm.or_(*[tm.and_(g, self.eq_in(y, v, node)) for g, y in x.cases])
        r = self.eq_(x, v, node)
        if isinstance(r, Rel):
            self.unsupported("membership of a variable", node)
        return r

    # -------------------------------------------------------- comprehensions
    def comp(self, gens, elt, node):
        """list of Fam for a comprehension"""
        out = []
        fr = self.frames[-1]
        env0 = fr.env

        def go(k, binders, base):
            if k == len(gens):
                v = elt()
                if self.pc is FALSE:
                    return
                b = set(tm.conj(base))
                g = tm.and_(*[c for c in tm.conj(self.pc) if c not in b])
                out.append(Fam(binders, g, v))
                return
            gen = gens[k]
            it = self.ev(gen.iter)
            seq = self.lift_iter(it, gen.iter)
            for p in seq.parts:
                pc0 = self.pc
                bs, g, val = self.generic(p)
                self.pc = tm.and_(pc0, g)
                if self.pc is FALSE or ((bs or g is not TRUE) and self.solver.infeasible(self.pc)):
                    self.pc = pc0
                    continue
                save = dict(fr.env.vars)
                bsave = self.binders
                self.binders = bsave + bs
                em = len(self.exc_stack[-1])
                try:
                    self.assign(gen.target, val)
                    for c in gen.ifs:
                        ct = self.truth(self.ev(c), c)
                        self.pc = tm.and_(self.pc, ct)
                        if self.pc is FALSE or self.solver.infeasible(self.pc):
                            raise Dead()
                    go(k + 1, binders + bs, base)
                except Dead:
                    pass
                finally:
                    self.binders = bsave
                    fr.env.vars.clear()
                    fr.env.vars.update(save)
                newexc = self.exc_stack[-1][em:]
                self.pc = pc0
                if newexc:
                    del self.exc_stack[-1][em:]
                    b0 = set(tm.conj(pc0))
                    for gx, ex in newexc:
                        rel = tm.and_(*[c for c in tm.conj(gx) if c not in b0])
                        x = tm.exists(bs, rel, TRUE)
                        self.raise_if(x, ex)

        env = Env(env0, self.pc)
        fr.env = env
        j = self.journal
        self.journal = None if j is None else []
        try:
            go(0, (), self.pc)
        finally:
            fr.env = env0
            if j is not None:
                # writes to anything but the comprehension scope are rejected
                for d, k, had, old in self.journal:
                    if d is not env.vars:
                        j.append((d, k, had, old))
            self.journal = j
        return out

    def e_ListComp(self, e):
        return self.mklist(self.comp(e.generators, lambda: self.ev(e.elt), e))

    def e_GeneratorExp(self, e):
        return Seq(self.comp(e.generators, lambda: self.ev(e.elt), e))

    def e_SetComp(self, e):
        return Seq(self.comp(e.generators, lambda: self.ev(e.elt), e))

    def e_DictComp(self, e):
        fs = self.comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)), e)
        def member(f):
            v = f.value[1]
            if f.binders and type(v) is SList and not v.slots["parts"] and f.value[0] in f.binders:
                return FamList(self.mklist([]), f.value[0])
            return v
        return self.mkdict([Entry("set", f.binders, f.guard, f.value[0], member(f)) for f in fs])

    def e_Lambda(self, e):
        fr = self.frames[-1]
        c = Closure(e, fr.env, fr.module,
                    (fr.fn.qual if fr.fn else "") + ".<lambda>")
        self.fill_defaults(c, e.args)
        return c

    def e_Starred(self, e):
        self.unsupported("starred", e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    # ------------------------------------------------------------ iteration
    def iterate(self, v, node=None):
        v = self.simp(v)
        if isinstance(v, Seq):
            v.parts
            return v
        if isinstance(v, tuple):
            return Seq([Fam((), TRUE, x) for x in v])
        if isinstance(v, SDict):
            return self.dict_iter(v)
        if isinstance(v, str):
            return Seq([Fam((), TRUE, x) for x in v])
        if isinstance(v, U):
            return self.lift_iter(v, node)
        h = getattr(v, "iterate", None)
        if h is not None:
            return h(self)
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal) and v.cls.find("__iter__")[1] is not None:
            return self.iterate(self.call(self.getattr_(v, "__iter__"), [], {}), node)
        if isinstance(v, Obj):
            sc = self.schema.get(v.kind)
            if sc is not None and hasattr(sc, "iterate"):
                return sc.iterate(self, v)
        if v is None or isinstance(v, (int, float)):
            self.raise_(ExcVal("TypeError", ("not iterable",)))
        self.unsupported("iteration over %r" % (v,), node)

    def dict_iter(self, d):
        parts = []
        for e in d.entries:
            if e.kind == "acc":
                continue
            parts.append(Fam(e.binders, e.guard, e.key))
        return Seq(parts)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr_(o, e.attr, e)

    def getattr_(self, o, name, node=None):
        o = self.simp(o)
        if isinstance(o, U):
            return self.lift(lambda x: self.getattr_(x, name, node), o)
        if o is None:
            self.raise_(ExcVal("AttributeError", ("None has no " + name,)))
        v = self.attr_or_missing(o, name, node)
        if v is MISSING:
            self.raise_(ExcVal("AttributeError", (name,)))
        if isinstance(v, U) and any(x is MISSING for _, x in v.cases):
            miss = tm.or_(*[g for g, x in v.cases if x is MISSING])
            self.raise_if(miss, ExcVal("AttributeError", (name,)))
            v = self.simp(U([(g, x) for g, x in v.cases if x is not MISSING]))
        if isinstance(v, Poison):
            self.unsupported("attribute %s: %s" % (name, v.why), node)
        return self.known(v, name, node)

    def attr_or_missing(self, o, name, node=None):
        """attribute value, MISSING, or a union of both"""
        o = self.simp(o)
        if isinstance(o, U):
            return self.lift(lambda x: self.attr_or_missing(x, name, node), o)
        v = self.attr_of(o, name, node)
        if v is MISSING and not absent(o, name):
            self.unsupported("attribute %s of %s %s" % (
                name, type(o).__name__, getattr(o, "kind", "") or getattr(o, "name", "")), node)
        return v

    def attr_of(self, o, name, node=None):
        if isinstance(o, ModuleVal):
            v = self.module_attr(o, name)
            return MISSING if v is None else v
        if isinstance(o, Inst):
            if name in o.slots:
                v = self.simp(o.slots[name])
                if v is UNDEF:
                    v = self.class_attr(o, o.cls, name)
                elif isinstance(v, U) and any(x is UNDEF for _, x in v.cases):
                    v = U([(g, MISSING if x is UNDEF else x) for g, x in v.cases])
                return v
            if o.hook is not None:
                v = o.hook(self, o, name)
                if v is not None:
                    return v
            return self.class_attr(o, o.cls, name)
        if isinstance(o, Obj):
            sc = self.schema.get(o.kind)
            if sc is None:
                self.unsupported("no schema for %s" % o.kind, node)
            hd = self.heap.get((o.kind, name))
            if hd is not None:
                return self.dict_get(hd, o.key, node, sc(self, o, name), True)
            return sc(self, o, name)
        if isinstance(o, ClassVal):
            v, _ = o.find(name)
            if v is None and name not in o.ns:
                if name == "__name__":
                    return o.name
                for b in o.mro():
                    if isinstance(b, NativeClass):
                        h = getattr(b, "class_attr", None)
                        if h:
                            return h(self, o, name)
                return MISSING
            return v
        if isinstance(o, T):
            h = self.models["term_attr"]
            return h(self, o, name)
        if isinstance(o, SDict):
            return self.dict_attr(o, name)
        if isinstance(o, Seq):
            return self.seq_attr(o, name)
        h = getattr(o, "attr", None)
        if h is not None:
            return h(self, name)
        if isinstance(o, (str, SymStr)):
            return Builtin("str." + name, lambda it, a, k: self.str_method(o, name, a))
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, ExcVal):
            return Opaque("exc." + name)
        if isinstance(o, SuperVal):
            return o.lookup(self, name)
        if isinstance(o, (Closure, Builtin, Bound)) and name in ("__name__", "__doc__"):
            return o.qual.split(".")[-1] if isinstance(o, Closure) else "f"
        if isinstance(o, NativeClass):
            if name == "__name__":
                return o.name
            at = getattr(o, "attrs", {})
            if name in at:
                return at[name]
            return Opaque(o.name + "." + name)
        if isinstance(o, (int, float)):
            return MISSING
        if isinstance(o, (SymSeq, LamSeq)):
            return self.models["seq_attr"](self, o, name)
        if isinstance(o, tuple):
            if name == "count" or name == "index":
                self.unsupported("tuple method", node)
            return MISSING
        self.unsupported("attribute %s of %r" % (name, o), node)

    def str_method(self, s, name, args):
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args):
            try:
                return getattr(s, name)(*args)
            except Exception:
                return SymStr(name)
        if isinstance(s, str) and name == "join":
            return SymStr(name)
        return SymStr(name)

    def class_attr(self, o, cls, name):
        if isinstance(cls, ClassVal):
            v, owner = cls.find(name)
            if v is not None:
                if isinstance(v, Closure):
                    if "property" in v.decorators:
                        return self.call(v, [o], {})
                    if "staticmethod" in v.decorators:
                        return v
                    return Bound(v, o if "classmethod" not in v.decorators else cls)
                return v
            for c in cls.mro():
                if isinstance(c, NativeClass):
                    h = getattr(c, "inst_attr", None)
                    if h is not None:
                        v = h(self, o, name)
                        if v is not None:
                            return v
            if name == "__class__":
                return cls
            return MISSING
        h = getattr(cls, "inst_attr", None)
        if h is not None:
            v = h(self, o, name)
            if v is not None:
                return v
        return MISSING

    def replaces(self, old, new):
        """Pyomo drops a component when its name is used again"""
        for x in ([c for _, c in old.cases] if isinstance(old, U) else [old]):
            nm = getattr(x, "name", None)
            if not hasattr(x, "attach") or nm is None or x is new:
                continue
            for r in self.rows:
                if r.owner == nm:
                    r.guard = tm.and_(r.guard, tm.not_(self.pc))
            if type(x).__name__ == "PVar":
                self.unsupported("variable %s replaced" % nm)

    def setattr_(self, o, name, v, node=None):
        o = self.simp(o)
        if isinstance(o, U):
            return self.lift(lambda x: self.setattr_(x, name, v, node), o)
        if isinstance(o, Inst):
            if getattr(o, "frozen", False):
                self.unsupported("write to an object of a family", node)
            if isinstance(o.cls, ClassVal):
                st, _ = o.cls.find(name + "@setter")
                if st is not None:
                    self.call(st, [o, v], {})
                    return
            h = getattr(v, "attach", None)
            if h is not None and getattr(o, "is_block", False):
                self.replaces(o.slots.get(name), v)
                self.setslot(o.slots, name, v, o.base)
                h(self, o, name)
                return
            self.setslot(o.slots, name, v, o.base)
            return
        if isinstance(o, Obj):
            # objects of a symbolic family: attribute = map from the object
            hd = self.heap.get((o.kind, name))
            if hd is None:
                hd = self.heap[(o.kind, name)] = SDict((), None, TRUE)
                DICTS[id(hd.slots)] = hd
            self.dict_set(hd, o.key, v)
            return
        if isinstance(o, T):
            self.models["term_setattr"](self, o, name, v)
            return
        h = getattr(o, "setattr_", None)
        if h is not None:
            return h(self, name, v)
        if isinstance(o, (Opaque, ClassVal)):
            if isinstance(o, ClassVal):
                self.rawset(o.ns, name, v)
            return
        self.unsupported("setattr on %r" % (o,), node)

    # ------------------------------------------------------------- subscripts
    def e_Subscript(self, e):
        o = self.ev(e.value)
        ix = self.ev_index(e.slice)
        return self.getitem(o, ix, e)

    def getitem(self, o, ix, node=None):
        o = self.simp(o)
        if isinstance(o, U):
            return self.lift(lambda x: self.getitem(x, ix, node), o)
        ix = self.simp(ix)
        if o is None:
            self.raise_(ExcVal("TypeError", ("None not subscriptable",)))
        if isinstance(ix, U):
            return self.lift(lambda x: self.getitem(o, x, node), ix)
        h = getattr(o, "getitem", None)
        if h is not None:
            return h(self, ix)
        if isinstance(o, SDict):
            return self.dict_get(o, ix, node)
        if isinstance(o, (SymSeq, LamSeq)):
            if isinstance(ix, tuple):
                if ix and ix[0] == "slice" and ix[1] in (None, 0) and ix[2] is not None and ix[3] is None:
                    return Cut(o, self.term(ix[2], node))
                self.unsupported("slice of a sequence", node)
            return o.at(self.term(ix, node))
        if isinstance(o, tuple):
            if isinstance(ix, tuple) and ix and ix[0] == "slice":
                return o[slice(*[self.py_int(x, node) for x in ix[1:]])]
            return self.index_list(o, ix, node)
        if isinstance(o, Seq):
            if isinstance(ix, tuple) and ix and ix[0] == "slice":
                return self.seq_slice(o, ix, node)
            return self.seq_index(o, ix, node)
        if isinstance(o, str):
            if isinstance(ix, int):
                return o[ix]
            return SymStr("slice")
        if isinstance(o, Obj):
            sc = self.schema.get(o.kind)
            g = getattr(sc, "getitem", None)
            if g is not None:
                return g(self, o, ix)
        if isinstance(o, Inst):
            m = self.attr_or_missing(o, "__getitem__", node)
            if m is not MISSING:
                return self.call(m, [ix], {})
        if isinstance(o, (int, float)) or (isinstance(o, T) and tm.is_num_sort(o.sort)):
            self.raise_(ExcVal("TypeError", ("number not subscriptable",)))
        self.unsupported("subscript of %r" % (o,), node)

    def py_int(self, x, node):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, T) and tm.const_val(x) is not None:
            return int(tm.const_val(x))
        self.unsupported("symbolic slice bound", node)

    def index_list(self, vals, ix, node):
        if isinstance(ix, T) and tm.const_val(ix) is not None:
            ix = int(tm.const_val(ix))
        if isinstance(ix, int):
            if -len(vals) <= ix < len(vals):
                return vals[ix]
            self.raise_(ExcVal("IndexError"))
        t = self.term(ix, node)
        out = UNDEF
        for k in reversed(range(len(vals))):
            c = tm.eq(t, tm.num(k))
            out = vals[k] if out is UNDEF else self.merge(c, vals[k], out)
        if out is UNDEF:
            self.raise_(ExcVal("IndexError"))
        return out

    def seq_slice(self, o, ix, node):
        _, lo, hi, st = ix
        if o.rng is not None and st is None:
            a, b = o.rng
            l = a if lo is None else None
            n = tm.sub(b, a)

            def pos(x):
                t = self.term(x, node)
                d = self.decide(tm.le(tm.ZERO, t))
                if d is True:
                    return tm.add(a, t)
                if d is False:
                    return tm.add(b, t)
                self.unsupported("slice", node)
            lo2 = a if lo is None else pos(lo)
            hi2 = b if hi is None else pos(hi)
            return self.mkrange(lo2, hi2)
        if o.concrete():
            vals = o.values()
            vals = vals[slice(*[self.py_int(x, node) for x in ix[1:]])]
            return self.mklist([Fam((), TRUE, v) for v in vals])
        self.unsupported("slice of a symbolic list", node)

    def mkrange(self, lo, hi):
        cl, ch = tm.const_val(lo), tm.const_val(hi)
        if cl is not None and ch is not None and ch - cl <= 64:
            s = Seq([Fam((), TRUE, int(k)) for k in range(int(cl), int(ch))])
            s.rng = (lo, hi)
            return s
        k = tm.fresh("k", "I")
        s = Seq([Fam((k,), tm.and_(tm.le(lo, k), tm.lt(k, hi)), k)])
        s.rng = (lo, hi)
        return s

    def seq_index(self, o, ix, node):
        if "pset" in o.meta:
            return o.meta["pset"](self, ix)
        if o.rng is not None:
            t = self.term(ix, node)
            lo, hi = o.rng
            d = self.decide(tm.le(tm.ZERO, t))
            if d is True:
                return tm.add(lo, t)
            if d is False:
                return tm.add(hi, t)
            self.unsupported("index sign unknown", node)
        if o.concrete():
            return self.index_list(o.values(), ix, node)
        if "repeat" in o.meta:
            return o.meta["repeat"][0]
        if "at" in o.meta:
            return o.meta["at"](self, ix)
        if isinstance(ix, int):
            # first element(s) when they are unconditional
            ps = o.parts
            if ix >= 0 and len(ps) > ix and all(
                    not p.binders and p.guard is TRUE for p in ps[: ix + 1]):
                return ps[ix].value
            if not any(p.binders for p in ps) and ix in (0, -1):
                # first (last) of the elements that are there
                out, none = [], TRUE
                for p in (ps if ix == 0 else reversed(ps)):
                    out.append((tm.and_(none, p.guard), p.value))
                    none = tm.and_(none, tm.not_(p.guard))
                self.raise_if(none, ExcVal("IndexError"))
                return self.simp(U([(g, v) for g, v in out if g is not FALSE]))
            # a single generic family whose position function is known
            if "first" in o.meta and ix == 0:
                return o.meta["first"]
        # elements that are all the same
        if len(o.parts) == 1 and isinstance(o.parts[0].value, (str, int, float)) and ix in (0, -1):
            p = o.parts[0]
            self.raise_if(tm.not_(tm.exists(p.binders, p.guard, TRUE)), ExcVal("IndexError"))
            return p.value
        # list comprehension over an integer range: element k
        if len(o.parts) == 1 and len(o.parts[0].binders) == 1:
            p = o.parts[0]
            b = p.binders[0]
            lohi = range_guard(p.guard, b)
            if lohi is not None:
                lo, hi, rest = lohi
                if rest is TRUE:
                    t = self.term(ix, node)
                    if self.decide(tm.le(tm.ZERO, t)) is True:
                        return subst_value(p.value, {b: tm.add(lo, t)})
                    if self.decide(tm.lt(t, tm.ZERO)) is True:
                        return subst_value(p.value, {b: tm.add(hi, t)})
        from .order import element
        r = element(self, o, self.term(ix, node))
        if r is not None:
            return r
        self.unsupported("index into a symbolic list %r[%r]" % (o, ix), node)

    def solve_match(self, binders, key, target, node):
        """solve key(binders) == target; -> (cond, mapping) or None"""
        ks, ts = flat_index(key), flat_index(target)
        if len(ks) != len(ts):
            return FALSE, {}
        cond = []
        m = {}
        pend = []
        for a, b in zip(ks, ts):
            a = self.keyterm(a)
            b = self.keyterm(b)
            if isinstance(a, Obj) and isinstance(b, Obj):
                if a.kind != b.kind:
                    return FALSE, {}
                pend.extend(zip(a.key, b.key))
            elif isinstance(a, T) and isinstance(b, T):
                pend.append((a, b))
            elif isinstance(a, (T, Obj)) or isinstance(b, (T, Obj)):
                return FALSE, {}
            else:
                if not self.same(a, b):
                    return FALSE, {}
        rest = []
        for a, b in pend:
            if a in binders and a not in m:
                m[a] = b
            else:
                rest.append((a, b))
        for a, b in rest:
            un = [x for x in binders if x not in m and x in a.fv]
            if un:
                s = tm.solve_point(tm.eq(tm.subst(a, m), b), tuple(un)) \
                    if a.sort == b.sort else None
                if s is None:
                    return None
                m[s[0]] = s[1]
            else:
                if a.sort != b.sort and not (tm.is_num_sort(a.sort) and tm.is_num_sort(b.sort)):
                    return FALSE, {}
                cond.append(tm.eq(tm.subst(a, m), b))
        return tm.and_(*cond), m

    def keyterm(self, v):
        v = self.simp(v)
        if isinstance(v, (T, Obj)):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return tm.num(v)
        return v

    def dict_get(self, d, ix, node, default=None, has_default=False):
        val = UNDEF
        if d.open is not None:
            # dict being written by the current loop body
            for e in reversed(d.entries[d.open[0]:]):
                if self.same_key(e.key, ix) and self.quick(e.guard) is True and not e.binders:
                    return e.value
            saved, d.open = d.open, None
            full = d.slots["entries"]
            d.slots["entries"] = full[: saved[0]]
            try:
                base = self.dict_get(d, ix, node, default, has_default)
            finally:
                d.slots["entries"] = full
                d.open = saved
            t = self.maybe_term(base) if not isinstance(base, U) else None
            if t is None:
                if isinstance(base, (SList,)):
                    self.unsupported("list-valued dict updated in a loop", node)
                return base
            H = tm.fresh("dacc", "R" if tm.is_num_sort(t.sort) else t.sort)
            saved[1].append((ix, H))
            return H
        for e in d.entries:
            r = self.solve_match(e.binders, e.key, ix, node)
            if r is None:
                if e.kind == "acc":
                    r = (TRUE, {})
                else:
                    self.unsupported("dict lookup", node)
            cond, m = r
            if cond is FALSE:
                continue
            un = tuple(b for b in e.binders if b not in m)
            g = tm.and_(cond, tm.subst(e.guard, m))
            if e.kind != "acc":
                # equalities of the guard determine further binders
                while un:
                    p = next(filter(None, (tm.solve_point(c, un) for c in tm.conj(g))), None)
                    if p is None:
                        break
                    m = {b: tm.subst(x, {p[0]: p[1]}) for b, x in m.items()}
                    m[p[0]] = p[1]
                    g = tm.subst(g, {p[0]: p[1]})
                    un = tuple(b for b in un if b is not p[0])
            if e.kind == "acc":
                cond2 = self.key_eq_full(e, ix, m)
                add = tm.mksum(un, tm.and_(tm.subst(e.guard, m), cond2),
                               tm.subst(e.value, m)) if un else \
                    tm.ite(g, tm.subst(e.value, m), tm.ZERO)
                if val is UNDEF:
                    self.unsupported("accumulating on a missing key", node)
                val = tm.add(self.term(val), add)
            else:
                if un:
                    # last writer over un-determined binders: fine only if the
                    # value does not depend on them
                    v = subst_value(e.value, m)
                    if not free_of(v, set(un)):
                        self.unsupported("dict entry written by several iterations", node)
                    g = tm.exists(un, g, TRUE)
                else:
                    v = subst_value(e.value, m)
                d2 = self.quick(g)
                if d2 is None:
                    d2 = self.decide(g)
                if d2 is True:
                    val = v
                elif d2 is False:
                    continue
                else:
                    val = self.merge(g, v, val)
        if val is UNDEF:
            if has_default:
                return default
            if d.default is not None:
                v = self.call(d.default, [], {})
                self.dict_set(d, ix, v)
                return v
            self.raise_(ExcVal("KeyError"))
        val = self.simp(val)
        if isinstance(val, U) and any(x is UNDEF for _, x in val.cases):
            miss = tm.or_(*[g for g, x in val.cases if x is UNDEF])
            rest = [(g, x) for g, x in val.cases if x is not UNDEF]
            if has_default:
                return U(rest + [(miss, default)])
            if d.default is not None:
                self.unsupported("defaultdict with symbolic presence", node)
            self.raise_if(miss, ExcVal("KeyError"))
            val = self.simp(U(rest))
        return val

    def key_eq_full(self, e, ix, m):
        ks, ts = flat_index(e.key), flat_index(ix)
        out = []
        for a, b in zip(ks, ts):
            a, b = self.keyterm(a), self.keyterm(b)
            if isinstance(a, Obj):
                out.extend(tm.eq(tm.subst(x, m), y) for x, y in zip(a.key, b.key))
            elif isinstance(a, T):
                out.append(tm.eq(tm.subst(a, m), b))
        return tm.and_(*out)

    def dict_set(self, d, ix, v):
        g = self.rel_cond(d.base)
        # relative to the innermost loop the guard is completed by summarise()
        self.rawset(d.slots, "entries",
                    d.slots["entries"] + (Entry("set", (), g, ix, v),))

    def setitem(self, o, ix, v, node=None):
        o = self.simp(o)
        if isinstance(o, U):
            return self.lift(lambda x: self.setitem(x, ix, v, node), o)
        h = getattr(o, "setitem", None)
        if h is not None:
            return h(self, ix, v)
        if isinstance(o, SDict):
            self.dict_set(o, self.simp(ix), v)
            return
        if isinstance(o, SList):
            ix = self.simp(ix)
            if isinstance(ix, int) and o.concrete():
                ps = list(o.parts)
                if not -len(ps) <= ix < len(ps):
                    self.raise_(ExcVal("IndexError"))
                c = self.rel_cond(o.base)
                ps[ix] = Fam((), TRUE, self.merge(c, v, ps[ix].value))
                self.rawset(o.slots, "parts", tuple(ps))
                o.rng = None
                return
            if isinstance(ix, int) and o.meta.get("prefix") is None and len(o.parts) == 1:
                p = o.parts[0]
                if len(p.binders) == 1:
                    lohi = range_guard(p.guard, p.binders[0])
                    if lohi is not None and lohi[2] is TRUE and ix == 0:
                        lo, hi, _ = lohi
                        b = p.binders[0]
                        self.rawset(o.slots, "parts", (
                            Fam(p.binders, p.guard, self.merge(
                                tm.and_(tm.eq(b, lo), self.rel_cond(o.base)), v, p.value)),))
                        o.rng = None
                        return
        self.unsupported("item assignment on %r" % (o,), node)

    def list_extend(self, lst, seq):
        g = self.rel_cond(lst.base)
        self.rawset(lst.slots, "parts", lst.slots["parts"] + tuple(
            Fam(p.binders, tm.and_(g, p.guard), p.value) for p in seq.parts))
        lst.rng = None

    def seq_attr(self, o, name):
        if name == "append":
            def f(it, a, k):
                g = it.rel_cond(o.base)
                it.rawset(o.slots, "parts", o.slots["parts"] + (Fam((), g, a[0]),))
                o.rng = None
            return Builtin("append", f)
        if name in ("extend", "update"):
            return Builtin("extend", lambda it, a, k: it.list_extend(o, it.lift_iter(a[0], None)))
        if name in ("at",):
            return Builtin("at", lambda it, a, k: self.set_at(o, a[0]))
        if name in ("last", "first"):
            return Builtin(name, lambda it, a, k: self.set_at(o, -1 if name == "last" else 1))
        if name == "add":
            return Builtin("add", lambda it, a, k: it.list_extend(o, Seq([Fam((), TRUE, a[0])])))
        if name == "data":
            return Builtin("data", lambda it, a, k: o)
        if name == "keys" or name == "values" or name == "copy":
            return Builtin(name, lambda it, a, k: o)
        if name in ("max", "min"):
            return Builtin(name, lambda it, a, k: it.call(it.models["builtins"].attrs[name], [o], {}))
        if name in ("next", "prev", "ord") and o.rng is not None:
            def near(it, a, k):
                x, (lo, hi) = it.term(a[0]), o.rng
                it.raise_if(tm.not_(tm.and_(tm.le(lo, x), tm.lt(x, hi))),
                            ExcVal("KeyError", ("not in the set",)))
                if name == "ord":
                    return tm.add(tm.sub(x, lo), tm.ONE)
                n = it.term(a[1] if len(a) > 1 else k.get("step", 1))
                x = tm.add(x, n) if name == "next" else tm.sub(x, n)
                it.raise_if(tm.not_(tm.and_(tm.le(lo, x), tm.lt(x, hi))),
                            ExcVal("IndexError", ("beyond the end of a set",)))
                return x
            return Builtin(name, near)
        if name in ("index", "count", "remove", "pop", "sort", "insert", "next", "prev",
                    "prevw", "nextw", "ord"):
            def g(it, a, k):
                it.unsupported("list method " + name)
            return Builtin(name, g)
        if name == "__len__":
            return Builtin("len", lambda it, a, k: it.length(o))
        if name == "union":
            return Builtin("union", lambda it, a, k: Seq(o.parts + it.iterate(a[0]).parts))
        if name in ("intersection", "difference", "issubset"):
            op = {"intersection": ast.BitAnd(), "difference": ast.Sub()}.get(name)
            if name == "issubset":
                return Builtin(name, lambda it, a, k: it.compare(ast.LtE(), o, it.iterate(a[0]), None))
            return Builtin(name, lambda it, a, k: it.binop(op, o, it.iterate(a[0]), None))
        return MISSING

    def set_at(self, o, k):
        if "pset" in o.meta:
            return o.meta["pset"](self, k)
        if o.rng is not None:
            t = self.term(k)
            d = self.decide(tm.lt(tm.ZERO, t))
            if d is True:
                return tm.add(o.rng[0], tm.sub(t, tm.ONE))
            if d is False:
                return tm.add(o.rng[1], t)
            self.unsupported("at() sign")
        if o.concrete() and isinstance(k, int):
            vs = o.values()
            return vs[k - 1] if k > 0 else vs[k]
        self.unsupported("at() on a symbolic set")

    def dict_attr(self, d, name):
        if name == "keys":
            return Builtin("keys", lambda it, a, k: it.dict_iter(d))
        if name == "items":
            def items(it, a, k):
                return it.dict_items(d)
            return Builtin("items", items)
        if name == "values":
            def values(it, a, k):
                s = it.dict_items(d)
                return Seq([Fam(p.binders, p.guard, p.value[1]) for p in s.parts])
            return Builtin("values", values)
        if name == "get":
            return Builtin("get", lambda it, a, k: it.lift(
                lambda kk: it.dict_get(d, kk, None, a[1] if len(a) > 1 else k.get("default"), True), a[0]))
        if name == "update":
            def upd(it, a, k):
                if a:
                    src = it.simp(a[0])
                    if not isinstance(src, SDict):
                        it.unsupported("dict.update of %r" % (src,))
                    g = it.rel_cond(d.base)
                    it.rawset(d.slots, "entries", d.slots["entries"] + tuple(
                        Entry(e.kind, e.binders, tm.and_(g, e.guard), e.key, e.value)
                        for e in src.entries))
                for kk, vv in k.items():
                    it.dict_set(d, kk, vv)
            return Builtin("update", upd)
        if name == "setdefault":
            def sd(it, a, k):
                c = it.truth(it.contains(d, a[0], None))
                if it.decide(c) is True:
                    return it.dict_get(d, a[0], None)
                if it.decide(c) is False:
                    it.dict_set(d, a[0], a[1])
                    return a[1]
                it.unsupported("setdefault")
            return Builtin("setdefault", sd)
        if name == "copy":
            return Builtin("copy", lambda it, a, k: it.mkdict(d.entries, d.default))
        if name == "pop":
            def g(it, a, k):
                it.unsupported("dict.pop")
            return Builtin("pop", g)
        return MISSING

    def dict_items(self, d):
        parts = []
        for n, e in enumerate(d.entries):
            if e.kind == "acc":
                continue
            bs, g, (k, v) = self.generic(Fam(e.binders, e.guard, (e.key, e.value)))
            later = d.entries[n + 1:]
            if later:
                sv = self.pc
                self.pc = tm.and_(sv, g)
                try:
                    v = self.dict_get(d, k, None)
                except Dead:
                    continue
                finally:
                    self.pc = sv
            parts.append(Fam(bs, g, (k, v)))
        # duplicates (a key set twice) are not expected here
        return Seq(parts)

    # ------------------------------------------------------------------ len
    def length(self, v):
        v = self.simp(v)
        if isinstance(v, U):
            return self.lift(self.length, v)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, SDict):
            v = self.dict_iter(v)
        h = getattr(v, "length", None)
        if h is not None:
            return h(self)
        if isinstance(v, Seq):
            if v.rng is not None:
                lo, hi = v.rng
                n = tm.sub(hi, lo)
                if self.decide(tm.le(tm.ZERO, n)) is True:
                    c = tm.const_val(n)
                    return int(c) if c is not None else n
                return tm.ite(tm.le(tm.ZERO, n), n, tm.ZERO)
            if v.concrete():
                return len(v.parts)
            if "repeat" in v.meta:
                return v.meta["repeat"][1]
            if "len" in v.meta:
                return v.meta["len"]
            out = tm.ZERO
            for p in v.parts:
                lh = range_guard(p.guard, p.binders[0]) if len(p.binders) == 1 else None
                if lh is not None and lh[2] is TRUE and self.decide(tm.le(lh[0], lh[1])) is True:
                    out = tm.add(out, tm.sub(lh[1], lh[0]))
                else:
                    s = tm.mksum(p.binders, p.guard, tm.ONE) if p.binders else \
                        tm.ite(p.guard, tm.ONE, tm.ZERO)
                    out = tm.add(out, s)
            return out
        if v is None or isinstance(v, (int, float)):
            self.raise_(ExcVal("TypeError", ("len",)))
        if isinstance(v, Obj):
            sc = self.schema.get(v.kind)
            g = getattr(sc, "length", None)
            if g is not None:
                return g(self, v)
        if isinstance(v, Inst):
            m = self.attr_or_missing(v, "__len__")
            if m is not MISSING:
                return self.call(m, [], {})
        self.unsupported("len of %r" % (v,))

    def sum_(self, seq, start=0):
        out = self.maybe_term(start)
        if out is None:
            self.unsupported("sum start")
        for p in seq.parts:
            v = p.value
            if isinstance(v, U) or v is None:
                sv = self.pc
                self.pc = tm.and_(sv, p.guard)
                t = self.term(v)
                self.pc = sv
            else:
                t = self.term(v)
            if t.sort == "B":
                t = tm.ite(t, tm.ONE, tm.ZERO)
            if p.binders:
                out = tm.add(out, tm.mksum(p.binders, p.guard, t))
            else:
                out = tm.add(out, tm.ite(p.guard, t, tm.ZERO))
        return out

    # ----------------------------------------------------------------- calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            cls = fr.fn.cls
            k = fr
            f = fr
            for f in reversed(self.frames):
                if f.fn is not None and f.fn.cls is not None:
                    break
            selfn = f.fn.node.args.args[0].arg
            return SuperVal(f.fn.cls, f.env.vars[selfn])
        fn = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.simp(self.ev(a.value))
                if isinstance(v, (tuple,)) or (isinstance(v, Seq) and v.concrete()):
                    args.extend(self.tuple_of(v, a))
                else:
                    args.append(StarArg(v))
            else:
                args.append(self.ev(a))
        kwargs, more = {}, []
        for k in e.keywords:
            if k.arg is None:
                more.append(self.simp(self.ev(k.value)))
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.where = e.lineno
        if not more:
            return self.call(fn, args, kwargs, e)

        def go(*ds):
            kw = dict(kwargs)
            for d in ds:
                if not isinstance(d, SDict):
                    self.unsupported("** of %r" % (d,), e)
                for en in d.entries:
                    if en.binders or not isinstance(en.key, str) or (
                            en.guard is not TRUE and self.decide(en.guard) is not True):
                        self.unsupported("** of a symbolic dict", e)
                    if en.key in kw:
                        self.raise_(ExcVal("TypeError", ("argument given twice",)))
                    kw[en.key] = en.value
            return self.call(fn, args, kw, e)
        return self.lift(go, *more)

    def call(self, fn, args, kwargs, node=None):
        fn = self.simp(fn)
        if isinstance(fn, U):
            return self.lift(lambda f: self.call(f, args, kwargs, node), fn)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Closure):
                return self.call(fn.fn, [fn.self_] + list(args), kwargs, node)
            return self.call(fn.fn, [fn.self_] + list(args), kwargs, node)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), dict(kwargs))
        if isinstance(fn, Closure):
            c = self.contracts.get(fn.qual)
            if c is not None:
                if hasattr(c, "capture"):
                    return c.capture(fn, args, kwargs)
                self.called_contracts.add(fn.qual)
                return c(self, list(args), dict(kwargs))
            return self.call_closure(fn, args, kwargs, node)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kwargs, node)
        if isinstance(fn, NativeClass):
            if fn.ctor is not None:
                return fn.ctor(self, list(args), dict(kwargs))
            if fn.name in EXC_PARENTS:
                return ExcVal(fn.name, tuple(a for a in args))
            self.unsupported("constructor " + fn.name, node)
        if isinstance(fn, Opaque):
            nm = fn.name
            last = nm.split(".")[-1]
            if last in EXC_PARENTS:
                return ExcVal(last, tuple(args))
            if nm.startswith(("warnings.", "logging.")) or last in ("warn",):
                self.warned.append((self.pc, nm))
                return None
            self.unsupported("call of external %s" % nm, node)
        h = getattr(fn, "call", None)
        if h is not None:
            return h(self, list(args), dict(kwargs))
        if isinstance(fn, Inst):
            m = self.attr_or_missing(fn, "__call__", node)
            if m is not MISSING:
                return self.call(m, args, kwargs, node)
        self.unsupported("call of %r" % (fn,), node)

    def instantiate(self, cls, args, kwargs, node=None):
        for c in cls.mro():
            if isinstance(c, NativeClass) and exc_isinstance(c.name, "Exception"):
                return ExcVal(cls.name, tuple(args))
        o = Inst(cls, self.pc)
        for c in cls.mro():
            if isinstance(c, NativeClass) and getattr(c, "is_block", False):
                o.is_block = True
        init, owner = cls.find("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs, node)
        else:
            for c in cls.mro():
                if isinstance(c, NativeClass) and getattr(c, "init", None):
                    c.init(self, o, list(args), dict(kwargs))
                    break
        return o

    def bind(self, fn, args, kwargs, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if any(isinstance(x, StarArg) for x in args):
            # f(*symbolic): only a matching *args parameter
            self.unsupported("star call with a symbolic sequence", node)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(ExcVal("TypeError", ("too many arguments",)))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra, perhaps = {}, {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in vals and k in names:
                self.raise_(ExcVal("TypeError", ("multiple values",)))
            if k in names or k in kwonly:
                if isinstance(v, Maybe):
                    perhaps[k] = v
                    continue
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_(ExcVal("TypeError", ("unexpected keyword " + k,)))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.mkdict(
                [Entry("set", (), v.present, k, v.value) if isinstance(v, Maybe)
                 else Entry("set", (), TRUE, k, v) for k, v in extra.items()])
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            vals.setdefault(n, d)
        for x, d, raw in zip(kwonly, fn.kwdefaults, a.kw_defaults):
            if raw is not None:
                vals.setdefault(x, d)
        for k, v in perhaps.items():
            if k not in vals:
                self.raise_if(tm.not_(v.present), ExcVal("TypeError", ("missing argument " + k,)))
            vals[k] = self.merge(v.present, v.value, vals.get(k, UNDEF))
        for n in names + kwonly:
            if n not in vals:
                self.raise_(ExcVal("TypeError", ("missing argument " + n,)))
        return vals

    def call_closure(self, fn, args, kwargs, node=None):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            self.unsupported("recursion depth", node)
        try:
            vals = self.bind(fn, args, kwargs, node)
            env = Env(fn.env, self.pc)
            env.vars.update(vals)
            fr = Frame(fn, env, fn.module)
            self.executed[fn.qual] = self.executed.get(fn.qual, 0) + 1
            self.frames.append(fr)
            pc0 = self.pc
            try:
                if isinstance(fn.node, ast.Lambda):
                    return self.ev(fn.node.body)
                if is_generator(fn.node):
                    self.unsupported("generator function", node)
                try:
                    self.block(fn.node.body)
                    fr.returns.append((self.pc, None))
                except Dead:
                    pass
            finally:
                self.frames.pop()
            rets = [(g, v) for g, v in fr.returns if g is not FALSE]
            if not rets:
                self.pc = FALSE
                raise Dead()
            if len(rets) == 1:
                g, v = rets[0]
                self.pc = self.join(pc0, [g])
                return v
            self.pc = self.join(pc0, [g for g, _ in rets])
            base = set(tm.conj(pc0))
            out = rets[-1][1]
            for g, v in reversed(rets[:-1]):
                rel = tm.and_(*[c for c in tm.conj(g) if c not in base])
                out = self.merge(rel, v, out)
            return out
        finally:
            self.depth -= 1


def is_generator(node):
    for s in ast.walk(node):
        if isinstance(s, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Maybe:
    """keyword argument that is given or not"""

    def __init__(self, present, value):
        self.present, self.value = present, value


class StarArg:
    def __init__(self, v):
        self.v = v


class SomeClass(Opaque):
    """class that is not known: may be equal to any other"""


class SymStr:
    def __init__(self, why, parts=()):
        self.why, self.parts = why, parts

    def __repr__(self):
        return "<str %s>" % self.why


class LamSeq:
    """k |-> body(k)"""

    def __init__(self, k, body):
        self.k, self.body = k, body

    def at(self, t):
        return tm.subst(self.body, {self.k: t}) if isinstance(self.body, T) else self.body


class Cut:
    """the first n values of a sequence (a scalar stays a scalar)"""

    def __init__(self, seq, n):
        self.seq, self.n = seq, n

    def subst(self, m):
        return Cut(subst_value(self.seq, m), tm.subst(self.n, m))

    def getitem(self, it, k):
        if isinstance(k, tuple):
            it.unsupported("slice of a slice")
        return self.seq.at(it.term(k))


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def lookup(self, it, name):
        mro = self.obj.cls.mro() if isinstance(self.obj, Inst) and isinstance(self.obj.cls, ClassVal) else self.cls.mro()
        k = mro.index(self.cls) + 1
        for c in mro[k:]:
            if isinstance(c, ClassVal):
                if name in c.ns:
                    v = c.ns[name]
                    return Bound(v, self.obj) if isinstance(v, Closure) else v
            elif isinstance(c, NativeClass):
                if name == "__init__" and getattr(c, "init", None):
                    return Builtin("init", lambda i, a, kw: c.init(i, self.obj, a, kw))
        if name == "__init__":
            return Builtin("object.__init__", lambda i, a, kw: None)
        return MISSING


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()
DICTS = {}


def subst_value(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return tm.subst(v, m)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, U):
        return U([(tm.subst(g, m), subst_value(x, m)) for g, x in v.cases])
    if isinstance(v, Obj):
        k = tuple(tm.subst(x, m) for x in v.key)
        if k == v.key:
            return v
        o = Obj(v.kind, k, v.base)
        return o
    if isinstance(v, Inst):
        # element of a family of objects: a read-only copy
        if all(free_of(x, m) for x in v.slots.values()):
            return v
        c = Inst(v.cls, v.base)
        c.hook, c.frozen = v.hook, True
        c.slots = {k: subst_value(x, m) for k, x in v.slots.items()}
        return c
    if isinstance(v, SymSeq):
        h = getattr(v, "subst", None)
        if h is not None:
            return h(m)
        key = tuple(tm.subst(x, m) for x in v.key)
        if hasattr(v, "n"):
            return type(v)(v.name, tm.subst(v.n, m) if isinstance(v.n, T) else v.n, key, v.sort)
        return type(v)(v.name, key, v.sort)
    if isinstance(v, LamSeq):
        return LamSeq(v.k, subst_value(v.body, m))
    if isinstance(v, SList) or isinstance(v, Seq):
        s = type(v)([Fam(p.binders, tm.subst(p.guard, m), subst_value(p.value, m))
                     for p in v.slots["parts"]])
        if v.rng is not None:
            s.rng = tuple(tm.subst(x, m) for x in v.rng)
        s.base = v.base
        for k, x in v.meta.items():
            s.meta[k] = subst_value(x, m)
        return s
    if isinstance(v, SDict):
        d = SDict([Entry(e.kind, e.binders, tm.subst(e.guard, m),
                         subst_value(e.key, m), subst_value(e.value, m))
                   for e in v.entries], v.default, v.base)
        DICTS[id(d.slots)] = d
        return d
    if isinstance(v, Rel):
        return Rel(v.op, tm.subst(v.lhs, m), tm.subst(v.rhs, m))
    h = getattr(v, "subst", None)
    if h is not None:
        return h(m)
    return v


def free_of(v, bset):
    if isinstance(v, T):
        return not any(b in v.fv for b in bset)
    if isinstance(v, tuple):
        return all(free_of(x, bset) for x in v)
    if isinstance(v, U):
        return all(free_of(g, bset) and free_of(x, bset) for g, x in v.cases)
    if isinstance(v, (Obj, SymSeq)):
        return all(free_of(x, bset) for x in v.key)
    if isinstance(v, Inst):
        return all(free_of(x, bset) for x in v.slots.values())
    if isinstance(v, Seq):
        return all(free_of(p.guard, bset) and free_of(p.value, bset) for p in v.slots["parts"])
    return True


ONE_ = 1


def range_guard(g, b):
    """g = (lo <= b) and (b < hi) and rest  ->  (lo, hi, rest)"""
    lo = hi = None
    rest = []
    for c in tm.conj(g):
        if c.op == "<=" and c.args[0].sort == "I" and b in c.fv:
            p = tm.to_poly(tm.sub(c.args[0], c.args[1]))
            k = p.get(((b, 1),))
            oth = {m: v for m, v in p.items() if m != ((b, 1),)}
            if k is not None and abs(k) == 1 and not any(
                    b in a.fv for m in oth for a, _ in m):
                e = tm.from_poly({m: -v / k for m, v in oth.items()}, "I")
                if k == 1:                    # b <= e
                    e = tm.add(e, tm.ONE)
                    d = ONE_ if hi is None else tm.const_val(tm.sub(hi, e))
                    if d is not None:
                        hi = e if d > 0 else hi
                        continue
                if k == -1:                   # e <= b
                    d = ONE_ if lo is None else tm.const_val(tm.sub(e, lo))
                    if d is not None:
                        lo = e if d > 0 else lo
                        continue
        rest.append(c)
    if lo is None or hi is None:
        return None
    for c in list(rest):
        # not the first
        if c.op == "not" and c.args[0] is tm.eq(b, lo):
            lo = tm.add(lo, tm.ONE)
            rest.remove(c)
    return lo, hi, tm.and_(*rest)
