"""Folds: for-loops over an arbitrary finite collection, decided by one step from an arbitrary intermediate state.

A contract hands the code a Stream (an arbitrary collection). A for-loop over it is replaced by
  entry       the state before the loop satisfies the invariant for "nothing processed yet";
  step        from an arbitrary state satisfying the invariant for an arbitrary set of processed elements, one execution of the
              body on one further arbitrary element ends in a state satisfying the invariant for the enlarged set;
  after       the code behind the loop runs from an arbitrary state satisfying the invariant for everything processed.
The state is what the body changes: every variable it assigns that lives before the loop, and every object it changes.
"""
import ast

import z3

from . import core
from .core import PathEnd, PyExc, Unsupported, engine
from .interp import MDict, MList, LSet, _Break, _Continue, _Return, _read_before_write, assigned_names, bool_of
from .values import REPO_MODULES, Fam, SBool, SNum, Sym, as_num, is_sym, lnot, lor, value_eq, zb


class Stream(Fam):
    """An arbitrary finite collection given by an arbitrary element."""
    def __init__(self, element, fold=None, project=lambda e: e, kind=list, distinct=True):
        super().__init__(lambda: project(element()), kind=kind, distinct=distinct)
        self.fold = fold

    def run_for(self, interp, node, scope):
        self.fold.run_for(interp, node, scope, self)


class Fold:
    """name: prefix of the obligations.
    state(vars, phase): {variable: new value} - the arbitrary state, phase "step" or "after"; may look at the entry values.
    check(vars, element): obligations on the state after one step.
    entry(vars): obligations on the state before the loop.
    on_raise(exception, vars, element), on_return(value, vars, element): obligations when a step ends the function early.
    after(vars): called once the loop is replaced (may raise _Return for "a step has returned").
    """
    def __init__(self, name, state, check, entry=None, on_raise=None, on_return=None, after=None):
        self.name, self.state, self.check, self.entry, self.on_raise, self.on_return = name, state, check, entry, on_raise, on_return
        self.after = after
        self.used = False

    def visible(self, scope):
        env, s = {}, scope
        while s is not None:
            for k, v in s.vars.items():
                env.setdefault(k, v)
            s = s.parent
        return env

    def put(self, scope, new):
        for k, v in new.items():
            s = scope
            while s is not None and k not in s.vars:
                s = s.parent
            if s is None:
                raise Unsupported(f"no variable {k} to hold the state of the fold {self.name}")
            s.vars[k] = v

    def run_for(self, interp, node, scope, stream):
        eng = engine()
        if node.orelse:
            raise Unsupported("for-else over a symbolic collection")
        self.used = True
        chain, s = [], scope
        while s is not None:
            chain.append((s, dict(s.vars)))
            s = s.parent
        env0 = self.visible(scope)
        target = assigned_names([ast.Assign(targets=[node.target], value=None)])

        def restore():
            for sc, vs in chain:
                sc.vars = dict(vs)
        self.written = assigned_names(node.body) | nonlocal_writes(interp, node, scope)
        if self.entry is not None:
            eng.once((id(node), "entry"), lambda: eng.sub_explore(lambda: self.entry(env0)))
        held = set(self.state(env0, "names") or ())
        carried = {n for n in self.written if n in env0 and n not in target and n not in held}
        for n in carried:
            if n not in scope.vars or _read_before_write(n, node.body):
                raise Unsupported(f"loop-carried variable {n} is not part of the state of the fold {self.name}")
        frozen = frame_of(env0, held)

        def step():
            restore()
            try:
                self.put(scope, self.state(env0, "step"))
                pre = self.visible(scope)
                x = stream.pick()
                interp.assign(node.target, x, scope)
                try:
                    interp.exec_block(node.body, scope)
                except _Continue:
                    pass
                except _Return as ret:
                    if self.on_return is None:
                        raise Unsupported("return in a fold")
                    self.on_return(ret.v, pre, x)
                    return
                except _Break:
                    raise Unsupported("break in a fold")
                except PyExc as pe:
                    if self.on_raise is None:
                        if eng.feasible():
                            eng.prove(f"{self.name}: no {type(pe.exc).__name__} is raised", False, detail=f"raised {pe.exc!r}")
                        return
                    self.on_raise(pe, pre, x)
                    return
                for what, ok, own in frame_kept(frozen):
                    if own and not ok:
                        raise Unsupported(f"{what} changes along the fold {self.name} and is not part of its state")
                    eng.prove(f"{self.name}: a step leaves {what} alone", ok)
                self.check(pre, self.visible(scope), x)
            finally:
                restore()
        eng.once((id(node), "step"), lambda: eng.sub_explore(step))
        restore()
        self.put(scope, self.state(env0, "after"))
        if self.after is not None:
            self.after(self.visible(scope))


def nonlocal_writes(interp, node, scope):
    """Variables written through nonlocal by local functions that the loop body may call."""
    out = set()
    env, s = {}, scope
    while s is not None:
        for k, v in s.vars.items():
            env.setdefault(k, v)
        s = s.parent
    used = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name)}
    for k, v in env.items():
        n = getattr(v, "node", None)
        if k in used and isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                if isinstance(m, ast.Nonlocal):
                    out |= set(m.names)
    return out


def frame_of(env, held):
    """What the state does not cover and a step could change: (name, object, content, kind, made by the code itself?)."""
    out = []
    for k, v in env.items():
        if k in held:
            continue
        own = type(v) in (MDict, MList, LSet)
        if isinstance(v, (MDict, dict)) and type(v) in (MDict, dict):
            out.append((k, v, list(dict.items(v)) + list(getattr(v, "sym", [])), "map", own))
        elif isinstance(v, list):
            out.append((k, v, list(v), "list", own))
        elif isinstance(v, (set, LSet)) and not isinstance(v, frozenset):
            out.append((k, v, list(v), "list", own))
        elif type(v).__module__ in REPO_MODULES and hasattr(v, "__dict__"):
            out.append((k, v, list(vars(v).items()), "object", True))
    return out


def frame_kept(frozen):
    for k, v, old, kind, own in frozen:
        now = list(vars(v).items()) if kind == "object" else list(dict.items(v)) + list(getattr(v, "sym", [])) if kind == "map" else list(v)
        yield k, len(now) == len(old) and all(a is b or (kind != "list" and a[0] is b[0] and a[1] is b[1]) for a, b in zip(now, old)), own


class AMap(Sym):
    """A dict in an arbitrary state: present(k) and value(k) describe what it held to begin with.

    value(k) makes the object found under k; it is made once per key, so that changes to it are seen by later lookups.
    """
    py_type = dict

    def __init__(self, pick, present, value, default_factory=None, items_stream=None):
        self.base_pick, self.present, self.value = pick, present, value
        self.token = object()
        self.default_factory = default_factory
        self.items_stream = items_stream

    # Looked-up and written entries, newest last: per path, so that one path does not see what another did.
    seen = property(lambda self: engine().local.get((self.token, "seen"), ()))
    writes = property(lambda self: engine().local.get((self.token, "writes"), ()))

    def note(self, what, k, v):
        key = (self.token, what)
        engine().local[key] = engine().local.get(key, ()) + ((k, v),)

    def forget(self):
        engine().local.pop((self.token, "seen"), None)

    def lookup(self, k):
        """(found?, object)"""
        for k2, v in reversed(self.writes):
            if k2 is k or bool_of(value_eq(k2, k)):
                return True, v
        for k2, v in self.seen:
            if k2 is k or bool_of(value_eq(k2, k)):
                return True, v
        if bool_of(self.present(k)):
            v = self.value(k)
            self.note("seen", k, v)
            return True, v
        return False, None

    def __getitem__(self, k):
        ok, v = self.lookup(k)
        if ok:
            return v
        if self.default_factory is not None:
            from .interp import get_interp
            v = get_interp().call(self.default_factory, (), {})
            self.note("writes", k, v)
            return v
        raise PyExc(KeyError(repr(k)))

    def __setitem__(self, k, v):
        self.note("writes", k, v)

    def __contains__(self, k):
        return self.lookup(k)[0]

    def contains_expr(self, k):
        return self.lookup(k)[0]

    def get(self, k, d=None):
        ok, v = self.lookup(k)
        return v if ok else d

    def setdefault(self, k, d=None):
        ok, v = self.lookup(k)
        if not ok:
            self.note("writes", k, d)
            return d
        return v

    def _entry(self):
        if self.writes:
            raise Unsupported("traversal of a map that was written to")
        k = self.base_pick()
        engine().assume(self.present(k))
        return k, self.lookup(k)[1]

    def _stream(self, f, kind=list):
        if self.items_stream is not None:
            return Stream(self._entry, self.items_stream, f, kind)
        return Fam(lambda: f(self._entry()), kind=kind, distinct=True)

    def items(self):
        return self._stream(lambda e: e)

    def keys(self):
        return self._stream(lambda e: e[0], set)

    def values(self):
        return self._stream(lambda e: e[1])

    sym_source = keys

    def __bool__(self):
        raise Unsupported("truth value of a symbolic dict")

    def __hash__(self):
        return id(self)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic dict")


class SSet(Sym):
    """A set of integers given by its membership predicate (z3 term -> z3 Bool)."""
    py_type = frozenset

    def __init__(self, pred, single=None):
        self.pred = pred
        self.single = single        # (condition, element): under the condition the set is {element}

    @staticmethod
    def of(v):
        if isinstance(v, SSet):
            return v
        from .interp import _as_source
        f = v if isinstance(v, Fam) else _as_source(v) if isinstance(v, LSet) else None
        if f is not None:
            return SSet(lambda t: f.member(SNum(t)))
        if isinstance(v, (set, frozenset, LSet, MList, list, tuple)):
            xs = [as_num(x) for x in v]
            return SSet(lambda t: z3.Or(*[x.e == t for x in xs]) if xs else z3.BoolVal(False))
        return None

    def has(self, x):
        return SBool(self.pred(as_num(x).e))

    contains_expr = has

    def __xor__(self, o):
        o = SSet.of(o)
        if o is None:
            return NotImplemented
        return SSet(lambda t, a=self.pred, b=o.pred: z3.Xor(a(t), b(t)))

    __rxor__ = symmetric_difference = __xor__

    def _with(self, o, f):
        o = SSet.of(o)
        return NotImplemented if o is None else SSet(lambda t, a=self.pred, b=o.pred: f(a(t), b(t)))

    def __or__(self, o):
        return self._with(o, z3.Or)

    def __and__(self, o):
        return self._with(o, z3.And)

    def __sub__(self, o):
        return self._with(o, lambda a, b: z3.And(a, z3.Not(b)))

    def __rsub__(self, o):
        return self._with(o, lambda a, b: z3.And(b, z3.Not(a)))

    __ror__ = union = __or__
    __rand__ = intersection = __and__
    difference = __sub__

    def sym_source(self):
        def pick():
            x = SNum(engine().fresh("t", z3.IntSort()))
            engine().assume(self.has(x))
            return x
        return Fam(pick, kind=set, distinct=True)

    def unpack_exactly(self, n):
        if n != 1 or self.single is None:
            raise Unsupported("unpacking of a symbolic set")
        c, x = self.single
        if bool_of(c):
            return [x]
        raise PyExc(ValueError("not exactly one element"))

    def nonempty(self):
        """z3 Bool equivalent to: some integer satisfies the predicate."""
        if getattr(self, "ne", None) is None:
            eng = engine()
            b, w, t = eng.fresh("nonempty", z3.BoolSort()), eng.fresh("witness", z3.IntSort()), z3.Int("t")
            eng.assume(z3.Implies(b, self.pred(w)))
            eng.assume(z3.Implies(z3.Not(b), z3.ForAll([t], z3.Not(self.pred(t)))))
            return b
        return self.ne

    def __bool__(self):
        return bool(SBool(self.nonempty()))

    def sym_len(self):
        if not self:
            return 0
        n = SNum(engine().fresh("size", z3.IntSort()))
        engine().assume(n >= 1)
        return n

    def as_sorted(self):
        return SortedSet(self.pred)

    def as_list(self):
        return SortedSet(self.pred)

    def __hash__(self):
        return id(self)


class SortedSet(SSet):
    """The elements of a set as a list without duplicates."""
    py_type = list

    def __hash__(self):
        return id(self)


class Vec(Sym):
    """A vector of symbolic length (numpy array of floats) with value semantics of whole-slice operations."""
    py_type = None

    def __init__(self, n, at, view=False):
        self.n, self.at, self.view = n, at, view

    def sym_len(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is not None or i.step is not None:
                raise Unsupported("slice of a vector")
            if i.stop is None:
                return Vec(self.n, self.at, True)
            if not engine().implied(zb(land_(as_num(i.stop) >= 0, as_num(i.stop) <= self.n))):
                raise Unsupported("slice beyond a vector")
            return Vec(i.stop, self.at, True)
        i = as_num(i)
        if bool_of(lor(i < 0, i >= self.n)):
            raise Unsupported("vector index")
        return self.at(i)

    def __setitem__(self, i, v):
        old = self.at
        if isinstance(i, slice):
            if i.start is not None or i.step is not None:
                raise Unsupported("slice of a vector")
            k = self.n if i.stop is None else i.stop
            if not isinstance(v, Vec) or not engine().implied(zb(value_eq(as_num(v.n), as_num(k)))):
                raise Unsupported("assignment of a vector of another length")
            new = v.at
            self.at = lambda j: ite_(as_num(j) < k, lambda: new(j), lambda: old(j))
            return
        raise Unsupported("element assignment to a vector")

    def __add__(self, o):
        if not isinstance(o, Vec):
            return NotImplemented
        if not engine().implied(zb(value_eq(as_num(o.n), as_num(self.n)))):
            raise Unsupported("sum of vectors of different lengths")
        return Vec(self.n, lambda j, a=self.at, b=o.at: a(j) + b(j))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth value of a vector")


def land_(*a):
    from .values import land
    return land(*a)


def ite_(c, a, b):
    from .values import ite
    return ite(zb(c), a(), b())
