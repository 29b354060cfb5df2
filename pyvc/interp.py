"""Symbolic interpreter for the real function ASTs of /repo/src.

Every function of the repository that is reached is interpreted from its current source
(parsed on this run). Nothing is dropped from a function body except docstrings/annotations.
Constructs outside of the subset raise Unsupported, which makes the obligation undecided.
"""
import ast
import builtins
import dataclasses
import functools
import importlib
import inspect
import math
import operator
import os
import sys
import types

import z3

from . import core, values
from .core import PathEnd, PyExc, Unsupported, engine
from .values import (Fam, OtherStr, SAtom, SBool, SComplex, SNum, SRange, SSeq, Sym, as_num, ceil_of, concretize_int,
                     contains_sym, fam_of_list, floor_of, int_of, is_sym, ite, land, lnot, lor, smax, smin, value_eq, zb)

REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Scope:
    __slots__ = ("vars", "parent", "globals", "nonlocals", "globalnames", "fn", "yields")

    def __init__(self, parent, globals_, fn=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.nonlocals = set()
        self.globalnames = set()
        self.fn = fn
        self.yields = None

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError(name))

    def assign(self, name, v):
        if name in self.nonlocals:
            s = self.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
            raise Unsupported(f"nonlocal {name}")
        if name in self.globalnames:
            raise Unsupported("assignment to a global")
        self.vars[name] = v

    def snapshot(self):
        """The scope as it is now, for what is evaluated later."""
        s = self.clone()
        s.vars = {k: as_it_is(v) for k, v in s.vars.items()}
        if self.parent is not None:
            s.parent = self.parent.snapshot()
        return s

    def clone(self):
        s = Scope(self.parent, self.globals, self.fn)
        s.vars = dict(self.vars)
        s.nonlocals = set(self.nonlocals)
        return s


def as_it_is(v):
    """A container that later statements may change, as it is now."""
    if hasattr(type(v), "frozen_copy"):
        return v.frozen_copy()
    if type(v) in (list, set, dict):
        return v.copy()
    if type(v) in (MList, MDict, LSet):
        new = type(v).__new__(type(v))
        if isinstance(v, list):
            list.extend(new, list(v))
        elif isinstance(v, dict):
            dict.update(new, dict.items(v))
        new.__dict__.update(v.__dict__)
        for k in ("sym", "_elems"):
            if k in new.__dict__:
                new.__dict__[k] = list(new.__dict__[k])
        return new
    return v


class InterpFunction:
    def __init__(self, node, globals_, closure, qualname, defaults, kwdefaults, interp):
        self.node = node
        self.globals = globals_
        self.closure = closure
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.interp = interp
        self.__name__ = getattr(node, "name", "<lambda>")

    def __call__(self, *args, **kwargs):
        return self.interp.call(self, args, kwargs)


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __call__(self, *args, **kwargs):
        from .interp import INTERP
        return INTERP.call(self, args, kwargs)


class StarArg:
    def __init__(self, v):
        self.v = v


class SText(Sym):
    """A string built from symbolic parts."""
    def __init__(self, parts):
        self.parts = list(parts)

    def __repr__(self):
        return f"SText({self.parts!r})"

    def __add__(self, o):
        return SText(self.parts + [o])

    def __radd__(self, o):
        return SText([o] + self.parts)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class StrOf(Sym):
    """str(v) of a symbolic value."""
    def __init__(self, v, fmt=None):
        self.v = v
        self.fmt = fmt

    def __hash__(self):
        return id(self)


# ---------------------------------------------------------------- containers created by interpreted code
class MList(list):
    """A list created by interpreted code; knows about symbolic tails and loop journals."""
    def __init__(self, *a):
        super().__init__(*a)
        self.fam = None
        self.born = _depth()

    def append(self, v):
        if self.born < _depth():
            _log(self, "add", v)
            return
        if self.fam is not None:
            self.fam = values.concat_fams(self.fam, [v])
            return
        super().append(v)

    def extend(self, vs):
        if isinstance(vs, (Fam, SSeq)) or (isinstance(vs, MList) and vs.fam is not None):
            vs = _as_source(vs)
            if self.born < _depth():
                _log(self, "addmany", vs)
                return
            self.fam = vs if (self.fam is None and not len(self)) else values.concat_fams(
                self.fam if self.fam is not None else fam_of_list(list(self)), vs)
            super().clear()
            return
        for v in list(vs):
            self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        r = value_eq(tuple(self), tuple(o)) if isinstance(o, list) else False
        return r

    def __ne__(self, o):
        return lnot(self.__eq__(o))


class MDict(dict):
    """A dict created by interpreted code. Symbolic keys live in an association list / family."""
    def __init__(self, *a, default_factory=None, **k):
        super().__init__(*a, **k)
        self.sym = []       # [(key, value)] newest last, symbolic keys
        self.fam = None     # Fam of (key, value)
        self.born = _depth()
        self.default_factory = default_factory

    def __setitem__(self, k, v):
        if self.born < _depth():
            _log(self, "add", (k, v))
            return
        if self.fam is not None:
            raise Unsupported("write to a symbolic dict")
        if contains_sym(k) or self.sym:
            for idx, (k2, _) in enumerate(self.sym):
                if bool_of(value_eq(k, k2)):
                    self.sym[idx] = (k2, v)
                    return
            for k2 in list(super().keys()):
                if bool_of(value_eq(k, k2)):
                    super().__setitem__(k2, v)
                    return
            self.sym.append((k, v))
            return
        super().__setitem__(k, v)

    def __getitem__(self, k):
        r = self._find(k)
        if r is _MISSING:
            if self.default_factory is not None:
                v = INTERP.call(self.default_factory, (), {})
                self[k] = v
                return v
            raise PyExc(KeyError(repr(k)))
        return r

    def _known(self, kv=None):
        """Entries of the family met on this path."""
        key = (id(self.fam), "entries")
        if kv is not None:
            engine().local[key] = engine().local.get(key, ()) + ((self.fam, kv),)
            return kv
        return [kv for _, kv in engine().local.get(key, ())]

    def _find(self, k):
        if self.fam is not None:
            for k2, v in self._known():
                if k2 is k or engine().implied(zb(value_eq(k2, k))):
                    return v
            raise Unsupported("lookup in a symbolic dict")
        if contains_sym(k) or self.sym:
            for k2, v in reversed(self.sym):
                if bool_of(value_eq(k, k2)):
                    return v
            for k2, v in super().items():
                if bool_of(value_eq(k, k2)):
                    return v
            return _MISSING
        return super().get(k, _MISSING)

    def get(self, k, d=None):
        r = self._find(k)
        return d if r is _MISSING else r

    def setdefault(self, k, d=None):
        r = self._find(k)
        if r is _MISSING:
            self[k] = d
            return d
        return r

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def items(self):
        if self.fam is not None:
            return self.fam
        if self.sym:
            return list(super().items()) + list(self.sym)
        return super().items()

    def keys(self):
        if self.fam is not None:
            f = self.fam
            return Fam(lambda: self._known(f.pick())[0], kind=set, distinct=True)
        if self.sym:
            return list(super().keys()) + [k for k, _ in self.sym]
        return super().keys()

    def values(self):
        if self.fam is not None:
            f = self.fam
            return Fam(lambda: f.pick()[1], kind=list)
        if self.sym:
            return list(super().values()) + [v for _, v in self.sym]
        return super().values()

    def __hash__(self):
        return id(self)


_MISSING = object()


class LSet(Sym):
    """A set with symbolic elements (kept as a list without provable duplicates)."""
    def __init__(self, elems=()):
        self._elems = []
        self.fam = None
        self.born = _depth()
        for e in elems:
            self.add(e)

    @property
    def elems(self):
        if self.fam is not None:
            raise Unsupported("elements of a set filled by a symbolic loop")
        return self._elems

    def add_family(self, fam, src=None):
        self.fam = fam if not self._elems and self.fam is None else values.concat_fams(self.fam if self.fam is not None else fam_of_list(list(self._elems)), fam)

    def add(self, v):
        if self.born < _depth():
            _log(self, "add", v)
            return
        if self.fam is not None:
            self.fam = values.concat_fams(self.fam, [v])
            return
        for e in self.elems:
            if bool_of(value_eq(e, v)):
                return
        self.elems.append(v)

    def __contains__(self, v):
        return bool_of(lor(*[value_eq(e, v) for e in self.elems]))

    def contains_expr(self, v):
        return lor(*[value_eq(e, v) for e in self.elems]) if self.elems else False

    def __iter__(self):
        return iter(list(self.elems))

    def __len__(self):
        return len(self.elems)

    def __or__(self, o):
        return LSet(list(self.elems) + list(o))

    __ror__ = __or__

    def __and__(self, o):
        o = o if isinstance(o, LSet) else LSet(o)
        return LSet([e for e in self.elems if e in o])

    __rand__ = __and__

    def __sub__(self, o):
        o = o if isinstance(o, LSet) else LSet(o)
        return LSet([e for e in self.elems if e not in o])

    def __rsub__(self, o):
        return LSet(o) - self

    def __eq__(self, o):
        if not isinstance(o, (LSet, set, frozenset)):
            return False
        o = list(o)
        a = [lor(*[value_eq(x, y) for y in o]) for x in self.elems]
        b = [lor(*[value_eq(x, y) for y in self.elems]) for x in o]
        return land(*a, *b) if (a or b) else True

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __hash__(self):
        return id(self)

    def clear(self):
        self._elems, self.fam = [], None

    def update(self, o):
        src = _as_source(o)
        if src is not None:
            if self.born < _depth():
                _log(self, "addmany", src)
            else:
                self.add_family(src)
            return
        for e in o:
            self.add(e)

    __ior__ = lambda self, o: (self.update(o), self)[1]


def _depth():
    return core.CURRENT.journal_depth if core.CURRENT is not None and hasattr(core.CURRENT, "journal_depth") else 0


def _log(obj, op, v):
    core.CURRENT.journal.append((obj, op, v))


def bool_of(b):
    if isinstance(b, SBool):
        return bool(b)
    return bool(b)


def _as_source(v):
    """A symbolic iteration source (Fam/SSeq) for v, or None if v is concrete."""
    if isinstance(v, (Fam, SSeq)):
        return v
    if isinstance(v, MList) and v.fam is not None:
        return v.fam
    if isinstance(v, MDict) and v.fam is not None:
        return v.keys()
    if isinstance(v, LSet) and v.fam is not None:
        return v.fam
    if hasattr(v, "sym_source"):
        return v.sym_source()
    return None


# ---------------------------------------------------------------- source index
class SourceIndex:
    def __init__(self):
        self.by_pos = {}
        self.files = {}

    def load(self, filename):
        if filename in self.files:
            return
        with open(filename) as f:
            text = f.read()
        tree = ast.parse(text, filename)
        self.files[filename] = tree

        def walk(node, prefix):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    line = ch.lineno
                    if isinstance(ch, ast.FunctionDef) and ch.decorator_list:
                        line = min(line, ch.decorator_list[0].lineno)
                    self.by_pos.setdefault((filename, line, getattr(ch, "name", "<lambda>")), ch)
                walk(ch, prefix)
        walk(tree, "")

    def node_of(self, fn):
        code = fn.__code__
        self.load(code.co_filename)
        return self.by_pos.get((code.co_filename, code.co_firstlineno, code.co_name))


def in_repo(filename):
    return filename is not None and os.path.realpath(filename).startswith(os.path.realpath(REPO_SRC) + os.sep)


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for s in stmts:
        V().visit(s)
    return out


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitXor: operator.xor,
          ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
          ast.MatMult: operator.matmul}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
           ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitXor: operator.ixor,
           ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.LShift: operator.ilshift, ast.RShift: operator.irshift}

PY_ERRORS = (KeyError, IndexError, ValueError, ZeroDivisionError, AssertionError, NotImplementedError, StopIteration,
             RuntimeError, OverflowError)


class Interp:
    def __init__(self):
        self.index = SourceIndex()
        self.overrides = {}
        self.method_overrides = {}
        self.loop_rules = []
        self.unroll_cap = 48
        self.indexers = []           # certificates for the order of sorted collections: fam -> (n, at, inv) or None
        self.fn_stack = []
        self.range_loop = None       # rule for loops over symbolic ranges: (interp, node, scope, range) -> handled?
        self.call_hook = None        # (function, args, kwargs) -> None or a 1-tuple with the result
        self.symbolic_sets = False   # set() makes a set that takes symbolic elements
        self.install_builtins()

    # ---------------------------------------------------------- setup
    def reset(self):
        self.overrides = {}
        self.loop_rules = []
        self.indexers = []
        self.range_loop = self.call_hook = None
        self.symbolic_sets = False
        self.install_builtins()

    def index_sorted(self, fam):
        """A sorted duplicate-free collection as an indexed sequence, by a certificate (n, at, inv) proved here.

        Obligations: at(i) is an element for 0 <= i < n; every element z is at(inv(z)) with 0 <= inv(z) < n; the sort key
        strictly increases from at(i) to at(i+1). A list with these properties is the sorted list of the elements.
        """
        eng = engine()
        if fam.order is None:
            raise Unsupported("order of a symbolic collection")
        key, reverse = fam.order
        for cert in self.indexers:
            c = cert(fam)
            if c is None:
                continue
            n, at, inv, what = c
            results = []

            def run():
                i = SNum(eng.fresh("i", z3.IntSort()))
                eng.assume(land(i >= 0, i < as_num(n)))
                kind = eng.choose(3 if fam.distinct else 4)
                if kind == 3:
                    l0, d0 = len(eng.fresh_log), len(eng.decisions)
                    a = fam.pick()
                    l1, d1 = len(eng.fresh_log), len(eng.decisions)
                    b = fam.pick()
                    ca, cb = eng.fresh_log[l0:l1], eng.fresh_log[l1:]
                    same = land(*[SBool(x == y) for x, y in zip(ca, cb)]) if len(ca) == len(cb) and ca else False
                    if eng.decisions[d0:d1] != eng.decisions[d1:]:
                        same = False
                    goal, name = values.implies(value_eq(a, b), same), "no element twice"
                elif kind == 0:
                    goal, name = SBool(fam.member(at(i))), "every indexed element is in the collection"
                elif kind == 1:
                    z = fam.pick()
                    j = as_num(inv(z))
                    goal, name = land(j >= 0, j < as_num(n), value_eq(at(j), z)), "every element of the collection has an index"
                else:
                    eng.assume(i + 1 < as_num(n))
                    ks = [self.call(key, (at(x),), {}) if key is not None else at(x) for x in (i, i + 1)]
                    goal, name = self.compare_lt(ks[1], ks[0]) if reverse else self.compare_lt(ks[0], ks[1]), "the sort key increases along the index"
                ok = eng.quick_valid(goal)
                results.append(ok)
                return (name, goal)
            eng.sub_explore(run)
            if all(results):
                def record():
                    name, goal = run()
                    eng.prove(f"order of {what}: {name}", goal)
                eng.sub_explore(record)
                return SSeq(n, at, fam.kind)
        raise Unsupported("no certificate for the order of a symbolic collection")

    def override(self, real, model):
        self.overrides[id(real)] = (real, model)

    def install_builtins(self):
        from . import models
        models.install(self)

    # ---------------------------------------------------------- functions
    def function_of(self, fn):
        node = self.index.node_of(fn)
        if node is None:
            raise Unsupported(f"no source for {fn.__qualname__}")
        f = InterpFunction(node, fn.__globals__, None, f"{fn.__module__}.{fn.__qualname__}",
                           list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), self)
        if fn.__closure__:
            s = Scope(None, fn.__globals__)
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                s.vars[name] = cell.cell_contents
            f.closure = s
        return f

    def getattr(self, obj, name):
        if isinstance(obj, Sym):
            if isinstance(obj, SText) or isinstance(obj, StrOf):
                raise Unsupported(f"method {name} of a symbolic string")
            return getattr(obj, name)
        if isinstance(obj, type):
            d = inspect.getattr_static(obj, name, _MISSING)
            if isinstance(d, (staticmethod, classmethod)) and in_repo(getattr(getattr(d.__func__, "__code__", None), "co_filename", None)):
                return d.__func__ if isinstance(d, staticmethod) else BoundMethod(d.__func__, obj)
            return getattr(obj, name)
        t = type(obj)
        if t.__module__ in values.REPO_MODULES:
            d = inspect.getattr_static(t, name, _MISSING)
            inst = getattr(obj, "__dict__", {})
            if isinstance(d, property):
                return self.call(d.fget, (obj,), {})
            if isinstance(d, functools.cached_property):
                if name in inst:
                    return inst[name]
                v = self.call(d.func, (obj,), {})
                inst[name] = v
                return v
            if name in inst:
                return inst[name]
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return BoundMethod(d.__func__, t)
            if isinstance(d, types.FunctionType) or type(d).__name__ == "_lru_cache_wrapper":
                return BoundMethod(d, obj)
        return getattr(obj, name)

    def call(self, fn, args, kwargs):
        eng = engine()
        o = self.overrides.get(id(fn))
        if o is not None and o[0] is fn:
            return o[1](*args, **kwargs)
        if isinstance(fn, BoundMethod):
            return self.call(fn.fn, (fn.self_,) + tuple(args), kwargs)
        if isinstance(fn, InterpFunction):
            return self.call_interp(fn, args, kwargs)
        if type(fn).__name__ == "_lru_cache_wrapper":
            return self.call(fn.__wrapped__, args, kwargs)
        if isinstance(fn, types.MethodType):
            f = fn.__func__
            if in_repo(getattr(getattr(f, "__code__", None), "co_filename", None)):
                return self.call(f, (fn.__self__,) + tuple(args), kwargs)
            return self.native(fn, args, kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, tuple(fn.args) + tuple(args), {**fn.keywords, **kwargs})
        if isinstance(fn, types.FunctionType):
            if in_repo(fn.__code__.co_filename):
                qn = f"{fn.__module__}.{fn.__qualname__}"
                c = eng.callee_contracts.get(qn)
                if c is not None:
                    return c(*args, **kwargs)
                return self.call_interp(self.function_of(fn), args, kwargs)
            return self.native(fn, args, kwargs)
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, str):
            return self.str_method(fn, args, kwargs)
        if type(fn).__module__ in values.REPO_MODULES:
            m = inspect.getattr_static(type(fn), "__call__", None)
            if isinstance(m, types.FunctionType):
                return self.call(m, (fn,) + tuple(args), kwargs)
        return self.native(fn, args, kwargs)

    def str_method(self, fn, args, kwargs):
        if fn.__name__ == "join":
            src = _as_source(args[0])
            if src is not None:
                raise Unsupported("join over symbolic collection")
            items = list(args[0])
            if any(isinstance(e, Sym) for e in items):
                parts = []
                for k, e in enumerate(items):
                    if k:
                        parts.append(fn.__self__)
                    parts.append(e)
                return SText(parts)
            return fn.__self__.join(items)
        return self.native(fn, args, kwargs)

    NATIVE_OK_WITH_SYM = {"append", "extend", "pop", "insert", "setdefault", "get", "items", "keys", "values", "add",
                          "update", "remove", "index", "clear", "copy", "count", "reverse", "sort", "discard"}

    def native(self, fn, args, kwargs):
        if any(isinstance(a, StarArg) for a in args):
            raise Unsupported(f"symbolic star-argument passed to {fn!r}")
        owner = getattr(fn, "__self__", None)
        if owner is not None and not isinstance(owner, types.ModuleType) and isinstance(owner, (Sym, MList, MDict)):
            return fn(*args, **kwargs)
        mod = type(owner).__module__ if owner is not None else getattr(fn, "__module__", "")
        if getattr(fn, "_pyvc_model", False) or (mod or "").startswith("pyvc") or (mod or "").startswith("contracts"):
            return fn(*args, **kwargs)
        sym = any(contains_sym(a) for a in args) or any(contains_sym(a) for a in kwargs.values())
        if isinstance(owner, (list, dict)):
            if sym and not isinstance(owner, dict) and fn.__name__ in self.NATIVE_OK_WITH_SYM:
                return fn(*args, **kwargs)
        if sym or contains_sym(owner):
            raise Unsupported(f"native call {getattr(fn, '__qualname__', fn)!r} with symbolic arguments")
        return fn(*args, **kwargs)

    def construct(self, cls, args, kwargs):
        eng = engine()
        if cls.__module__ in values.REPO_MODULES and not issubclass(cls, BaseException):
            init = inspect.getattr_static(cls, "__init__", None)
            if isinstance(init, types.FunctionType) and in_repo(init.__code__.co_filename):
                obj = object.__new__(cls)
                self.call(init, (obj,) + tuple(args), kwargs)
                return obj
            if dataclasses.is_dataclass(cls):
                sig = inspect.signature(cls.__init__)
                ba = sig.bind(None, *args, **kwargs)
                obj = object.__new__(cls)
                for f in dataclasses.fields(cls):
                    if not f.init:
                        continue
                    if f.name in ba.arguments:
                        v = ba.arguments[f.name]
                    elif f.default is not dataclasses.MISSING:
                        v = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        v = self.call(f.default_factory, (), {})
                    else:
                        raise PyExc(TypeError(f"missing {f.name}"))
                    object.__setattr__(obj, f.name, v)
                post = inspect.getattr_static(cls, "__post_init__", None)
                if post is not None:
                    self.call(post, (obj,), {})
                return obj
            raise Unsupported(f"constructing {cls}")
        if issubclass(cls, BaseException):
            return cls(*[a if not contains_sym(a) else repr(a) for a in args])
        return self.native(cls, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = [x for x in args if isinstance(x, StarArg)]
        if star and not a.vararg:
            raise Unsupported("symbolic star-argument to a function without *args")
        n = 0
        while n < len(pos) and args and not isinstance(args[0], StarArg):
            env[pos[n]] = args.pop(0)
            n += 1
        if star and n < len(pos):
            raise Unsupported("symbolic star-argument binding positional parameters")
        if args:
            if not a.vararg:
                raise PyExc(TypeError("too many positional arguments"))
        for name in pos[n:]:
            if name in kwargs:
                env[name] = kwargs.pop(name)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyExc(TypeError(f"missing argument {name}"))
                env[name] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyExc(TypeError(f"missing argument {x.arg}"))
        if a.vararg:
            if star:
                if len(args) == 1:
                    env[a.vararg.arg] = args[0].v
                else:
                    src = None
                    for x in args:
                        v = x.v if isinstance(x, StarArg) else [x]
                        src = v if src is None else values.concat_fams(src, v)
                    env[a.vararg.arg] = src
            else:
                env[a.vararg.arg] = tuple(args)
        if a.kwarg:
            env[a.kwarg.arg] = MDict(kwargs)
        elif kwargs:
            raise PyExc(TypeError(f"unexpected keyword {list(kwargs)}"))
        return env

    def call_interp(self, f, args, kwargs):
        eng = engine()
        if self.call_hook is not None:
            r = self.call_hook(f, args, kwargs)
            if r is not None:
                return r[0]
        if len(self.fn_stack) > 60:
            raise Unsupported("recursion too deep")
        eng.functions.add(f.qualname)
        env = self.bind(f, args, kwargs)
        scope = Scope(f.closure, f.globals, f)
        scope.vars.update(env)
        if isinstance(f.node, ast.Lambda):
            self.fn_stack.append(f)
            try:
                return self.eval(f.node.body, scope)
            finally:
                self.fn_stack.pop()
        is_gen = _has_yield(f.node)
        if is_gen:
            scope.yields = MList()
        self.fn_stack.append(f)
        try:
            self.exec_block(f.node.body, scope)
            r = None
        except _Return as ret:
            r = ret.v
        finally:
            self.fn_stack.pop()
        return scope.yields if is_gen else r

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, scope):
        for s in stmts:
            self.exec_stmt(s, scope)

    def exec_stmt(self, s, scope):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        try:
            m(s, scope)
        except (Unsupported, PathEnd, PyExc, _Return, _Break, _Continue):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except PY_ERRORS as ex:
            raise PyExc(ex)
        except (TypeError, AttributeError, NameError, z3.Z3Exception) as ex:
            raise Unsupported(f"line {s.lineno}: {type(ex).__name__}: {ex}")

    def s_Expr(self, s, scope):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self._yield(s.value, scope)
            return
        self.eval(s.value, scope)

    def _yield(self, n, scope):
        v = self.eval(n.value, scope) if n.value else None
        sc = scope
        while sc.yields is None:
            sc = sc.parent
        sc.yields.append(v)

    def s_Pass(self, s, scope):
        pass

    def s_Return(self, s, scope):
        raise _Return(self.eval(s.value, scope) if s.value is not None else None)

    def s_Break(self, s, scope):
        raise _Break()

    def s_Continue(self, s, scope):
        raise _Continue()

    def s_Assign(self, s, scope):
        v = self.eval(s.value, scope)
        for t in s.targets:
            self.assign(t, v, scope)

    def s_AnnAssign(self, s, scope):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, scope), scope)

    def s_AugAssign(self, s, scope):
        op = IBINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = scope.lookup(s.target.id)
            v = self.eval(s.value, scope)
            scope.assign(s.target.id, self.ibinop(op, type(s.op), cur, v))
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value, scope)
            cur = self.getattr(obj, s.target.attr)
            v = self.eval(s.value, scope)
            self.setattr(obj, s.target.attr, self.ibinop(op, type(s.op), cur, v))
        elif isinstance(s.target, ast.Subscript):
            obj = self.eval(s.target.value, scope)
            idx = self.eval_slice(s.target.slice, scope)
            cur = self.getitem(obj, idx)
            v = self.eval(s.value, scope)
            self.setitem(obj, idx, self.ibinop(op, type(s.op), cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def ibinop(self, op, opt, cur, v):
        if isinstance(cur, (set,)) and (isinstance(v, (Sym,)) or contains_sym(v)):
            return self.binop(BINOPS[opt], cur, v)
        if isinstance(cur, (frozenset, set)) and isinstance(v, LSet):
            return self.binop(BINOPS[opt], LSet(cur), v)
        return op(cur, v)

    def binop(self, op, a, b):
        if isinstance(a, (set, frozenset)) and isinstance(b, LSet):
            a = LSet(a)
        if isinstance(a, MList) and a.fam is not None:
            a = a.fam
        if isinstance(b, MList) and b.fam is not None:
            b = b.fam
        r = op(a, b)
        if type(r) is list:
            r = MList(r)
        return r

    def setattr(self, obj, name, v):
        if isinstance(obj, Sym) or type(obj).__module__ in values.REPO_MODULES:
            params = getattr(type(obj), "__dataclass_params__", None)
            if params is not None and params.frozen:
                raise PyExc(dataclasses.FrozenInstanceError(name))
            if _depth() > getattr(obj, "_pyvc_born", 0) and engine().journal is not None:
                engine().journal.append((obj, "setattr", (name, v)))
                return
            object.__setattr__(obj, name, v)
            return
        raise Unsupported(f"attribute assignment on {type(obj)}")

    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            scope.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, scope)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, scope), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, scope), self.eval_slice(t.slice, scope), v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, elts, v, scope):
        if hasattr(v, "unpack_exactly") and not any(isinstance(e, ast.Starred) for e in elts):
            vs = v.unpack_exactly(len(elts))
        else:
            if _as_source(v) is not None:
                raise Unsupported("unpacking of a symbolic collection")
            vs = list(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vs) < len(elts) - 1:
                raise PyExc(ValueError("not enough values to unpack"))
            for e, x in zip(elts[:i], vs[:i]):
                self.assign(e, x, scope)
            self.assign(elts[i].value, MList(vs[i:len(vs) - after]), scope)
            for e, x in zip(elts[i + 1:], vs[len(vs) - after:]):
                self.assign(e, x, scope)
            return
        if len(vs) != len(elts):
            raise PyExc(ValueError("wrong number of values to unpack"))
        for e, x in zip(elts, vs):
            self.assign(e, x, scope)

    def setitem(self, obj, idx, v):
        if isinstance(obj, list) and not isinstance(idx, slice) and is_sym(idx):
            idx = concretize_int(idx)
        if isinstance(obj, list) and isinstance(obj, MList) and obj.born < _depth():
            raise Unsupported("item assignment to an outer list inside a summarised loop")
        if isinstance(obj, dict) and not isinstance(obj, MDict) and contains_sym(idx):
            raise Unsupported("symbolic key in a native dict")
        obj[idx] = v

    def s_Delete(self, s, scope):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value, scope)
                idx = self.eval_slice(t.slice, scope)
                if contains_sym(idx):
                    raise Unsupported("del with a symbolic index")
                del obj[idx]
            elif isinstance(t, ast.Name):
                scope.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def truth(self, v):
        if isinstance(v, SBool):
            return bool(v)
        if isinstance(v, MList) and v.fam is not None:
            raise Unsupported("truth value of a symbolic list")
        return bool(v)

    def s_If(self, s, scope):
        if self.truth(self.eval(s.test, scope)):
            self.exec_block(s.body, scope)
        else:
            self.exec_block(s.orelse, scope)

    def s_Assert(self, s, scope):
        if not self.truth(self.eval(s.test, scope)):
            raise PyExc(AssertionError(f"assert at line {s.lineno}"))

    def s_Raise(self, s, scope):
        if s.exc is None:
            cur = getattr(self, "_cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise PyExc(cur)
        try:
            e = self.eval(s.exc, scope)
        except Unsupported:
            # The message could not be built symbolically; the exception type is what matters.
            if isinstance(s.exc, ast.Call):
                cls = self.eval(s.exc.func, scope)
                if isinstance(cls, type) and issubclass(cls, BaseException):
                    raise PyExc(cls("<symbolic message>"))
            raise
        if isinstance(e, type):
            e = e()
        raise PyExc(e)

    def s_Try(self, s, scope):
        try:
            try:
                self.exec_block(s.body, scope)
            except PyExc as pe:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        cls = self.eval(h.type, scope)
                        ok = isinstance(pe.exc, cls)
                    if ok:
                        if h.name:
                            scope.assign(h.name, pe.exc)
                        old = getattr(self, "_cur_exc", None)
                        self._cur_exc = pe.exc
                        try:
                            self.exec_block(h.body, scope)
                        finally:
                            self._cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, scope)
        except (PathEnd, Unsupported):
            raise
        except BaseException:
            self.exec_block(s.finalbody, scope)
            raise
        else:
            self.exec_block(s.finalbody, scope)

    def s_With(self, s, scope):
        def rec(i):
            if i == len(s.items):
                self.exec_block(s.body, scope)
                return
            it = s.items[i]
            cm = self.eval(it.context_expr, scope)
            v = cm.__enter__()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, scope)
            try:
                rec(i + 1)
            except (PathEnd, Unsupported):
                raise
            except PyExc as pe:
                cm.__exit__(type(pe.exc), pe.exc, None)
                raise
            except BaseException:
                cm.__exit__(None, None, None)
                raise
            else:
                cm.__exit__(None, None, None)
        rec(0)

    def s_FunctionDef(self, s, scope):
        defaults = [self.eval(d, scope) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, scope) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        outer = scope.fn.qualname if scope.fn else ""
        f = InterpFunction(s, scope.globals, scope, f"{outer}.{s.name}", defaults, kwd, self)
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        scope.assign(s.name, f)

    def s_Nonlocal(self, s, scope):
        scope.nonlocals.update(s.names)

    def s_Global(self, s, scope):
        scope.globalnames.update(s.names)

    def s_Import(self, s, scope):
        for a in s.names:
            m = importlib.import_module(a.name)
            scope.assign(a.asname or a.name.split(".")[0], m if a.asname else sys.modules[a.name.split(".")[0]])

    def s_ImportFrom(self, s, scope):
        m = importlib.import_module(s.module)
        for a in s.names:
            scope.assign(a.asname or a.name, getattr(m, a.name))

    def find_rule(self, node, scope):
        for r in self.loop_rules:
            if r.matches(self, node, scope):
                return r
        return None

    def s_While(self, s, scope):
        rule = self.find_rule(s, scope)
        if rule is not None:
            rule.run_while(self, s, scope)
            return
        n = 0
        while self.truth(self.eval(s.test, scope)):
            n += 1
            if n > 20000:
                raise Unsupported("while loop does not end within 20000 iterations")
            if len(engine().decisions) > 400:
                raise Unsupported("while loop over symbolic state without an invariant")
            try:
                self.exec_block(s.body, scope)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, scope)

    def s_For(self, s, scope):
        it = self.eval(s.iter, scope)
        src = _as_source(it)
        if src is None:
            for x in self.iterate(it):
                self.assign(s.target, x, scope)
                try:
                    self.exec_block(s.body, scope)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec_block(s.orelse, scope)
            return
        rule = self.find_rule(s, scope)
        if rule is not None:
            rule.run_for(self, s, scope, src)
            return
        if getattr(src, "fold", None) is not None:
            src.run_for(self, s, scope)
            return
        if self.range_loop is not None and isinstance(src, SSeq) and self.range_loop(self, s, scope, src):
            return
        if isinstance(src, SSeq):
            n = as_num(src.n)
            if engine().implied(zb(n <= 8)):
                self.unroll(s, scope, src)
                return
            try:
                self.summarize_for(s, scope, src)
            except Unsupported:
                if not engine().implied(zb(n <= self.unroll_cap)):
                    raise
                self.unroll(s, scope, src)
            return
        self.summarize_for(s, scope, src)

    def unroll(self, s, scope, src):
        i = 0
        while True:
            if not bool_of(as_num(src.n) > i):
                break
            self.assign(s.target, src.at(i), scope)
            i += 1
            try:
                self.exec_block(s.body, scope)
            except _Break:
                return
            except _Continue:
                pass
        self.exec_block(s.orelse, scope)

    def iterate(self, it):
        """Concrete iteration."""
        if isinstance(it, Sym) and hasattr(it, "concrete_iter"):
            return it.concrete_iter()
        if isinstance(it, MDict):
            return list(it.keys())
        return it

    # ---------------------------------------------------------- loop summarisation
    def summarize_for(self, s, scope, src):
        """for x in <symbolic collection>: <body that only adds to containers>.

        The loop is replaced by: every container the body adds to becomes (old content) followed by
        the family {value added | x an element}. Sound when iterations do not depend on one another:
        the body may not assign variables that live before the loop, nor read what it builds.
        """
        if s.orelse:
            raise Unsupported("for-else over a symbolic collection")
        names = assigned_names(s.body)
        carried = {n for n in names if n in scope.vars and n not in assigned_names([ast.Assign(targets=[s.target], value=None)])}
        for n in carried:
            # A variable that is always written before it is read in the body is a temporary.
            if _read_before_write(n, s.body):
                raise Unsupported(f"loop-carried variable {n} without an invariant")
        eng = engine()
        interp = self
        frozen_vars = dict(scope.vars)

        def run_body():
            sc = scope.clone()
            sc.vars = dict(frozen_vars)
            old_j, old_d = eng.journal, getattr(eng, "journal_depth", 0)
            eng.journal, eng.journal_depth = [], old_d + 1
            try:
                x = src.pick()
                interp.assign(s.target, x, sc)
                try:
                    interp.exec_block(s.body, sc)
                except _Continue:
                    pass
                except _Break:
                    raise Unsupported("break in a loop over a symbolic collection")
                except _Return:
                    raise Unsupported("return in a loop over a symbolic collection")
                return eng.journal
            finally:
                eng.journal, eng.journal_depth = old_j, old_d

        alts = eng.sub_explore(run_body)
        targets = []
        for _, _, journal in alts:
            for obj, op, v in journal:
                if not any(o is obj for o in targets):
                    targets.append(obj)
                if op not in ("add", "addmany"):
                    raise Unsupported(f"loop body effect {op} on a symbolic collection")
        for obj in targets:
            def pick(obj=obj):
                j = [(op, v) for o, op, v in run_body() if o is obj]
                if not j:
                    raise PathEnd("nothing added")
                op, v = j[engine().choose(len(j))]
                return v if op == "add" else v.pick()
            fam = Fam(pick)

            def in_order(fam, pick=pick):
                # A dict filled in the order of the loop's source.
                def with_source():
                    box, old = [], src._pick
                    src._pick = lambda: (box.append(old()), box[-1])[1]
                    try:
                        return box, pick()
                    finally:
                        src._pick = old
                if hasattr(src, "_pick"):
                    fam.in_order_of, fam.pick_with_source = (src, s.target), with_source
                return fam
            if getattr(obj, "born", 0) < _depth():
                _log(obj, "addmany", fam)
            elif isinstance(obj, MList):
                obj.extend(fam)
            elif isinstance(obj, MDict):
                if len(obj) or obj.sym:
                    raise Unsupported("symbolic loop writing to a non-empty dict")
                if obj.fam is None:
                    obj.fam = in_order(fam)
                else:
                    obj.fam = values.concat_fams(obj.fam, fam)
                self.check_functional(obj.fam, s)
                obj.fam.distinct = True     # as the entries of a dict
            elif hasattr(obj, "add_family"):
                obj.add_family(fam, src)
            else:
                raise Unsupported(f"cannot add a family to {type(obj)}")

    def check_functional(self, fam, node):
        """A dict built from a family of writes: equal keys must get equal values (then the order of writes is irrelevant)."""
        eng = engine()

        def run():
            (k1, v1), (k2, v2) = fam.pick(), fam.pick()
            eng.prove(f"dict built {'from pairs' if node is None else f'at line {node.lineno}'}: entries with equal keys have equal values", values.implies(value_eq(k1, k2), value_eq(v1, v2)))
        eng.sub_explore(run)

    # ---------------------------------------------------------- expressions
    def eval(self, n, scope):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at line {n.lineno}")
        return m(n, scope)

    def e_Constant(self, n, scope):
        return n.value

    def e_Name(self, n, scope):
        return scope.lookup(n.id)

    def e_NamedExpr(self, n, scope):
        v = self.eval(n.value, scope)
        scope.assign(n.target.id, v)
        return v

    def e_Attribute(self, n, scope):
        return self.getattr(self.eval(n.value, scope), n.attr)

    def e_BinOp(self, n, scope):
        a = self.eval(n.left, scope)
        b = self.eval(n.right, scope)
        return self.binop(BINOPS[type(n.op)], a, b)

    def e_UnaryOp(self, n, scope):
        v = self.eval(n.operand, scope)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return lnot(v)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, n, scope):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.eval(x, scope)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, SBool) else v
            if not is_and and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_IfExp(self, n, scope):
        return self.eval(n.body if self.truth(self.eval(n.test, scope)) else n.orelse, scope)

    def e_Compare(self, n, scope):
        left = self.eval(n.left, scope)
        result = True
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, scope)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if i == len(n.ops) - 1:
                return r if result is True else (land(result, r))
            if isinstance(r, SBool):
                result = r if result is True else land(result, r)
            elif not r:
                return r
            left = right
        return result

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return lnot(self.contains(b, a))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equals(a, b)
            return r if isinstance(op, ast.Eq) else lnot(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and (contains_sym(a) or contains_sym(b)):
            return self.tuple_cmp(op, a, b)
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        return f(a, b)

    def compare_lt(self, a, b):
        """a < b for sort keys."""
        t = type(a)
        if t.__module__ in values.REPO_MODULES:
            lt = inspect.getattr_static(t, "__lt__", None)
            if isinstance(lt, types.FunctionType) and in_repo(lt.__code__.co_filename):
                return self.call(lt, (a, b), {})
            params = getattr(t, "__dataclass_params__", None)
            if params is not None and params.order and type(b) is t:
                fa = tuple(getattr(a, f.name) for f in dataclasses.fields(t) if f.compare)
                fb = tuple(getattr(b, f.name) for f in dataclasses.fields(t) if f.compare)
                return self.compare_lt(fa, fb)
            raise PyExc(TypeError("'<' not supported"))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (contains_sym(a) or contains_sym(b)):
            return self.tuple_cmp(ast.Lt(), tuple(a), tuple(b))
        return a < b

    def tuple_cmp(self, op, a, b):
        """Lexicographic comparison without forking."""
        strict = isinstance(op, (ast.Lt, ast.Gt))
        f = operator.lt if isinstance(op, (ast.Lt, ast.LtE)) else operator.gt
        n = min(len(a), len(b))
        if len(a) == len(b):
            r = SBool(z3.BoolVal(not strict))
        else:
            r = SBool(z3.BoolVal(f(len(a), len(b))))
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            lt = f(values.num_of_bool(x) if isinstance(x, (SBool, bool)) else x,
                   values.num_of_bool(y) if isinstance(y, (SBool, bool)) else y)
            r = lor(lt, land(value_eq(x, y), r))
        return SBool(z3.simplify(r.e))

    def equals(self, a, b):
        if type(a).__module__ in values.REPO_MODULES:
            eq = inspect.getattr_static(type(a), "__eq__", None)
            if isinstance(eq, types.FunctionType) and in_repo(eq.__code__.co_filename):
                r = self.call(eq, (a, b), {})
                return False if r is NotImplemented else r
            if not dataclasses.is_dataclass(a) and eq is object.__eq__:
                return a is b
        if contains_sym(a) or contains_sym(b):
            if isinstance(a, type(values.U)) or (isinstance(a, Sym) and not isinstance(a, (SNum, SBool, SComplex, SAtom))):
                r = a.__eq__(b)
                return False if r is NotImplemented else r
            return value_eq(a, b)
        r = a == b
        return r

    def contains(self, c, x):
        if isinstance(c, Fam):
            return SBool(c.member(x))
        if hasattr(c, "contains_expr"):
            return c.contains_expr(x)
        if hasattr(x, "sym_in"):
            return x.sym_in(c)
        if isinstance(c, MDict):
            return x in c
        if isinstance(c, (list, tuple)) and (contains_sym(x) or contains_sym(c)):
            return lor(*[self.equals(x, y) for y in c]) if c else False
        if isinstance(c, (set, frozenset, dict)) and contains_sym(x):
            if isinstance(x, OtherStr):
                return False
            return lor(*[value_eq(x, y) for y in c]) if c else False
        return x in c

    def e_Subscript(self, n, scope):
        obj = self.eval(n.value, scope)
        return self.getitem(obj, self.eval_slice(n.slice, scope))

    def eval_slice(self, n, scope):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, scope)
            return slice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_slice(e, scope) for e in n.elts)
        return self.eval(n, scope)

    def getitem(self, obj, idx):
        if isinstance(obj, (list, tuple, str)) and not isinstance(obj, Sym):
            if isinstance(obj, MList) and obj.fam is not None:
                raise Unsupported("index into a symbolic list")
            if isinstance(idx, slice):
                f = lambda x: concretize_int(x) if is_sym(x) else x
                r = obj[slice(f(idx.start), f(idx.stop), f(idx.step))]
                return MList(r) if type(r) is list else r
            if is_sym(idx):
                if len(obj) > 40 and not contains_sym(obj):
                    return self.element_of(obj, idx)
                idx = concretize_int(idx)
            return obj[idx]
        if isinstance(obj, dict) and not isinstance(obj, MDict) and contains_sym(idx):
            for k, v in obj.items():
                if bool_of(value_eq(k, idx)):
                    return v
            raise PyExc(KeyError(repr(idx)))
        return obj[idx]

    def element_of(self, obj, idx):
        """Some element of a long concrete sequence, of which nothing else is used."""
        idx = as_num(idx)
        if bool_of(lor(idx < -len(obj), idx >= len(obj))):
            raise PyExc(IndexError("index out of range"))
        return values.Element()

    def e_Tuple(self, n, scope):
        return tuple(self.eval_elts(n.elts, scope))

    def e_List(self, n, scope):
        xs = self.eval_elts(n.elts, scope)
        return MList(xs)

    def e_Set(self, n, scope):
        xs = self.eval_elts(n.elts, scope)
        if any(contains_sym(x) for x in xs):
            return LSet(xs)
        return set(xs)

    def eval_elts(self, elts, scope):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, scope)
                if _as_source(v) is not None:
                    raise Unsupported("star of a symbolic collection in a display")
                out.extend(self.iterate(v))
            else:
                out.append(self.eval(e, scope))
        return out

    def e_Dict(self, n, scope):
        d = MDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for k2, v2 in self.eval(v, scope).items():
                    d[k2] = v2
            else:
                kk = self.eval(k, scope)
                d[kk] = self.eval(v, scope)
        return d

    def e_Lambda(self, n, scope):
        defaults = [self.eval(d, scope) for d in n.args.defaults]
        kwd = {a.arg: self.eval(d, scope) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        outer = scope.fn.qualname if scope.fn else ""
        return InterpFunction(n, scope.globals, scope, f"{outer}.<lambda>", defaults, kwd, self)

    def e_JoinedStr(self, n, scope):
        parts = []
        sym = False
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, scope)
                spec = self.eval(v.format_spec, scope) if v.format_spec is not None else ""
                if contains_sym(x):
                    parts.append(x if isinstance(x, SText) else StrOf(x, (v.conversion, spec)))
                    sym = True
                else:
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    elif v.conversion == 97:
                        x = ascii(x)
                    parts.append(format(x, spec))
        return SText(parts) if sym else "".join(parts)

    def e_FormattedValue(self, n, scope):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), scope)

    def e_Starred(self, n, scope):
        raise Unsupported("starred expression")

    def e_Call(self, n, scope):
        fn = self.eval(n.func, scope)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, scope)
                src = _as_source(v)
                if src is not None:
                    args.append(StarArg(src))
                else:
                    args.extend(self.iterate(v))
            else:
                args.append(self.eval(a, scope))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, scope))
            else:
                kwargs[k.arg] = self.eval(k.value, scope)
        return self.call(fn, tuple(args), kwargs)

    # -- comprehensions
    def _comp(self, gens, scope, emit):
        """Runs a comprehension over concrete sources; emit(scope) per element.
        Raises _SymSource if a source is symbolic."""
        def rec(i, sc):
            if i == len(gens):
                emit(sc)
                return
            g = gens[i]
            it = self.eval(g.iter, sc)
            if _as_source(it) is not None:
                raise _SymSource()
            for x in self.iterate(it):
                self.assign(g.target, x, sc)
                if all(self.truth(self.eval(c, sc)) for c in g.ifs):
                    rec(i + 1, sc)
        sc = Scope(scope, scope.globals, scope.fn)
        rec(0, sc)

    def _comp_family(self, gens, scope, elt, kind):
        """Comprehension with at least one symbolic source, as a family."""
        interp = self
        eng = engine()
        frozen = scope.snapshot()
        first = self.eval(gens[0].iter, scope)

        def pick():
            sc = Scope(frozen, frozen.globals, frozen.fn)
            for g in gens:
                it = first if g is gens[0] else interp.eval(g.iter, sc)
                src = _as_source(it)
                if src is None:
                    xs = list(interp.iterate(it))
                    if not xs:
                        raise PathEnd("empty")
                    x = xs[engine().choose(len(xs))]
                else:
                    x = src.pick()
                interp.assign(g.target, x, sc)
                for c in g.ifs:
                    if not interp.truth(interp.eval(c, sc)):
                        raise PathEnd("filtered out")
            return elt(sc)
        # Evaluate once now so that errors surface at the right place.
        eng.sub_explore(pick)
        f = Fam(pick, kind=kind, distinct=kind is set)
        if len(gens) == 1:
            f.in_order_of = (_as_source(first), gens[0].target)

            def pick_with_source():
                box = []
                src = f.in_order_of[0]
                old = src._pick
                src._pick = lambda: (box.append(old()), box[-1])[1]
                try:
                    return box, pick_from(src)
                finally:
                    src._pick = old

            def pick_from(src):
                sc = Scope(frozen, frozen.globals, frozen.fn)
                x = src.pick()
                interp.assign(gens[0].target, x, sc)
                for c in gens[0].ifs:
                    if not interp.truth(interp.eval(c, sc)):
                        raise PathEnd("filtered out")
                return elt(sc)
            f.pick_with_source = pick_with_source
        return f

    def comp_indexed(self, gens, scope, elt):
        """[f(x) for x in seq] over a symbolic-length sequence keeps its indexing."""
        if len(gens) != 1:
            return None
        it = self.eval(gens[0].iter, scope)
        src = _as_source(it)
        if not isinstance(src, SSeq):
            return None
        if gens[0].ifs:
            return self.comp_periodic(gens[0], scope, elt, src)
        scope = scope.snapshot()

        def at(i):
            sc = Scope(scope, scope.globals, scope.fn)
            self.assign(gens[0].target, src.at(i), sc)
            return elt(sc)
        return SSeq(src.n, at, list)

    def comp_periodic(self, g, scope, elt, src):
        """[f(x) for x in seq if c(x)] where seq has m periods of length p and c depends on the position in the period alone."""
        p = getattr(src, "period", None)
        if p is None:
            return None
        eng = engine()
        m = as_num(src.n) // p
        if not eng.implied(zb(value_eq(m * p, as_num(src.n)))):
            return None

        def keeps(r):
            j = SNum(eng.fresh("period", z3.IntSort()))
            eng.assume(values.land(j >= 0, j < m))
            sc = Scope(scope, scope.globals, scope.fn)
            self.assign(g.target, src.at(j * p + r), sc)
            return all(self.truth(self.eval(c, sc)) for c in g.ifs)
        kept = []
        for r in range(p):
            outs = {v for _, _, v in eng.sub_explore(lambda: keeps(r))}
            if len(outs) != 1:
                return None
            if outs == {True}:
                kept.append(r)
        if not kept:
            return MList()
        q = len(kept)

        def at(i):
            i = as_num(i)
            off = i % q
            r = kept[-1]
            for d in range(q - 1):
                r = values.ite(zb(off == d), kept[d], r)
            sc = Scope(scope, scope.globals, scope.fn)
            self.assign(g.target, src.at((i // q) * p + r), sc)
            return elt(sc)
        return SSeq(m * q, at, list)

    def e_ListComp(self, n, scope):
        out = MList()
        n_dec = len(engine().decisions)
        try:
            self._comp(n.generators, scope, lambda sc: list.append(out, self.eval(n.elt, sc)))
            return out
        except _SymSource:
            r = self.comp_indexed(n.generators, scope, lambda sc: self.eval(n.elt, sc))
            if r is not None:
                return r
            return self._comp_family(n.generators, scope, lambda sc: self.eval(n.elt, sc), list)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, scope):
        out = []
        try:
            self._comp(n.generators, scope, lambda sc: out.append(self.eval(n.elt, sc)))
        except _SymSource:
            return self._comp_family(n.generators, scope, lambda sc: self.eval(n.elt, sc), set)
        if any(contains_sym(x) for x in out):
            return LSet(out)
        return set(out)

    def e_DictComp(self, n, scope):
        out = MDict()

        def emit(sc):
            k = self.eval(n.key, sc)
            out[k] = self.eval(n.value, sc)
        try:
            self._comp(n.generators, scope, emit)
            return out
        except _SymSource:
            out = MDict()
            out.fam = self._comp_family(n.generators, scope,
                                        lambda sc: (self.eval(n.key, sc), self.eval(n.value, sc)), list)
            self.check_functional(out.fam, n)
            out.fam.distinct = True     # as the entries of a dict
            return out

    def e_Yield(self, n, scope):
        self._yield(n, scope)

    def e_YieldFrom(self, n, scope):
        v = self.eval(n.value, scope)
        sc = scope
        while sc.yields is None:
            sc = sc.parent
        sc.yields.extend(self.iterate(v))


class _SymSource(Exception):
    pass


def _has_yield(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            if n is node:
                self.generic_visit(n)

        def visit_Lambda(self, n):
            pass
    v = V()
    v.visit(node)
    return v.found


def _read_before_write(name, stmts):
    """Conservative: may `name` be read in stmts before being written on every path?"""
    class R(ast.NodeVisitor):
        hit = False

        def visit_Name(self, n):
            if n.id == name and isinstance(n.ctx, ast.Load):
                self.hit = True

    def reads(*nodes):
        r = R()
        for n in nodes:
            if n is not None:
                r.visit(n)
        return r.hit

    def binds(t):
        return isinstance(t, ast.Name) and t.id == name or isinstance(t, (ast.Tuple, ast.List)) and any(binds(e) for e in t.elts) or isinstance(t, ast.Starred) and binds(t.value)

    def block(ss):
        """"read": may be read first; "done": written, or control has left; None: neither."""
        for s in ss:
            r = stmt(s)
            if r is not None:
                return r
        return None

    def stmt(s):
        if isinstance(s, ast.Assign):
            if reads(s.value) or any(reads(t) for t in s.targets if not binds(t)):
                return "read"
            return "done" if any(binds(t) for t in s.targets) else None
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return "read" if reads(s.value, None if binds(s.target) else s.target) else "done" if binds(s.target) else None
        if isinstance(s, ast.AugAssign):
            return "read" if binds(s.target) or reads(s) else None
        if isinstance(s, ast.If):
            if reads(s.test):
                return "read"
            a, b = block(s.body), block(s.orelse)
            return "read" if "read" in (a, b) else "done" if a == b == "done" else None
        if isinstance(s, ast.With):
            for it in s.items:
                if reads(it.context_expr):
                    return "read"
                if it.optional_vars is not None and binds(it.optional_vars):
                    return "done"
            return block(s.body)
        if isinstance(s, ast.For):
            if reads(s.iter) or not binds(s.target) and block(s.body) == "read":
                return "read"
            return "read" if block(s.orelse) == "read" else None
        if isinstance(s, ast.While):
            return "read" if reads(s.test) or block(s.body) == "read" or block(s.orelse) == "read" else None
        if isinstance(s, (ast.Return, ast.Raise)):
            return "read" if reads(s) else "done"
        if isinstance(s, (ast.Continue, ast.Break)):
            return "done"
        return "read" if reads(s) else None
    return block(stmts) == "read"


INTERP = None


def get_interp():
    global INTERP
    if INTERP is None:
        INTERP = Interp()
    return INTERP
