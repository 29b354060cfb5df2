"""Boolean arrays of symbolic shape (numpy's documented behaviour on them), and loops over their indices.

Mat(n, m, at) is an n x m array, Row(n, at) a vector; views write through to the array they were taken from.
Quantities over all columns stay element-wise (Forall), so that obligations on them are free of quantifiers.
Ranged decides a loop over an arbitrary range: the state before iteration i is given as a function of i.
"""
import ast

import z3

from pyvc.core import PathEnd, PyExc, Unsupported, engine
from pyvc.folds import Fold, frame_kept, frame_of, nonlocal_writes
from pyvc.interp import _Break, _Continue, _Return, _read_before_write, assigned_names
from pyvc.values import SBool, SNum, SSeq, Sym, as_num, is_sym, ite, land, lnot, lor, smax, smin, value_eq, zb


def truth_of(v):
    """An array element as a boolean."""
    if isinstance(v, (bool, SBool)):
        return SBool(zb(v))
    if type(v).__module__ == "numpy":
        return SBool(z3.BoolVal(bool(v)))
    n = as_num(v)
    if n is None:
        raise Unsupported(f"array element {v!r}")
    return SBool(zb(lnot(value_eq(n, as_num(0)))))


def same(a, b):
    return engine().implied(zb(value_eq(as_num(a), as_num(b))))


def span(s, n):
    """(start, length) of a slice of a dimension of length n."""
    if s.step not in (None, 1):
        raise Unsupported("slice with a step")
    n = as_num(n)

    def clamp(v, default):
        if v is None:
            return default
        v = as_num(v)
        v = ite(zb(v < 0), v + n, v)
        return smin(smax(v, 0), n)
    a, b = as_num(clamp(s.start, as_num(0))), as_num(clamp(s.stop, n))
    return a, as_num(smax(b - a, 0))


def position(i, n):
    """Normalised index into a dimension of length n."""
    i, n = as_num(i), as_num(n)
    j = as_num(ite(zb(i < 0), i + n, i))
    if not bool(land(j >= 0, j < n)):
        raise PyExc(IndexError("index out of bounds"))
    return j


class Arr(Sym):
    """What vectors and matrices share."""
    py_type = None

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic array")

    def __ne__(self, o):
        return self.elementwise(o, lambda a, b: SBool(z3.Xor(a.e, b.e)))

    def __eq__(self, o):
        return self.elementwise(o, lambda a, b: SBool(a.e == b.e))

    __xor__ = __rxor__ = __ne__

    def __and__(self, o):
        return self.elementwise(o, lambda a, b: land(a, b))

    def __or__(self, o):
        return self.elementwise(o, lambda a, b: lor(a, b))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return self.elementwise(True, lambda a, b: lnot(a))

    sym_not = __invert__

    def astype(self, t, **k):
        kind(t)
        return self.copy()


def kind(t):
    import numpy as np
    if t not in (bool, np.bool_, np.uint8, "bool", "uint8") and not (isinstance(t, np.dtype) and t in (np.dtype(bool), np.dtype(np.uint8))):
        raise Unsupported(f"array of {t!r}")


class Row(Arr):
    """A vector; base = (matrix, row index, first column) when it is a view."""
    def __init__(self, n, at, base=None, hint=None):
        self.n, self.at, self.base, self.hint = as_num(n), at, base, hint

    shape = property(lambda self: (self.n,))
    size = property(lambda self: self.n)
    dtype = bool

    def sym_len(self):
        return self.n

    def sym_source(self):
        return SSeq(self.n, lambda i: self.at(as_num(i)), list)

    def now(self):
        """The content as it is now."""
        if isinstance(self.base, tuple) and self.base[0] != "view":
            m, r, c = self.base
            return lambda j, at=m.at: at(r, as_num(j) + c)
        return self.at

    def copy(self):
        return Row(self.n, self.now(), None, self.hint)

    def elementwise(self, o, f):
        a = self.now()
        if isinstance(o, Row):
            if not same(o.n, self.n):
                raise Unsupported("vectors of different lengths")
            b = o.now()
            return Row(self.n, lambda j: f(a(j), b(j)), None, self.hint)
        if isinstance(o, (bool, int, SBool, SNum)):
            return Row(self.n, lambda j: f(a(j), truth_of(o)), None, self.hint)
        return NotImplemented

    def __getitem__(self, i):
        if isinstance(i, slice):
            s, n = span(i, self.n)
            base = None if self.base is None or self.base[0] == "view" else (self.base[0], self.base[1], self.base[2] + s)
            me = self
            return Row(n, lambda j: me.at(as_num(j) + s), base if base else ("view", me, s), self.hint)
        return self.at(position(i, self.n))

    def __setitem__(self, i, v):
        if isinstance(self.base, tuple) and self.base[0] == "view":
            raise Unsupported("write through a view of a vector")
        if isinstance(i, slice):
            s, n = span(i, self.n)
            inside = lambda j: land(as_num(j) >= s, as_num(j) < s + n)
            if isinstance(v, Row):
                if not same(v.n, n):
                    raise Unsupported("assignment of a vector of another length")
                w = v.now()
                new = lambda j: w(as_num(j) - s)
            else:
                x = truth_of(v)
                new = lambda j: x
        else:
            p = position(i, self.n)
            inside = lambda j: value_eq(as_num(j), p)
            x = truth_of(v)
            new = lambda j: x
        if self.base is not None:
            m, r, c = self.base
            m.write(lambda a, b: land(value_eq(as_num(a), r), inside(as_num(b) - c)), lambda a, b: new(as_num(b) - c))
            return
        old = self.at
        self.at = lambda j: ite(zb(inside(j)), new(j), old(j))

    def all(self, axis=None, **k):
        return forall(self.n, self.now(), k)

    def any(self, axis=None, **k):
        return lnot(forall(self.n, lambda j, a=self.now(): lnot(a(j)), k))

    def sum(self, *a, **k):
        if a or set(k) - {"dtype"}:
            raise Unsupported("options of sum")
        return count(self)

    def nonzero(self):
        return (NonZero(self),)


class Forall(SBool):
    """For all j < n: el(j) (or its negation)."""
    def __init__(self, n, el, neg=False):
        self.n, self.el, self.neg = as_num(n), el, neg
        self._e = None

    @property
    def e(self):
        if self._e is None:
            body = None
            for k in range(4):
                if same(self.n, k):
                    body = z3.And(*[zb(self.el(as_num(j))) for j in range(k)]) if k else z3.BoolVal(True)
                    break
            if body is None:
                j = z3.Int("j!all")
                body = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n.e), zb(self.el(SNum(j)))))
            self._e = z3.Not(body) if self.neg else body
        return self._e

    def negated(self):
        return Forall(self.n, self.el, not self.neg)

    sym_not = negated

    def __hash__(self):
        return id(self)


def forall(n, el, k):
    if set(k) - {"axis", "keepdims"} or k.get("keepdims"):
        raise Unsupported("options of all/any")
    return Forall(n, el)


def count(row):
    """Number of true elements of a vector: an arbitrary number, remembered with what it counts."""
    eng = engine()
    c = SNum(eng.fresh("count", z3.IntSort()))
    eng.assume(land(c >= 0, c <= row.n))
    eng.local[("count", c.e.get_id())] = (c, row.n, row.now())
    return c


def counted(result):
    """(length, predicate) that result counts."""
    eng = engine()
    r = as_num(result)
    if r is None:
        raise Unsupported(f"count {result!r}")
    for k, v in list(eng.local.items()):
        if isinstance(k, tuple) and k[0] == "count":
            c, n, pred = v
            if same(r, c):
                return n, pred
            if same(r, n - c):
                return n, lambda i, p=pred: lnot(p(i))
    raise Unsupported("the result is not a count over the shots")


class NonZero(Sym):
    """np.nonzero(row)[0]: the ascending positions of the true elements."""
    py_type = None

    def __init__(self, row):
        self.row = row

    def astype(self, t, **k):
        return self

    def tolist(self):
        return self

    as_list = flatten = ravel = tolist

    def sym_source(self):
        """Some number of positions, all of them true; which ones is up to a function of its own."""
        eng = engine()
        n, at = self.row.n, self.row.now()
        cnt = SNum(eng.fresh("fired", z3.IntSort()))
        nth = z3.Function(f"{cnt.e}_at", z3.IntSort(), z3.IntSort())
        eng.assume(land(cnt >= 0, cnt <= n))

        def pick(t):
            t = as_num(t)
            d = SNum(nth(t.e))
            eng.assume_fact(z3.Implies(zb(land(t >= 0, t < cnt)), zb(land(d >= 0, d < n, at(d)))))
            return d
        s = SSeq(cnt, pick, list)
        s.nonzero_of = self.row
        return s

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic array")


class Mat(Arr):
    def __init__(self, n, m, at, frozen=None):
        self.n, self.m, self.at, self.frozen = as_num(n), as_num(m), at, frozen

    shape = property(lambda self: (self.n, self.m))
    ndim = 2
    dtype = bool

    def sym_len(self):
        return self.n

    def sym_source(self):
        s = SSeq(self.n, self.row, list)
        s.of = self
        return s

    def row(self, r):
        r = as_num(r)
        return Row(self.m, lambda j: self.at(r, as_num(j)), (self, r, as_num(0)), r)

    def write(self, where, value):
        if self.frozen is not None:
            self.frozen()
            return
        old = self.at
        self.at = lambda i, j: ite(zb(where(i, j)), value(i, j), old(i, j))

    def copy(self):
        return Mat(self.n, self.m, self.at)

    def elementwise(self, o, f):
        a = self.at
        if isinstance(o, Mat):
            if not same(o.n, self.n) or not same(o.m, self.m):
                raise Unsupported("arrays of different shapes")
            b = o.at
            return Mat(self.n, self.m, lambda i, j: f(a(i, j), b(i, j)))
        if isinstance(o, (bool, int, SBool, SNum)):
            return Mat(self.n, self.m, lambda i, j: f(a(i, j), truth_of(o)))
        return NotImplemented

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = (k, slice(None))
        if not isinstance(k, tuple):
            if not isinstance(k, (int, SNum)):
                raise Unsupported("index of an array")
            return self.row(position(k, self.n))
        if len(k) != 2:
            raise Unsupported("index of an array")
        r, c = k
        if isinstance(r, slice) and isinstance(c, slice):
            (a, n), (b, m) = span(r, self.n), span(c, self.m)
            v = Mat(n, m, lambda i, j: self.at(as_num(i) + a, as_num(j) + b))
            v.frozen = self.frozen or no_view
            return v
        if isinstance(r, slice):
            a, n = span(r, self.n)
            p = position(c, self.m)
            return Row(n, lambda i: self.at(as_num(i) + a, p), ("view", self, p))
        if isinstance(c, slice):
            return self.row(position(r, self.n))[c]
        return self.at(position(r, self.n), position(c, self.m))

    def __setitem__(self, k, v):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        r, c = k
        if isinstance(r, slice):
            raise Unsupported("write to a range of rows")
        p = position(r, self.n)
        if isinstance(c, slice):
            b, m = span(c, self.m)
            if isinstance(v, Row):
                if not same(v.n, m):
                    if bool(value_eq(v.n, m)):
                        pass
                    elif bool(v.n == 1):
                        raise Unsupported("broadcast")
                    else:
                        raise PyExc(ValueError("could not broadcast"))
                w = v.now()
                self.write(lambda i, j: land(value_eq(as_num(i), p), as_num(j) >= b, as_num(j) < b + m), lambda i, j: w(as_num(j) - b))
                return
            x = truth_of(v)
            self.write(lambda i, j: land(value_eq(as_num(i), p), as_num(j) >= b, as_num(j) < b + m), lambda i, j: x)
            return
        q = position(c, self.m)
        x = truth_of(v)
        self.write(lambda i, j: land(value_eq(as_num(i), p), value_eq(as_num(j), q)), lambda i, j: x)

    def all(self, axis=None, **k):
        if axis not in (1, -1):
            raise Unsupported("all over other axes")
        at, m = self.at, self.m
        return Row(self.n, lambda i: forall(m, lambda j: at(i, j), k))

    def any(self, axis=None, **k):
        if axis not in (1, -1):
            raise Unsupported("any over other axes")
        at, m = self.at, self.m
        return Row(self.n, lambda i: forall(m, lambda j: lnot(at(i, j)), k).negated())


def no_view():
    raise Unsupported("write through a view of an array")


def install(P):
    """numpy's functions on these arrays."""
    import numpy as np

    def dispatch(name, real):
        def f(a, axis=None, **k):
            if isinstance(a, Arr):
                return getattr(a, name)(axis=axis, **k)
            return real(a, axis=axis, **k)
        P.interp.override(real, f)
    dispatch("all", np.all)
    dispatch("any", np.any)
    np_count, np_sum, np_nonzero, np_flat = np.count_nonzero, np.sum, np.nonzero, np.flatnonzero

    def m_count(a, *x, **k):
        if isinstance(a, Row) and not x and not k:
            return count(a)
        if isinstance(a, Arr):
            raise Unsupported("count over an axis")
        return np_count(a, *x, **k)

    def m_sum(a, *x, **k):
        return a.sum(*x, **k) if isinstance(a, Arr) else np_sum(a, *x, **k)

    def m_zeros(shape, dtype=float, **k):
        kind(dtype)
        return filled(shape, False)

    def filled(shape, v):
        v = SBool(z3.BoolVal(v))
        if isinstance(shape, (tuple, list)) and len(shape) == 2:
            return Mat(shape[0], shape[1], lambda i, j: v)
        if isinstance(shape, (tuple, list)):
            (shape,) = shape
        return Row(shape, lambda j: v)

    def m_ones(shape, dtype=float, **k):
        kind(dtype)
        return filled(shape, True)

    def m_empty(shape, dtype=float, **k):
        kind(dtype)
        f = z3.Function(f"garbage!{len(engine().fresh_log)}", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        engine().fresh("garbage", z3.IntSort())
        if isinstance(shape, (tuple, list)) and len(shape) == 2:
            return Mat(shape[0], shape[1], lambda i, j: SBool(f(as_num(i).e, as_num(j).e)))
        if isinstance(shape, (tuple, list)):
            (shape,) = shape
        return Row(shape, lambda j: SBool(f(as_num(j).e, z3.IntVal(0))))

    def m_resize(a, shape):
        if not isinstance(a, Row):
            raise Unsupported("resize")
        if isinstance(shape, (tuple, list)):
            (shape,) = shape
        n, w = a.n, a.now()
        f = z3.Function(f"cycled!{len(engine().fresh_log)}", z3.IntSort(), z3.BoolSort())
        engine().fresh("cycled", z3.IntSort())

        def at(j):
            j = as_num(j)
            return ite(zb(value_eq(n, as_num(0))), SBool(z3.BoolVal(False)),
                       ite(zb(j < n), w(j), ite(zb(j < n + n), w(j - n), SBool(f(j.e)))))
        return Row(shape, at, None, a.hint)

    def m_concat(parts, *x, **k):
        if x or k:
            raise Unsupported("options of concatenate")
        out = None
        for p in parts:
            if not isinstance(p, Row):
                xs = [truth_of(v) for v in p]
                p = Row(len(xs), lambda j, xs=xs: pick_of(xs, j))
            out = p.copy() if out is None else joined(out, p)
        return out

    def joined(a, b):
        wa, wb, n = a.now(), b.now(), a.n
        return Row(n + b.n, lambda j: ite(zb(as_num(j) < n), wa(j), wb(as_num(j) - n)), None, a.hint)

    def pick_of(xs, j):
        out = xs[-1] if xs else SBool(z3.BoolVal(False))
        for q in range(len(xs) - 1):
            out = ite(zb(value_eq(as_num(j), as_num(q))), xs[q], out)
        return out

    def m_append(a, v, axis=None):
        if axis is not None:
            raise Unsupported("append along an axis")
        return m_concat([a, v if isinstance(v, (list, tuple, Row)) else [v]])

    def m_nonzero(a):
        return a.nonzero() if isinstance(a, Row) else np_nonzero(a) if not isinstance(a, Arr) else bad()

    def bad():
        raise Unsupported("nonzero of a matrix")

    def m_flat(a):
        return NonZero(a) if isinstance(a, Row) else np_flat(a) if not isinstance(a, Arr) else bad()

    def two(f, real):
        def g(a, b, *x, **k):
            if (isinstance(a, Arr) or isinstance(b, Arr)) and not x and not k:
                return f(a, b) if isinstance(a, Arr) else f(b, a)
            return real(a, b, *x, **k)
        P.interp.override(real, g)

    def m_not(a, *x, **k):
        return ~a if isinstance(a, Arr) else np_not(a, *x, **k)
    np_not = np.logical_not

    def m_array(a, dtype=None, **k):
        if isinstance(a, Arr):
            if dtype is not None:
                kind(dtype)
            return a.copy()
        from pyvc.values import contains_sym
        if contains_sym(a):
            raise Unsupported("array of symbolic values")
        return np_array(a, dtype=dtype, **k) if dtype is not None else np_array(a, **k)
    np_array = np.array

    def m_asarray(a, dtype=None, **k):
        if isinstance(a, Arr):
            if dtype is not None:
                kind(dtype)
            return a
        return m_array(a, dtype, **k)
    for real, model in ((np.count_nonzero, m_count), (np.sum, m_sum), (np.zeros, m_zeros), (np.ones, m_ones), (np.empty, m_empty), (np.resize, m_resize),
                        (np.concatenate, m_concat), (np.hstack, m_concat), (np.append, m_append), (np.nonzero, m_nonzero), (np.flatnonzero, m_flat),
                        (np.logical_not, m_not), (np.invert, m_not), (np.array, m_array), (np.asarray, m_asarray)):
        model._pyvc_model = True
        P.interp.override(real, model)
    two(lambda a, b: a == b, np.equal)
    two(lambda a, b: a != b, np.not_equal)
    two(lambda a, b: a ^ b, np.logical_xor)
    two(lambda a, b: a ^ b, np.bitwise_xor)
    two(lambda a, b: a & b, np.logical_and)
    two(lambda a, b: a | b, np.logical_or)
    engine().assumptions.add("numpy's documented behaviour on boolean arrays (slices, views, element-wise operations, all/any/count_nonzero/nonzero/resize)")


class Ranged(Fold):
    """A for-loop over a sequence of symbolic length n whose state before iteration i is state(vars, i).

    of(src): does this rule decide the loop over src?
    state(vars, i): {variable: value}, may set objects itself; check(vars, i): obligations on the state before iteration i (i = 0: entry).
    Only loops over 0, 1, .., n-1 or over elements in their order.
    """
    def __init__(self, name, of, n, state, check, on_raise=None):
        super().__init__(name, state, check, on_raise=on_raise)
        self.of, self.n = of, n
        self.index = self.src = None

    def matches(self, interp, node, scope):
        return isinstance(node, ast.For)

    def run_for(self, interp, node, scope, src):
        eng = engine()
        if node.orelse:
            raise Unsupported("for-else over a symbolic range")
        self.used, self.src = True, src
        chain, s = [], scope
        while s is not None:
            chain.append((s, dict(s.vars)))
            s = s.parent
        env0 = self.visible(scope)
        mats = {id(v): (v, v.at) for v in env0.values() if isinstance(v, (Mat, Row)) and getattr(v, "base", None) is None}
        target = assigned_names([ast.Assign(targets=[node.target], value=None)])
        local0 = dict(eng.local)

        def restore():
            for sc, vs in chain:
                sc.vars = dict(vs)
            for v, at in mats.values():
                v.at = at
            eng.local.clear()
            eng.local.update(local0)
        written = assigned_names(node.body) | nonlocal_writes(interp, node, scope)
        self.check(env0, as_num(0))
        held = set(self.state(env0, None) or ())
        restore()
        carried = {n for n in written if n in env0 and n not in target and n not in held}
        for n in carried:
            if n not in scope.vars or _read_before_write(n, node.body):
                raise Unsupported(f"loop-carried variable {n} is not part of the state of the loop {self.name}")
        frozen = frame_of(env0, held)

        def step():
            restore()
            outer = self.index
            try:
                i = SNum(eng.fresh("i", z3.IntSort()))
                eng.assume(land(i >= 0, i < src.n))
                self.index = i
                self.put(scope, self.state(env0, i))
                pre = self.visible(scope)
                kept = {k: v.at for k, (v, _) in mats.items()}
                interp.assign(node.target, src.at(i), scope)
                try:
                    interp.exec_block(node.body, scope)
                except _Continue:
                    pass
                except (_Return, _Break):
                    raise Unsupported("return or break in a loop over a symbolic range")
                except PyExc as pe:
                    if self.on_raise is None:
                        if eng.feasible():
                            eng.prove(f"{self.name}: no {type(pe.exc).__name__} is raised", False, detail=f"raised {pe.exc!r}")
                        return
                    self.on_raise(pe, pre, i)
                    return
                for what, ok, own in frame_kept(frozen):
                    if own and not ok:
                        raise Unsupported(f"{what} changes along the loop {self.name} and is not part of its state")
                    eng.prove(f"{self.name}: an iteration leaves {what} alone", ok)
                env = self.visible(scope)
                for k, (v, _) in mats.items():
                    if v.at is not kept[k] and not self.covers(v):
                        raise Unsupported(f"an array changes along the loop {self.name} and is not part of its state")
                self.check(env, i + 1)
            finally:
                self.index = outer
                restore()
        eng.sub_explore(step)
        restore()
        self.put(scope, self.state(env0, as_num(smax(src.n, 0))))

    def covers(self, v):
        return True


class Loops:
    """Dispatch of for-loops to the Ranged rules that accept their source."""
    def __init__(self, *rules):
        self.rules = rules
        self.pending = None

    def matches(self, interp, node, scope):
        return isinstance(node, ast.For)

    def run_for(self, interp, node, scope, src):
        for r in self.rules:
            if isinstance(src, SSeq) and r.of(src, scope):
                r.run_for(interp, node, scope, src)
                return
        if getattr(src, "fold", None) is not None:
            src.run_for(interp, node, scope)
            return
        if isinstance(src, SSeq):
            if engine().implied(zb(as_num(src.n) <= 8)):
                interp.unroll(node, scope, src)
                return
        interp.summarize_for(node, scope, src)


def in_order(src):
    """Is the loop over 0, 1, .., or over elements that are not indices?"""
    eng = engine()
    i = SNum(eng.fresh("i", z3.IntSort()))
    if getattr(src, "nonzero_of", None) is not None:
        return True
    x = src.at(i)
    return not isinstance(x, SNum) or same(x, i)
