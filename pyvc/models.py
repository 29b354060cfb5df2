"""Models of builtins and of library functions used by the interpreted code.

Each model is either an exact re-statement on symbolic values or defers to the native function
when nothing symbolic is involved. Library contracts that are assumed rather than proved are
recorded with engine().assumptions.
"""
import builtins
import collections
import functools
import itertools
import math
import types

import z3

from . import core, values
from .core import PyExc, Unsupported, engine
from .values import (Fam, SBool, SComplex, SNum, SRange, SSeq, Sym, as_num, ceil_of, concretize_int, const_value,
                     contains_sym, fam_of_list, floor_of, int_of, is_sym, ite, land, lnot, lor, smax, smin, value_eq, zb)

LOG = z3.Function("ln", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG_DEF = "math.log/np.log is the natural logarithm (uninterpreted: strictly increasing, ln 1 = 0, ln(a*b) = ln a + ln b where used)"


def log_argument(v):
    """Argument of the logarithm that v is: v = ln(argument), for sums and differences of logarithms; None otherwise."""
    def terms(e, sign):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            return [t for c in e.children() for t in terms(c, sign)]
        if k == z3.Z3_OP_SUB:
            cs = e.children()
            return terms(cs[0], sign) + [t for c in cs[1:] for t in terms(c, -sign)]
        if k == z3.Z3_OP_UMINUS:
            return terms(e.children()[0], -sign)
        if k == z3.Z3_OP_MUL and len(e.children()) == 2 and z3.is_rational_value(e.children()[0]) and abs(e.children()[0].as_fraction()) == 1:
            return terms(e.children()[1], sign * int(e.children()[0].as_fraction()))
        return [(e, sign)]
    if not isinstance(v, SNum):
        return None
    ts = terms(z3.simplify(v.real_term()), 1)
    if any(not e.decl().eq(LOG) for e, _ in ts):
        return None
    num = [e.arg(0) for e, s in ts if s > 0]
    den = [e.arg(0) for e, s in ts if s < 0]
    top, bottom = z3.RealVal(1), z3.RealVal(1)
    for x in num:
        top = top * x
    for x in den:
        bottom = bottom * x
    return SNum(top), SNum(bottom)


def install(interp):
    from . import interp as I
    MList, MDict, LSet, StarArg, SText, StrOf = I.MList, I.MDict, I.LSet, I.StarArg, I.SText, I.StrOf
    _as_source, bool_of = I._as_source, I.bool_of

    def conc(it):
        """Concrete python list of an iterable, or None when it is symbolic."""
        if _as_source(it) is not None:
            return None
        return list(interp.iterate(it))

    def short_list(it):
        """Concrete list of it, unrolling a symbolic sequence that is provably short."""
        src = _as_source(it)
        if src is None:
            return list(interp.iterate(it))
        if isinstance(src, SSeq) and engine().implied(zb(as_num(src.n) <= interp.unroll_cap)):
            out = []
            while bool_of(as_num(src.n) > len(out)):
                out.append(src.at(len(out)))
            return out
        return None

    def m_len(x):
        if isinstance(x, SSeq):
            return x.length()
        if isinstance(x, MList) and x.fam is not None or isinstance(x, Fam):
            f = x if isinstance(x, Fam) else x.fam
            if getattr(f, "count", None) is not None:
                return f.count
            raise Unsupported("length of a symbolic collection")
        if isinstance(x, MDict):
            if x.fam is not None:
                raise Unsupported("length of a symbolic dict")
            return len(dict.keys(x)) + len(x.sym)
        if hasattr(x, "sym_len"):
            return x.sym_len()
        return len(x)

    def m_range(*a):
        if any(is_sym(x) for x in a):
            a2 = [const_value(x) if is_sym(x) else x for x in a]
            if all(x is not None for x in a2):
                return range(*[int(x) for x in a2])
            if len(a) == 1:
                return SRange(0, a[0])
            return SRange(*a)
        return range(*a)

    def m_isinstance(x, t):
        if hasattr(x, "py_type"):
            ts = t if isinstance(t, tuple) else (t,)
            return any(issubclass(x.py_type, u) for u in ts)
        if isinstance(x, SNum):
            ts = t if isinstance(t, tuple) else (t,)
            if x.is_int_sort and x.den == 1:
                return any(u in (int, object) or u.__name__ in ("Integral", "Real", "Number") for u in ts)
            return any(u in (float, object) for u in ts)
        if isinstance(x, Sym):
            ts = t if isinstance(t, tuple) else (t,)
            if isinstance(x, SBool):
                return any(u in (bool, int, object) for u in ts)
            if isinstance(x, SComplex):
                return any(u in (complex, object) for u in ts)
            if isinstance(x, (SText, StrOf, values.OtherStr)):
                return any(u in (str, object) for u in ts)
            if isinstance(x, LSet):
                return any(u in (set, frozenset, object) for u in ts)
            if isinstance(x, values.SAtom):
                if any(u.__module__ in values.REPO_MODULES for u in ts):
                    return False
                raise Unsupported("isinstance of an opaque value")
            if isinstance(x, (Fam, SSeq)):
                return any(issubclass(x.kind, u) for u in ts)
            raise Unsupported(f"isinstance of {type(x)}")
        return isinstance(x, t)

    def keycmp(ka, kb):
        lt = interp.compare_lt(ka, kb)
        if bool_of(lt):
            return -1
        gt = interp.compare_lt(kb, ka)
        if bool_of(gt):
            return 1
        return 0

    def m_sorted(it, *, key=None, reverse=False):
        if key is None and hasattr(it, "as_sorted"):
            return it.as_sorted()
        src = _as_source(it)
        if src is not None:
            f = Fam(src.pick, kind=list, order=(key, reverse), distinct=getattr(src, "distinct", False))
            f.count = getattr(src, "count", None)
            f.sorted_from = src
            return f
        xs = list(interp.iterate(it))
        ks = [interp.call(key, (x,), {}) if key is not None else x for x in xs]
        idx = list(range(len(xs)))
        if any(contains_sym(k) for k in ks):
            idx.sort(key=functools.cmp_to_key(lambda a, b: keycmp(ks[a], ks[b])), reverse=reverse)
        elif ks and type(ks[0]).__module__ in values.REPO_MODULES:
            idx.sort(key=functools.cmp_to_key(lambda a, b: keycmp(ks[a], ks[b])), reverse=reverse)
        else:
            idx.sort(key=lambda i: ks[i], reverse=reverse)
        return MList(xs[i] for i in idx)

    def m_tuple(it=()):
        src = _as_source(it)
        if src is not None:
            if isinstance(src, SSeq):
                return SSeq(src.n, src.at, tuple)
            f = Fam(src.pick, kind=tuple, order=getattr(src, "order", None), distinct=getattr(src, "distinct", False))
            f.count = getattr(src, "count", None)
            f.parts = getattr(src, "parts", (f,))
            f.sorted_from = getattr(src, "sorted_from", None)
            return f
        return tuple(interp.iterate(it))

    def m_list(it=()):
        if hasattr(it, "as_list"):
            return it.as_list()
        src = _as_source(it)
        if src is not None:
            r = m_tuple(it)
            r.kind = list
            return r
        return MList(interp.iterate(it))

    def m_set(it=()):
        if hasattr(it, "as_set"):
            return it.as_set()
        src = _as_source(it)
        if src is not None:
            return Fam(src.pick, kind=set, distinct=True)
        xs = list(interp.iterate(it))
        if any(contains_sym(x) for x in xs) or interp.symbolic_sets and not xs:
            return LSet(xs)
        if any(type(x).__module__ in values.REPO_MODULES for x in xs):
            return LSet(xs) if any(contains_sym(x) for x in xs) else set(xs)
        return set(xs)

    def m_frozenset(it=()):
        r = m_set(it)
        return frozenset(r) if isinstance(r, set) else r

    def m_dict(*a, **k):
        if a and isinstance(a[0], MDict):
            d = MDict(a[0])
            d.sym = list(a[0].sym)
            d.fam = a[0].fam
            d.update(k)
            return d
        d = MDict()
        if a:
            src = _as_source(a[0])
            if src is not None:
                if not isinstance(src, Fam):
                    raise Unsupported("dict() of a symbolic collection")
                if k:
                    raise Unsupported("dict() of a symbolic collection and more")

                def entry():
                    e = src.pick()
                    if not isinstance(e, (tuple, list)) or len(e) != 2:
                        raise Unsupported("dict() of something other than pairs")
                    return tuple(e)
                d.fam = Fam(entry)
                d.fam.in_order_of = (src, None)
                d.fam.pick_with_source = lambda: (lambda e: ([e], e))(entry())
                interp.check_functional(d.fam, None)
                d.fam.distinct = True
                return d
            for kk, vv in (a[0].items() if isinstance(a[0], dict) else interp.iterate(a[0])):
                d[kk] = vv
        for kk, vv in k.items():
            d[kk] = vv
        return d

    def m_defaultdict(factory=None, *a, **k):
        return MDict(default_factory=factory)

    def m_enumerate(it, start=0):
        src = _as_source(it)
        if isinstance(src, SSeq):
            return SSeq(src.n, lambda i: (as_num(i) + start if is_sym(i) else i + start, src.at(i)), list)
        if src is not None:
            h = getattr(interp, "enumerate_fam", None)
            if h is not None:
                return h(src, start)
            raise Unsupported("enumerate of a symbolic collection")
        return list(enumerate(interp.iterate(it), start))

    def m_zip(*its):
        srcs = [_as_source(i) for i in its]
        if all(s is None for s in srcs):
            return list(zip(*[interp.iterate(i) for i in its]))
        if all(isinstance(s, SSeq) for s in srcs):
            n = srcs[0].n
            for s in srcs[1:]:
                n = smin(as_num(n), as_num(s.n))
            return SSeq(n, lambda i: tuple(s.at(i) for s in srcs), list)
        for k, s in enumerate(srcs):
            if s is None:
                xs = list(interp.iterate(its[k]))
                if not xs:
                    return []
                per = next(d for d in range(1, len(xs) + 1) if all(xs[i] is xs[i - d] or (isinstance(xs[i], str) and xs[i] == xs[i - d]) for i in range(d, len(xs))))
                srcs[k] = values.repeat_seq(xs[:per], as_num(1))
                srcs[k].n = as_num(len(xs))
        if all(isinstance(s, (SSeq, Fam)) for s in srcs):
            return m_zip(*[interp.index_sorted(s) if isinstance(s, Fam) else s for s in srcs])
        raise Unsupported("zip of symbolic collections")

    def m_product(*its, repeat=1):
        its = its * repeat
        srcs = [_as_source(i) for i in its]
        xs = [list(interp.iterate(i)) if src is None else None for i, src in zip(its, srcs)]
        if all(src is None for src in srcs):
            return list(itertools.product(*xs))
        if any(isinstance(src, SSeq) for src in srcs):
            raise Unsupported("product of symbolic sequences")

        def pick():
            out = []
            for x, src in zip(xs, srcs):
                if src is None and not x:
                    raise core.PathEnd("empty")
                out.append(x[engine().choose(len(x))] if src is None else src.pick())
            return tuple(out)
        return Fam(pick)

    def m_chain(*its):
        if any(_as_source(i) is not None for i in its):
            raise Unsupported("chain of symbolic collections")
        return [x for i in its for x in interp.iterate(i)]

    def m_minmax(is_min):
        nat = min if is_min else max

        def f(*a, key=None, default=I._MISSING):
            if len(a) == 1:
                if not is_min and key is None and hasattr(a[0], "sym_max"):
                    return a[0].sym_max(None if default is I._MISSING else default)
                src = _as_source(a[0])
                if src is not None:
                    if hasattr(src, "sym_minmax"):
                        return src.sym_minmax(is_min, default)
                    raise Unsupported("min/max of a symbolic collection")
                xs = list(interp.iterate(a[0]))
                if not xs:
                    if default is I._MISSING:
                        raise PyExc(ValueError("empty sequence"))
                    return default
            else:
                xs = list(a)
            if not any(contains_sym(x) for x in xs):
                return nat(xs, key=key) if key is not None else nat(xs)
            if key is not None:
                raise Unsupported("min/max with key on symbolic values")
            if any(isinstance(x, float) and math.isinf(x) for x in xs):
                dom = math.inf if is_min else -math.inf
                ys = [x for x in xs if not (isinstance(x, float) and x == dom)]
                if len(ys) == len(xs):
                    return -dom
                xs = ys
            r = xs[0]
            for x in xs[1:]:
                r = (smin if is_min else smax)(r, x)
            return r
        return f

    def m_sum(it, start=0):
        xs = short_list(it)
        if xs is None:
            raise Unsupported("sum over a symbolic collection")
        r = start
        for x in xs:
            r = r + x
        return r

    def m_any(it):
        src = _as_source(it)
        if src is not None:
            if isinstance(src, Fam):
                raise Unsupported("any over a symbolic collection")
            raise Unsupported("any over a symbolic sequence")
        xs = list(interp.iterate(it))
        for x in xs:
            if interp.truth(x):
                return True
        return False

    def m_all(it):
        src = _as_source(it)
        if src is not None:
            alts = engine().sub_explore(lambda: src.pick())
            oks = []
            for conds, consts, v in alts:
                body = z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), zb(v))
                oks.append(z3.ForAll(consts, body) if consts else body)
            return SBool(z3.And(*oks)) if oks else True
        for x in interp.iterate(it):
            if not interp.truth(x):
                return False
        return True

    def m_int(x=0, *a):
        if isinstance(x, StrOf) and not a:
            return _parse_int(x)
        if hasattr(x, "sym_int") and not a:
            return x.sym_int()
        return int_of(x) if isinstance(x, SNum) else (values.num_of_bool(x) if isinstance(x, SBool) else int(x, *a))

    def _parse_int(x):
        # int(str(v)) == v for integers (CPython round trip of int formatting).
        if isinstance(x.v, SNum) and x.v.is_int_sort and x.v.den == 1:
            return x.v
        raise Unsupported("int() of a symbolic string")

    def m_float(x=0.0):
        if isinstance(x, StrOf):
            engine().assumptions.add("float(str(v)) == v (CPython shortest round-trip formatting)")
            if isinstance(x.v, SNum):
                return x.v
            raise Unsupported("float() of a symbolic string")
        return x if isinstance(x, SNum) else (values.num_of_bool(x) if isinstance(x, SBool) else float(x))

    def m_str(*a):
        if a and contains_sym(a[0]):
            if isinstance(a[0], (SText, StrOf, values.OtherStr)):
                return a[0]
            return StrOf(a[0])
        return str(*a)

    def m_repr(x):
        return StrOf(x, "r") if contains_sym(x) else repr(x)

    def m_bool(x=False):
        return x if isinstance(x, SBool) else interp.truth(x)

    def m_abs(x):
        return abs(x)

    def m_complex(a=0, b=0):
        if is_sym(a) or is_sym(b):
            return SComplex(a, b)
        return complex(a, b)

    def m_print(*a, **k):
        f = k.get("file")
        if f is not None and hasattr(f, "sym_print"):
            f.sym_print(a, k)
        h = engine().ghost.get("on_print")
        if f is None and h is not None:
            h(a, k)

    def m_reversed(it):
        src = _as_source(it)
        if isinstance(src, SSeq):
            n = as_num(src.n)
            return SSeq(src.n, lambda i: src.at(n - 1 - as_num(i)), list)
        if src is not None:
            raise Unsupported("reversed symbolic collection")
        return list(reversed(list(interp.iterate(it))))

    def m_map(f, *its):
        cs = [conc(i) for i in its]
        if any(c is None for c in cs):
            if len(its) == 1:
                src = _as_source(its[0])
                if isinstance(src, SSeq):
                    return SSeq(src.n, lambda i: interp.call(f, (src.at(i),), {}), list)
                return Fam(lambda: interp.call(f, (src.pick(),), {}), kind=list)
            raise Unsupported("map over symbolic collections")
        return MList(interp.call(f, xs, {}) for xs in zip(*cs))

    def m_filter(f, it):
        c = conc(it)
        if c is None:
            raise Unsupported("filter over a symbolic collection")
        return MList(x for x in c if interp.truth(interp.call(f, (x,), {}) if f is not None else x))

    def m_getattr(o, n, *d):
        try:
            return interp.getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    def m_round(x, nd=None):
        if is_sym(x):
            if nd is not None:
                if type(nd) is not int or abs(nd) > 30:
                    raise Unsupported("round with digits")
                if nd == 0 and not as_num(x).is_int_sort:
                    return m_round(x)
                k = as_num(10 ** abs(nd))
                return m_round(as_num(x) * k) / k if nd > 0 else m_round(as_num(x) / k) * k
            lo = floor_of(x)
            fr = as_num(x) - lo
            half = as_num(fractions_half())
            return ite(zb(fr < half), lo, ite(zb(fr > half), lo + 1, ite(zb(as_num(lo) % 2 == 0), lo, lo + 1)))
        return round(x) if nd is None else round(x, nd)

    for real, model in [(len, m_len), (range, m_range), (isinstance, m_isinstance), (sorted, m_sorted), (tuple, m_tuple),
                        (list, m_list), (set, m_set), (frozenset, m_frozenset), (dict, m_dict),
                        (collections.defaultdict, m_defaultdict), (enumerate, m_enumerate), (zip, m_zip),
                        (min, m_minmax(True)), (max, m_minmax(False)), (sum, m_sum), (any, m_any), (all, m_all),
                        (int, m_int), (float, m_float), (str, m_str), (repr, m_repr), (bool, m_bool), (abs, m_abs),
                        (complex, m_complex), (print, m_print), (reversed, m_reversed), (map, m_map),
                        (filter, m_filter), (getattr, m_getattr), (round, m_round),
                        (itertools.product, m_product), (itertools.chain, m_chain)]:
        interp.override(real, model)

    # ------------------------------------------------------------------ math
    def m_ceil(x):
        return ceil_of(x)

    def m_floor(x):
        return floor_of(x)

    def m_sqrt(x):
        if is_sym(x):
            e = as_num(x).real_term()
            if engine().decide(e < 0):
                raise PyExc(ValueError("math domain error"))
            t = SQRT(z3.simplify(e))
            engine().assumptions.add("math.sqrt is the real square root")
            engine().assume(z3.And(t >= 0, t * t == e))
            return SNum(t)
        return math.sqrt(x)

    def m_log(x, *b):
        if is_sym(x):
            if b:
                raise Unsupported("log with base")
            e = z3.simplify(as_num(x).real_term())
            if engine().decide(e <= 0):
                raise PyExc(ValueError("math domain error"))
            engine().assumptions.add(LOG_DEF)
            t = LOG(e)
            engine().assume(z3.And((t < 0) == (e < 1), (t > 0) == (e > 1)))
            return SNum(t)
        return math.log(x, *b)

    def m_exp(x):
        if is_sym(x):
            e = z3.simplify(as_num(x).real_term())
            engine().assumptions.add("math.exp is the exponential function (uninterpreted: positive, exp(ln y) = y where used)")
            t = EXP(e)
            engine().assume(z3.And(t > 0, (t < 1) == (e < 0), (t > 1) == (e > 0)))
            return SNum(t)
        return math.exp(x)

    def m_isinf(x):
        if is_sym(x):
            return False
        return math.isinf(x)

    for real, model in [(math.ceil, m_ceil), (math.floor, m_floor), (math.sqrt, m_sqrt), (math.log, m_log),
                        (math.exp, m_exp), (math.isinf, m_isinf)]:
        interp.override(real, model)
    try:
        import numpy as np
        interp.override(np.isinf, m_isinf)
        interp.override(np.abs, m_abs)
        interp.override(np.absolute, m_abs)
    except ImportError:
        pass


def fractions_half():
    import fractions
    return fractions.Fraction(1, 2)
