"""Symbolic values. Floats are treated as exact reals (a stated assumption)."""
import fractions
import math
import numbers

import z3

from . import core
from .core import Unsupported, engine


class Sym:
    """Base class of all symbolic values."""
    __slots__ = ()


def is_sym(v):
    return isinstance(v, Sym)


def contains_sym(v, depth=4):
    if isinstance(v, Sym):
        return True
    if depth <= 0:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(contains_sym(e, depth - 1) for e in v)
    if isinstance(v, dict):
        return any(contains_sym(k, depth - 1) or contains_sym(e, depth - 1) for k, e in v.items())
    if getattr(type(v), "__module__", "") in REPO_MODULES and hasattr(v, "__dict__"):
        return any(contains_sym(e, depth - 1) for e in vars(v).values())
    return False


REPO_MODULES = set()


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def z3bool(self):
        return self.e

    def __bool__(self):
        return engine().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.e == o.e)
        if isinstance(o, bool):
            return SBool(self.e if o else z3.Not(self.e))
        if isinstance(o, (int, float, SNum)):
            return num_of_bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(z3.And(self.e, zb(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(z3.Or(self.e, zb(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(z3.Xor(self.e, zb(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __lt__(self, o):
        return num_of_bool(self) < (num_of_bool(o) if isinstance(o, (SBool, bool)) else o)

    def __gt__(self, o):
        return num_of_bool(self) > (num_of_bool(o) if isinstance(o, (SBool, bool)) else o)

    def __le__(self, o):
        return num_of_bool(self) <= (num_of_bool(o) if isinstance(o, (SBool, bool)) else o)

    def __ge__(self, o):
        return num_of_bool(self) >= (num_of_bool(o) if isinstance(o, (SBool, bool)) else o)

    def __mul__(self, o):
        return num_of_bool(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return num_of_bool(self) + o
    __radd__ = __add__

    def __repr__(self):
        return f"SBool({self.e})"


def zb(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, SBool):
        return b.e
    if z3.is_expr(b):
        return b
    if type(b).__module__ == "numpy":
        return z3.BoolVal(bool(b))
    raise Unsupported(f"not a boolean: {b!r}")


def lnot(b):
    if hasattr(b, "sym_not"):
        return b.sym_not()
    if isinstance(b, SBool):
        return SBool(z3.Not(b.e))
    return not b


def land(*bs):
    return SBool(z3.And(*[zb(b) for b in bs])) if bs else True


def lor(*bs):
    return SBool(z3.Or(*[zb(b) for b in bs])) if bs else False


def implies(a, b):
    return SBool(z3.Implies(zb(a), zb(b)))


def num_of_bool(b):
    if isinstance(b, bool):
        return int(b)
    return SNum(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)))


class SNum(Sym):
    """value = e / den, with e an Int term and den a positive constant; or a Real term (den 1)."""
    __slots__ = ("e", "den")

    def __init__(self, e, den=1):
        self.e = e
        self.den = den

    @property
    def is_int_sort(self):
        return self.e.sort() == z3.IntSort()

    # -- conversions
    def real_term(self):
        if self.is_int_sort:
            r = z3.ToReal(self.e)
            return r if self.den == 1 else r / z3.RealVal(self.den)
        return self.e

    def __bool__(self):
        return engine().decide(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(int_of(self))

    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    # complex-like interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # -- arithmetic
    def __neg__(self):
        return SNum(-self.e, self.den)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e), self.den)

    def _bin(self, o, f, swap=False):
        o2 = as_num(o)
        if o2 is None:
            return NotImplemented
        a, b = (o2, self) if swap else (self, o2)
        return f(a, b)

    def __add__(self, o):
        if isinstance(o, complex):
            return SComplex(self + o.real, o.imag)
        return self._bin(o, _add)

    def __radd__(self, o):
        if isinstance(o, complex):
            return SComplex(o.real + self, o.imag)
        return self._bin(o, _add, True)

    def __sub__(self, o):
        if isinstance(o, complex):
            return SComplex(self - o.real, -o.imag)
        return self._bin(o, lambda a, b: _add(a, -b))

    def __rsub__(self, o):
        if isinstance(o, complex):
            return SComplex(o.real - self, o.imag)
        return self._bin(o, lambda a, b: _add(a, -b), True)

    def __mul__(self, o):
        if isinstance(o, complex):
            return SComplex(self * o.real if o.real else 0, self * o.imag)
        if isinstance(o, (str, list, tuple)) and not isinstance(o, Sym):
            return repeat_seq(o, self)
        return self._bin(o, _mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, _truediv)

    def __rtruediv__(self, o):
        return self._bin(o, _truediv, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("string formatting of symbolic value")
        return self._bin(o, _mod, True)

    def __pow__(self, o):
        return self._bin(o, _pow)

    def __rpow__(self, o):
        return self._bin(o, _pow, True)

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        o2 = as_num(o)
        if o2 is None:
            if isinstance(o, float) and math.isinf(o):
                lo, hi = (0, 1) if o > 0 else (1, 0)
                return SBool(z3.simplify(f(z3.IntVal(lo), z3.IntVal(hi))))
            return NotImplemented
        x, y = align(self, o2)
        return SBool(f(x, y))

    def __eq__(self, o):
        if isinstance(o, (complex, SComplex)):
            return to_complex(self) == o
        r = self._cmp(o, lambda x, y: x == y)
        if r is NotImplemented and not is_sym(o):
            return False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __repr__(self):
        return f"SNum({self.e}{'' if self.den == 1 else f'/{self.den}'})"


def as_num(o):
    if isinstance(o, SNum):
        return o
    if isinstance(o, SBool):
        return num_of_bool(o)
    if isinstance(o, bool):
        return SNum(z3.IntVal(int(o)))
    if isinstance(o, int):
        return SNum(z3.IntVal(o))
    if isinstance(o, float) or (isinstance(o, numbers.Real) and not isinstance(o, int)):
        f = float(o) if not isinstance(o, fractions.Fraction) else o
        if isinstance(f, float) and (math.isnan(f) or math.isinf(f)):
            return None
        fr = fractions.Fraction(f)
        if fr.denominator <= 64:
            return SNum(z3.IntVal(fr.numerator), fr.denominator)
        # Decimal literals denote the decimal number (floats are idealised as reals).
        if isinstance(o, float):
            fr2 = fractions.Fraction(repr(o))
            return SNum(z3.RealVal(f"{fr2.numerator}/{fr2.denominator}"))
        return SNum(z3.RealVal(f"{fr.numerator}/{fr.denominator}"))
    if isinstance(o, numbers.Integral):
        return SNum(z3.IntVal(int(o)))
    return None


def const_value(x):
    """Concrete Fraction value of a number if it is syntactically constant, else None."""
    if isinstance(x, (int, fractions.Fraction)):
        return fractions.Fraction(x)
    if isinstance(x, float):
        return fractions.Fraction(x)
    if isinstance(x, SNum):
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return fractions.Fraction(e.as_long(), x.den)
        if z3.is_rational_value(e):
            return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long()) / x.den
    return None


def align(a, b):
    """Two z3 terms of the same sort, proportional to a and b by the same positive factor."""
    if a.is_int_sort and b.is_int_sort:
        if a.den == b.den:
            return a.e, b.e
        l = math.lcm(a.den, b.den)
        return a.e * (l // a.den), b.e * (l // b.den)
    return a.real_term(), b.real_term()


def norm(e, den):
    return SNum(z3.simplify(e), den)


def _add(a, b):
    if a.is_int_sort and b.is_int_sort:
        l = math.lcm(a.den, b.den)
        x = a.e if l == a.den else a.e * (l // a.den)
        y = b.e if l == b.den else b.e * (l // b.den)
        return norm(x + y, l)
    return SNum(z3.simplify(a.real_term() + b.real_term()))


def _mul(a, b):
    if a.is_int_sort and b.is_int_sort:
        ca, cb = const_value(a), const_value(b)
        e = z3.simplify(a.e * b.e)
        den = a.den * b.den
        if den != 1 and (ca is not None or cb is not None):
            # Reduce constant factors: (k*x)/(den).
            c, x = (ca, b) if ca is not None else (cb, a)
            num = c.numerator
            d = c.denominator * x.den
            g = math.gcd(num, d)
            return norm(x.e * (num // g), d // g)
        return SNum(e, den)
    return SNum(z3.simplify(a.real_term() * b.real_term()))


def zero_div_check(b):
    c = const_value(b)
    if c is not None:
        if c == 0:
            raise core.PyExc(ZeroDivisionError("division by zero"))
        return
    if engine().decide(b.e == 0):
        raise core.PyExc(ZeroDivisionError("division by zero"))


def _truediv(a, b):
    zero_div_check(b)
    c = const_value(b)
    if c is not None:
        return _mul(a, SNum(z3.IntVal(c.denominator if c > 0 else -c.denominator), abs(c.numerator)))
    return SNum(z3.simplify(a.real_term() / b.real_term()))


def linear_parts(e):
    """(list of (coefficient, term), constant) with e = sum + constant; None when a term is not linear in integers."""
    out, const = {}, 0
    stack = [(1, e)]
    while stack:
        k, t = stack.pop()
        if z3.is_int_value(t):
            const += k * t.as_long()
        elif z3.is_add(t):
            stack += [(k, c) for c in t.children()]
        elif z3.is_sub(t):
            ch = t.children()
            stack.append((k, ch[0]))
            stack += [(-k, c) for c in ch[1:]]
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            stack.append((-k, t.arg(0)))
        elif z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.arg(0)):
            stack.append((k * t.arg(0).as_long(), t.arg(1)))
        elif z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.arg(1)):
            stack.append((k * t.arg(1).as_long(), t.arg(0)))
        else:
            old = out.get(t.get_id())
            out[t.get_id()] = ((old[0] if old else 0) + k, t)
    return [(k, t) for k, t in out.values() if k], const


def _lin_sum(parts, const):
    terms = [t if k == 1 else k * t for k, t in parts]
    if const or not terms:
        terms.append(z3.IntVal(const))
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def lin_div(x, c):
    """x div c for a positive constant c, with the multiples of c taken out."""
    parts, const = linear_parts(x)
    whole = [(k // c, t) for k, t in parts if k % c == 0]
    rest = [(k, t) for k, t in parts if k % c]
    if not rest:
        return _lin_sum(whole, const // c)
    if not whole and 0 <= const < c:
        return x / z3.IntVal(c)
    return _lin_sum(whole, const // c) + _lin_sum(rest, const % c) / z3.IntVal(c)


def lin_mod(x, c):
    """x mod c for a positive constant c, without the multiples of c."""
    parts, const = linear_parts(x)
    rest = [(k, t) for k, t in parts if k % c]
    if not rest:
        return z3.IntVal(const % c)
    return _lin_sum(rest, const % c) % z3.IntVal(c)


def _floordiv(a, b):
    zero_div_check(b)
    if a.is_int_sort and b.is_int_sort:
        x, y = align(a, b)
        c = const_value(SNum(y))
        if c is not None:
            if c < 0:
                return norm(lin_div(-x, int(-c)), 1)
            return norm(lin_div(x, int(c)), 1)
        r = _ranged_divmod(x, y)
        if r is not None:
            return SNum(r[0])
        if engine().implied(y > 0):
            return SNum(x / y)
        return SNum(z3.If(y > 0, x / y, (-x) / (-y)))
    return SNum(z3.ToInt(a.real_term() / b.real_term()))


def _ranged_divmod(x, y):
    """x // y, x % y for -y <= x < 2y, y > 0 without nonlinear arithmetic (None if not provable)."""
    eng = engine()
    if not eng.implied(z3.And(y > 0, x >= -y, x < 2 * y)):
        return None
    if eng.implied(z3.And(x >= 0, x < y)):
        return z3.IntVal(0), x
    q = z3.If(x < 0, z3.IntVal(-1), z3.If(x < y, z3.IntVal(0), z3.IntVal(1)))
    r = z3.If(x < 0, x + y, z3.If(x < y, x, x - y))
    return q, z3.simplify(r)


def _mod(a, b):
    zero_div_check(b)
    if a.is_int_sort and b.is_int_sort:
        l = math.lcm(a.den, b.den)
        x, y = align(a, b)
        c = const_value(SNum(y))
        if c is not None:
            m = int(c)
            if m < 0:
                return norm(-lin_mod(-x, -m), l)
            return norm(lin_mod(x, m), l)
        r = _ranged_divmod(x, y)
        if r is not None:
            return SNum(r[1], l)
        if engine().implied(y > 0):
            return SNum(x % y, l)
        return SNum(z3.If(y > 0, x % y, -((-x) % (-y))), l)
    x, y = a.real_term(), b.real_term()
    return SNum(x - y * z3.ToReal(z3.ToInt(x / y)))


POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())


def _pow(a, b):
    cb = const_value(b)
    ca = const_value(a)
    if ca is not None and cb is not None and cb.denominator == 1:
        v = ca ** int(cb)
        if v.denominator <= 64:
            return SNum(z3.IntVal(v.numerator), v.denominator)
        return SNum(z3.RealVal(str(v)))
    if cb is not None and cb.denominator == 1 and 0 <= cb <= 8:
        r = SNum(z3.IntVal(1))
        for _ in range(int(cb)):
            r = _mul(r, a)
        return r
    x, y = a.real_term(), b.real_term()
    x, y = z3.simplify(x), z3.simplify(y)
    t = POW(x, y)
    eng = engine()
    eng.assumptions.add("x**y is real exponentiation: nonnegative and at most 1 for 0<=x<=1, y>0; "
                        "(x**y)**z == x**(y*z) and x**1 == x for x>=0; 0**y == 0 and 1**y == 1")
    eng.assume(z3.Implies(x >= 0, t >= 0))
    eng.assume(z3.Implies(z3.And(x >= 0, x <= 1, y > 0), t <= 1))
    eng.assume(z3.Implies(z3.And(x == 0, y > 0), t == 0))
    eng.assume(z3.Implies(z3.And(x > 0), t > 0))
    eng.assume(z3.Implies(x == 1, t == 1))
    eng.assume(z3.Implies(y == 1, t == x))
    # y >= 1 shrinks, 0<y<=1 grows, on [0, 1].
    eng.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 1), t <= x))
    eng.assume(z3.Implies(z3.And(x >= 0, x <= 1, y > 0, y <= 1), t >= x))
    eng.ghost.setdefault("pow_terms", []).append((x, y, t))
    return SNum(t)


def pow_law(x, y, z):
    """Instance of the law (x**y)**z == x**(y*z) for x >= 0, with y*z == 1 recognised."""
    x, y, z = as_num(x).real_term(), as_num(y).real_term(), as_num(z).real_term()
    eng = engine()
    inner = POW(x, y)
    eng.assume(z3.Implies(z3.And(x >= 0, y * z == 1), POW(inner, z) == x))
    return inner


def int_of(x):
    """int(x): truncation toward zero."""
    if isinstance(x, SNum):
        if x.is_int_sort:
            if x.den == 1:
                return x
            d = z3.IntVal(x.den)
            if engine().implied(x.e >= 0):
                return norm(x.e / d, 1)
            return norm(z3.If(x.e >= 0, x.e / d, -((-x.e) / d)), 1)
        if engine().implied(x.e >= 0):
            return SNum(z3.ToInt(x.e))
        return SNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    return int(x)


def floor_of(x):
    if isinstance(x, SNum):
        if x.is_int_sort:
            return x if x.den == 1 else norm(x.e / z3.IntVal(x.den), 1)
        return SNum(z3.ToInt(x.e))
    return math.floor(x)


def ceil_of(x):
    if isinstance(x, SNum):
        return -floor_of(-x)
    return math.ceil(x)


def ite(c, a, b):
    c = zb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, zb(a), zb(b)))
    if isinstance(a, (SComplex, complex)) or isinstance(b, (SComplex, complex)):
        a, b = to_complex(a), to_complex(b)
        return SComplex(ite(c, a.real, b.real), ite(c, a.imag, b.imag))
    a2, b2 = as_num(a), as_num(b)
    if a2 is None or b2 is None:
        raise Unsupported(f"ite of {a!r} and {b!r}")
    if a2.is_int_sort and b2.is_int_sort:
        l = math.lcm(a2.den, b2.den)
        return SNum(z3.If(c, a2.e * (l // a2.den), b2.e * (l // b2.den)), l)
    return SNum(z3.If(c, a2.real_term(), b2.real_term()))


def smin(a, b):
    return ite(zb(as_num(b) < as_num(a)), b, a)


def smax(a, b):
    return ite(zb(as_num(b) > as_num(a)), b, a)


def concretize_int(x, limit=64):
    """Splits into one path per feasible value of a (finitely valued) symbolic integer."""
    eng = engine()
    x = as_num(x)
    if x.is_int_sort and x.den != 1:
        raise Unsupported("index is not an integer")
    if not x.is_int_sort:
        raise Unsupported("index is not an integer term")
    c = const_value(x)
    if c is not None:
        return int(c)
    for _ in range(limit):
        i = len(eng.decisions)
        res, model = eng._check(list(eng.path), eng.branch_timeout_ms)
        if res == z3.unsat:
            raise core.PathEnd("infeasible")
        if model is None:
            raise Unsupported("cannot enumerate a symbolic integer")
        # Enumerate in a fixed order so that re-execution is deterministic: the smallest value first.
        v = _smallest(eng, x.e)
        if eng.decide(x.e == v):
            return v
    raise Unsupported("too many values of a symbolic integer")


_small_memo = {}


def _smallest(eng, e):
    key = (tuple(sorted({p.get_id() for p in eng.path})), e.get_id())
    if key in _small_memo:
        return _small_memo[key]
    o = z3.Optimize()
    o.set("timeout", eng.branch_timeout_ms)
    for p in eng.path:
        o.add(p)
    h = o.minimize(e)
    if o.check() != z3.sat:
        raise Unsupported("cannot enumerate a symbolic integer")
    lo = o.lower(h)
    if not z3.is_int_value(lo):
        # Unbounded below: try from above.
        o = z3.Optimize()
        for p in eng.path:
            o.add(p)
        h = o.maximize(e)
        if o.check() != z3.sat or not z3.is_int_value(o.upper(h)):
            raise Unsupported("symbolic integer with infinitely many values used as an index")
        lo = o.upper(h)
    eng._keep.append(list(eng.path))
    eng._keep.append(e)
    _small_memo[key] = lo.as_long()
    return lo.as_long()


class SComplex(Sym):
    __slots__ = ("real", "imag")

    def __init__(self, real, imag):
        self.real = real
        self.imag = imag

    def __add__(self, o):
        o = to_complex(o)
        return NotImplemented if o is None else SComplex(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = to_complex(o)
        return NotImplemented if o is None else SComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        o = to_complex(o)
        return NotImplemented if o is None else SComplex(o.real - self.real, o.imag - self.imag)

    def __neg__(self):
        return SComplex(-self.real, -self.imag)

    def __mul__(self, o):
        if isinstance(o, (int, float, SNum)):
            return SComplex(self.real * o, self.imag * o)
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SComplex(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, SNum)):
            return SComplex(_nd(self.real) / o, _nd(self.imag) / o)
        return NotImplemented

    def conjugate(self):
        return SComplex(self.real, -self.imag)

    def __eq__(self, o):
        o = to_complex(o)
        if o is None:
            return False
        return land(num_eq(self.real, o.real), num_eq(self.imag, o.imag))

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic complex")

    def __repr__(self):
        return f"SComplex({self.real}, {self.imag})"


def _nd(x):
    return x if isinstance(x, SNum) else as_num(x)


def num_eq(a, b):
    r = (as_num(a) == as_num(b))
    return r


def to_complex(o):
    if isinstance(o, SComplex):
        return o
    if isinstance(o, complex):
        return SComplex(o.real, o.imag)
    if isinstance(o, (int, float, SNum)):
        return SComplex(o, 0)
    return None


# ------------------------------------------------------------------ uninterpreted atoms
U = z3.DeclareSort("U")


class SAtom(Sym):
    """An arbitrary immutable value of which only identity (==) is known."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SAtom):
            if o.e.sort() != self.e.sort():
                return False
            return SBool(self.e == o.e)
        if is_sym(o):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic atom")

    def __bool__(self):
        # The value may be 0, "" or another false one.
        s = self.e.sort()
        return bool(SBool(z3.Function(f"is_true_{s.name()}", s, z3.BoolSort())(self.e)))

    def __repr__(self):
        return f"SAtom({self.e})"


class SUnion(Sym):
    """A set/string value outside of the named literals: equal to no literal."""


class OtherStr(Sym):
    """A string that differs from every string literal of the program."""
    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __str__(self):
        return "<some other string>"

    def endswith(self, *_):
        raise Unsupported("method of an unknown string")


class Element(Sym):
    """An element of a sequence of which nothing else is known or used."""
    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of an unknown element")

    __ne__ = __eq__

    def __hash__(self):
        return id(self)


def value_eq(a, b):
    """Equality of two values as an SBool/bool without forking."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
            return False
        cs = [value_eq(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return land(*cs) if cs else True
    if is_sym(a) or is_sym(b):
        if isinstance(a, complex) or isinstance(b, complex) or isinstance(a, SComplex) or isinstance(b, SComplex):
            ca, cb = to_complex(a), to_complex(b)
            if ca is None or cb is None:
                return False
            return ca == cb
        if a is b:
            return True
        r = a.__eq__(b) if is_sym(a) else b.__eq__(a)
        if r is NotImplemented:
            r = b.__eq__(a) if is_sym(b) else NotImplemented
        if r is NotImplemented:
            return False
        return r
    tm = type(a).__module__
    if tm in REPO_MODULES and type(a) is type(b) and hasattr(a, "_key"):
        from .interp import INTERP
        return value_eq(INTERP.call(INTERP.getattr(a, "_key"), (), {}), INTERP.call(INTERP.getattr(b, "_key"), (), {}))
    if tm in REPO_MODULES and type(a) is type(b) and hasattr(a, "__dict__"):
        ka, kb = vars(a), vars(b)
        if set(ka) != set(kb):
            return False
        return value_eq(tuple(ka[k] for k in sorted(ka)), tuple(kb[k] for k in sorted(ka)))
    return a == b


# ------------------------------------------------------------------ symbolic collections
class SSeq(Sym):
    """A sequence of symbolic length n whose i-th element is at(i)."""
    def __init__(self, n, at, kind=tuple):
        self.n = n
        self.at = at
        self.kind = kind

    def length(self):
        return self.n

    def __bool__(self):
        return bool(as_num(self.n) > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        n = as_num(self.n)
        if not is_sym(i) and isinstance(i, int):
            j = i if i >= 0 else n + i
        else:
            j = ite(zb(as_num(i) < 0), as_num(i) + n, i)
        ok = land(as_num(j) >= 0, as_num(j) < n)
        if not ok:
            raise core.PyExc(IndexError("index out of range"))
        return self.at(j)

    def slice(self, s):
        if s.step is not None and s.step != 1:
            if s.start is None and s.stop is None or True:
                start = 0 if s.start is None else s.start
                if s.stop is not None or not isinstance(start, int) or start < 0 or not isinstance(s.step, int) or s.step <= 0:
                    raise Unsupported("slice of a symbolic sequence")
                n = as_num(self.n)
                cnt = (n - start + (s.step - 1)) // s.step
                cnt = smax(cnt, 0)
                return SSeq(cnt, lambda i: self.at(start + s.step * as_num(i)), self.kind)
        n = as_num(self.n)

        def clamp(v, default):
            if v is None:
                return default
            v = as_num(v)
            v = ite(zb(v < 0), v + n, v)
            return smin(smax(v, 0), n)
        a, b = clamp(s.start, SNum(z3.IntVal(0))), clamp(s.stop, n)
        return SSeq(smax(as_num(b) - a, 0), lambda i: self.at(as_num(i) + a), self.kind)

    def __mul__(self, k):
        if getattr(self, "repeated", None) is None:
            raise Unsupported("repetition of a symbolic sequence")
        return repeat_seq(self.repeated[0], as_num(self.repeated[1]) * smax(k, 0))

    __rmul__ = __mul__

    def pick(self):
        eng = engine()
        i = SNum(eng.fresh("i", z3.IntSort()))
        eng.assume(land(i >= 0, i < as_num(self.n)))
        return self.at(i)

    def __hash__(self):
        return id(self)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")


def repeat_seq(s, k):
    base = s
    m = len(base)
    if m == 0:
        return base

    def at(i):
        c = const_value(i)
        if c is not None:
            return base[int(c) % m]
        return base[concretize_int(as_num(i) % m)]
    r = SSeq(smax(k, 0) * m, at, type(s))
    r.repeated = (s, k)
    return r


class Fam(Sym):
    """A finite collection of symbolic size given by an element generator.

    pick() runs the generator once under the engine: it introduces the bound variables of one
    arbitrary element, assumes their guards (forking where the code branches) and returns the
    element. `order` is the sorting key closure when the collection was sorted, `distinct` says
    that duplicates were removed (sets) or never arise (not known: False).
    """
    def __init__(self, pick, kind=list, order=None, distinct=False):
        self._pick = pick
        self.kind = kind
        self.order = order
        self.distinct = distinct
        self._alts = {}

    def pick(self):
        return self._pick()

    def alternatives(self):
        return engine().sub_explore(self._pick)

    def member(self, z, eq=value_eq):
        """z3 formula: z is an element (existentially quantified over the bound variables)."""
        ds = []
        eng = engine()
        for conds, consts, val in self.alternatives():
            e = eq(val, z)
            facts = [c for c in conds if c.get_id() in eng._facts]
            if facts and consts:
                conds = [c for c in conds if c.get_id() not in eng._facts]
                eng.assume(z3.ForAll(consts, z3.Implies(z3.And(*conds), z3.And(*facts))))
            body = z3.And(*conds, zb(e)) if conds else zb(e)
            ds.append(z3.Exists(consts, body) if consts else body)
        return z3.Or(*ds) if ds else z3.BoolVal(False)

    def __bool__(self):
        eng = engine()
        if self._empty:
            return False
        ds = []
        for conds, consts, val in self.alternatives():
            body = z3.And(*conds) if conds else z3.BoolVal(True)
            ds.append(z3.Exists(consts, body) if consts else body)
        return bool(SBool(z3.Or(*ds))) if ds else False

    _empty = False

    def clear(self):
        """Only for collections made on the current path."""
        def none():
            raise core.PathEnd("empty")
        self._pick, self._empty = none, True

    def sort(self, *, key=None, reverse=False):
        if self.kind is not list:
            raise Unsupported("sort of something other than a list")
        old = Fam(self._pick, list, self.order, self.distinct)
        old._empty = self._empty
        self.order, self.sorted_from = (key, reverse), old

    def __hash__(self):
        return id(self)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic collection")

    def __add__(self, o):
        return concat_fams(self, o)

    def __radd__(self, o):
        return concat_fams(o, self)

    def __or__(self, o):
        return fam_union(self, o)

    def __and__(self, o):
        return fam_intersect(self, o)

    def __sub__(self, o):
        def pick():
            x = self.pick()
            engine().assume(z3.Not(o.member(x)) if isinstance(o, Fam) else lnot(lor(*[value_eq(x, y) for y in o]) if len(list(o)) else False))
            return x
        return Fam(pick, kind=set, distinct=True)


def fam_of_list(xs):
    xs = list(xs)

    def pick():
        if not xs:
            raise core.PathEnd("empty")
        return xs[engine().choose(len(xs))]
    return Fam(pick)


def concat_fams(a, b):
    fa = a if isinstance(a, (Fam, SSeq)) else fam_of_list(a)
    fb = b if isinstance(b, (Fam, SSeq)) else fam_of_list(b)
    r = Fam(lambda: (fa, fb)[engine().choose(2)].pick(), kind=getattr(fa, "kind", list))
    r.parts = (getattr(fa, "parts", (fa,))) + (getattr(fb, "parts", (fb,)))
    return r


def fam_union(a, b):
    r = concat_fams(a, b)
    r.kind = set
    return r


def fam_intersect(a, b):
    def pick():
        x = a.pick()
        engine().assume(SBool(b.member(x)) if isinstance(b, Fam) else lor(*[value_eq(x, y) for y in b]))
        return x
    return Fam(pick, kind=set, distinct=True)


class SRange(SSeq):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if not isinstance(step, int) or step == 0:
            raise Unsupported("symbolic range step")
        a, b = as_num(start), as_num(stop)
        if step > 0:
            n = b - a if step == 1 else (b - a + (step - 1)) // step
        else:
            n = a - b if step == -1 else (a - b + (-step - 1)) // (-step)
        super().__init__(smax(n, 0), lambda i: a + as_num(i) * step, range)
