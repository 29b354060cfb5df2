"""C18: likelihood bounds are the relative-likelihood interval around the maximum-likelihood rate."""
import math

from contracts.common import NotApplicable, require

BUDGET = {"quick": 120, "thorough": 900}
CHUNK = 10
CASE_LIMIT = 60
HANG_IS_VIOLATION = True
BOUND = "n up to 10^9 shots, all (n, errors) for n <= 12, ratios 1e-1..1e-9; log_binomial and log_factorial against lgamma"
EXPLANATION = ("log_factorial/log_binomial equal their closed forms for all n, hits, p (element-wise over any array); the bounds are "
               "computed from the contracts of log_binomial and of the integer search (C19) at both call sites, with the "
               "search's preconditions checked there")
ASSUMPTIONS = ["lemma (not machine-checked): the binomial log-likelihood is ascending in p below hits/n and descending above it",
               "lemma (not machine-checked): |Stirling(n) - ln n!| <= 1/(12 n) for n >= 20"]


class NegInf:
    def __add__(self, o):
        return self
    __radd__ = __add__

    def __repr__(self):
        return "-inf"


def prove(P):
    import z3
    import numpy as np
    import probability_util as pu
    import collect_data as cd
    from pyvc import models, values
    from pyvc.core import PyExc, Unsupported, engine
    from pyvc.models import LOG
    from pyvc.values import SBool, SNum, Sym, as_num, ite, land, lor, is_sym, zb, SRange, SSeq, value_eq
    from pyvc.prover import mval
    eng = P.eng
    NEG = NegInf()

    class Elem(Sym):
        """An array of arbitrary shape, represented by one arbitrary element of it."""
        def __init__(self, v):
            self.v = v
            self.shape = ("shape",)
            self.dtype = np.float64

        def _c(self, o, f):
            if not isinstance(self.v, NegInf):
                return f(as_num(self.v), as_num(o))
            raise Unsupported("comparison with -inf")

        def __eq__(self, o):
            return self._c(o, lambda a, b: a == b)

        def __ne__(self, o):
            return self._c(o, lambda a, b: a != b)

        def __lt__(self, o):
            return self._c(o, lambda a, b: a < b)

        def __gt__(self, o):
            return self._c(o, lambda a, b: a > b)

        def __le__(self, o):
            return self._c(o, lambda a, b: a <= b)

        def __ge__(self, o):
            return self._c(o, lambda a, b: a >= b)

        def __hash__(self):
            return id(self)

        def __getitem__(self, mask):
            return Masked(self.v, bool(mask))

        def __setitem__(self, mask, val):
            if bool(mask):
                v = val.v if isinstance(val, (Elem, Masked)) else val
                self.v = NEG if isinstance(v, float) and v == -math.inf else v

        def __add__(self, o):
            o = o.v if isinstance(o, Elem) else o
            return Elem(NEG if isinstance(self.v, NegInf) else as_num(self.v) + o)
        __radd__ = __add__

        def __iadd__(self, o):
            self.v = (self + o).v
            return self

        def __neg__(self):
            return Elem(-as_num(self.v))

        def __rsub__(self, o):
            return Elem(o - as_num(self.v))

        def __sub__(self, o):
            return Elem(as_num(self.v) - (o.v if isinstance(o, Elem) else o))

        def __mul__(self, o):
            o = o.v if isinstance(o, Elem) else o
            return Elem(as_num(self.v) * o)
        __rmul__ = __mul__

    class Masked(Elem):
        """arr[mask]: present only where the mask holds."""
        def __init__(self, v, on):
            super().__init__(v)
            self.on = on

        def __add__(self, o):
            if not self.on:
                return self
            o = o.v if isinstance(o, Elem) else o
            return Masked(NEG if isinstance(self.v, NegInf) else as_num(self.v) + o, self.on)

        def __iadd__(self, o):
            return self + o

        def __neg__(self):
            return Masked(-as_num(self.v), self.on)

        def __mul__(self, o):
            return Masked(as_num(self.v) * o, self.on) if self.on else self
        __rmul__ = __mul__

    def ln(x):
        e = z3.simplify(as_num(x).real_term())
        eng.assumptions.add(models.LOG_DEF)
        return SNum(LOG(e))

    def lift(f):
        def g(x):
            if isinstance(x, Masked):
                return Masked(f(x.v), True) if x.on else x
            if isinstance(x, Elem):
                return Elem(f(x.v))
            if is_sym(x):
                return f(x)
            return f(x)
        return g

    def np_log(v):
        if bool(as_num(v) <= 0):
            eng.prove("np.log is only applied to positive numbers", False)
        return ln(v)

    def np_log1p(v):
        if bool(as_num(v) <= -1):
            eng.prove("np.log1p is only applied above -1", False)
        return ln(1 + as_num(v))

    def np_clip(p, lo, hi):
        v = as_num(p.v if isinstance(p, Elem) else p)
        return Elem(ite(zb(v < lo), as_num(lo), ite(zb(v > hi), as_num(hi), v)))

    def np_zeros(shape=None, dtype=None):
        eng.prove("log likelihoods are accumulated in double precision", dtype in (np.float64, float, None, "float64"))
        return Elem(as_num(0.0))
    P.interp.override(np.clip, np_clip)
    P.interp.override(np.log, lift(np_log))
    P.interp.override(np.log1p, lift(np_log1p))
    P.interp.override(np.zeros, np_zeros)
    P.interp.override(np.zeros_like, lambda x, dtype=None: np_zeros(dtype=dtype))
    P.interp.override(np.asarray, lambda x, dtype=None: x)
    P.interp.override(np.array, lambda x, dtype=None: x)

    # ---- log_factorial
    LF = z3.Function("LF", z3.IntSort(), z3.RealSort())

    def lf():
        n = P.int("n", 0)
        r = as_num(P.call(pu.log_factorial, n))
        w = lambda m: {"kind": "lf", "n": mval(m, n)}
        if bool(n < 20):
            k = int(values.concretize_int(n))
            want = as_num(0)
            for i in range(1, k + 1):
                want = want + as_num(math.log(i))
                # Constants: the logarithm of a literal is its double (to 1e-12).
                eng.assume(abs(ln(i) - as_num(math.log(i))) <= as_num(1e-12))
            P.prove(f"ln {k}! is the sum of the logarithms", abs(r - want) <= as_num(1e-9), witness=w)
        else:
            want = (n + as_num(0.5)) * ln(n) - n + as_num(math.log(2 * math.pi) / 2)
            P.prove("Stirling's formula from 20 on", abs(r - want) <= as_num(1e-9), witness=w)
    P.group("log_factorial", lf)

    # ---- log_binomial against LF
    lfc = lambda n: SNum(LF(as_num(n).e))
    eng.callee_contracts["probability_util.log_factorial"] = lfc

    def spec(p, n, hits):
        """The value of ln P[B(n,p)=hits] for clipped p (forks on the corner cases)."""
        misses = as_num(n) - hits
        const = lfc(n) - lfc(misses) - lfc(hits)
        if bool(p == 0):
            return NEG if bool(as_num(hits) != 0) else const
        if bool(p == 1):
            return NEG if bool(misses != 0) else const
        return ln(p) * hits + ln(1 - p) * misses + const

    def lb():
        n, h, p = P.int("n", 0), P.int("hits", 0), P.real("p")
        eng.assume(h <= n)
        r = P.call(pu.log_binomial, p=Elem(p), n=n, hits=h)
        if not isinstance(r, Elem):
            raise Unsupported("log_binomial does not return an array")
        pc = np_clip(p, 0, 1).v
        eng.assume(SNum(LOG(z3.RealVal(1))) == 0)
        want = spec(pc, n, h)
        w = lambda m: {"kind": "lb", "n": mval(m, n), "hits": mval(m, h), "p": mval(m, p)}
        if isinstance(want, NegInf) or isinstance(r.v, NegInf):
            P.prove("minus infinity exactly for impossible outcomes", isinstance(want, NegInf) and isinstance(r.v, NegInf), witness=w)
        else:
            P.prove("ln C(n,h) + h ln p + (n-h) ln(1-p)", as_num(r.v) == want, witness=w)
    P.group("log_binomial", lb)

    # ---- likely_error_rate_bounds, from the contracts of log_binomial and binary_search
    LB = z3.Function("LB", z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())

    def lb_contract(*, p, n, hits):
        nn = as_num(n)
        eng.prove("callee precondition: 0 <= hits <= shots", land(as_num(hits) >= 0, as_num(hits) <= nn))
        return SNum(LB(z3.simplify(as_num(p).real_term()), as_num(n).e, as_num(hits).e))
    searches = []

    def bs_contract(*, func, min_x, max_x, target):
        a, b = as_num(min_x), as_num(max_x)
        eng.prove("callee precondition: the search range is not empty", a <= b)
        r = SNum(eng.fresh("found", z3.IntSort()))
        x = SNum(eng.fresh("x", z3.IntSort()))
        eng.assume(land(r >= a, r <= b))
        # Monotonicity precondition and optimality postcondition of the search, at an arbitrary point x.
        from pyvc.interp import INTERP
        fr = as_num(INTERP.call(func, (r,), {}))
        searches.append((func, a, b, as_num(target), r, fr))
        return r
    eng.callee_contracts["probability_util.log_binomial"] = lb_contract
    eng.callee_contracts["probability_util.binary_search"] = bs_contract

    def bounds():
        searches.clear()
        n, corr, ratio = P.int("shots", 1), P.int("correct", 0), P.real("ratio")
        eng.assume(land(corr <= n, ratio > 0, ratio <= 1))
        err = n - corr
        sd = P.interp.construct(cd.ShotData, (), dict(num_shots=n, num_correct=corr, total_processing_seconds=0))
        lo, hi = P.call(P.interp.getattr(sd, "likely_error_rate_bounds"), desired_ratio_vs_max_likelihood=ratio)
        lo, hi = as_num(lo), as_num(hi)
        w = lambda m: {"kind": "bounds", "n": max(1, mval(m, n)), "errors": mval(m, err), "ratio": mval(m, ratio)}
        nr = n.real_term()
        mle = SNum(err.real_term() / nr)
        P.prove("0 <= low <= maximum likelihood estimate", land(lo >= 0, lo <= mle), witness=w)
        P.prove("maximum likelihood estimate <= high <= 1", land(hi >= mle, hi <= 1), witness=w)
        if len(searches) != 2:
            raise Unsupported("the bounds are not found by two searches")
        target = SNum(LB(z3.simplify(mle.e), n.e, err.e)) + ln(ratio)
        from pyvc.interp import INTERP
        for (func, a, b, t, r, fr), side, got in ((searches[0], "low", lo), (searches[1], "high", hi)):
            x = SNum(eng.fresh("x", z3.IntSort()))
            eng.assume(land(x >= a, x <= b))
            fx = as_num(INTERP.call(func, (x,), {}))
            # The function searched is +-LB at the grid point x/(100 n), the target +-(max + ln ratio).
            sgn = 1 if side == "low" else -1
            grid = z3.simplify(x.real_term() / (100 * nr))
            P.prove(f"{side}: the searched function is the log likelihood on the 1/(100 shots) grid",
                    SBool(z3.And(grid * 100 * nr == x.real_term(), (fx * sgn).real_term() == LB(grid, n.e, err.e))), witness=w)
            P.prove(f"{side}: the target is the maximum log likelihood plus ln(ratio)", t * sgn == target, witness=w)
            P.prove(f"{side}: the returned rate is the grid point found", got * n * 100 == r, witness=w)
        P.prove("low: the search covers every rate up to the estimate", land(searches[0][1] == 0, searches[0][2] == 100 * err), witness=w)
        P.prove("high: the search covers every rate from the estimate", land(searches[1][1] == 100 * err, searches[1][2] == 100 * n), witness=w)
    P.group("likely_error_rate_bounds", bounds)
    eng.callee_contracts.clear()

    def rate():
        n, corr = P.int("shots", 0), P.int("correct", 0)
        eng.assume(corr <= n)
        sd = P.interp.construct(cd.ShotData, (), dict(num_shots=n, num_correct=corr, total_processing_seconds=0))
        r = as_num(P.interp.getattr(sd, "logical_error_rate"))
        w = lambda m: {"kind": "rate", "n": mval(m, n), "c": mval(m, corr)}
        P.prove("errors per shot; 1 when there are no shots", ite(zb(n == 0), r == 1, r * n == n - corr), witness=w)
        P.prove("num_errors counts the incorrect shots", as_num(P.interp.getattr(sd, "num_errors")) == n - corr, witness=w)
    P.group("logical_error_rate", rate)
    for n in (0, 1, 5, 19, 20, 25, 1000):
        P.xcheck(pu.log_factorial, n, same=lambda a, b: abs(a - float(b)) < 1e-9)


# ------------------------------------------------------------------ bounded stand-in
def cases(tier, rng):
    for n in list(range(0, 60)) + [100, 170, 171, 1000, 10 ** 5, 10 ** 8, 10 ** 12]:
        yield {"kind": "lf", "n": n}
    for n in range(0, 25):
        for h in range(0, n + 1):
            for p in (0, 1, 0.5, 0.01, 0.99, 1e-9, -0.25, 1.5):
                yield {"kind": "lb", "n": n, "hits": h, "p": p}
    for n in (100, 1000, 10 ** 6, 10 ** 8, 10 ** 9):
        for h in {0, 1, 2, n // 1000, n // 10, n // 2, n - 1, n}:
            yield {"kind": "lbarr", "n": n, "hits": h}
    for n in range(1, 13):
        for e in range(0, n + 1):
            for r in (0.5, 1e-1, 1e-3, 1e-9):
                yield {"kind": "bounds", "n": n, "errors": e, "ratio": r}
    for n in (15, 20, 21, 37, 100, 333, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8):
        for e in sorted({0, 1, 2, 3, 10, n // 7, n // 3, n // 2, n - n // 3, n - 2, n - 1, n}):
            if 0 <= e <= n:
                for r in (1e-1, 1e-3, 1e-6, 1e-25, 1e-80):
                    yield {"kind": "bounds", "n": n, "errors": e, "ratio": r}
    for _ in range(300 if tier == "quick" else 5000):
        n = int(10 ** rng.uniform(0, 9))
        e = min(n, int(n * rng.choice([rng.random(), 10 ** rng.uniform(-9, 0), 0, 1])))
        yield {"kind": "bounds", "n": n, "errors": e, "ratio": 10 ** (-rng.uniform(0.05, 9) * rng.choice([1, 1, 1, 10, 30]))}
    for n in (0, 1, 2, 7, 1000):
        for c in sorted({0, 1, n // 2, n}):
            if c <= n:
                yield {"kind": "rate", "n": n, "c": c}


def exact_ll(p, n, h):
    if p <= 0:
        return 0.0 if h == 0 else -math.inf
    if p >= 1:
        return 0.0 if h == n else -math.inf
    return math.lgamma(n + 1) - math.lgamma(h + 1) - math.lgamma(n - h + 1) + h * math.log(p) + (n - h) * math.log1p(-p)


def stirling_slack(n, h):
    return sum(1 / (12 * k) for k in (n, h, n - h) if k >= 20)


def run_case(c):
    import numpy as np
    import probability_util as pu
    import collect_data as cd
    k = c["kind"]
    if k == "lf":
        n = c["n"]
        got = float(pu.log_factorial(n))
        want = math.lgamma(n + 1)
        tol = 1e-9 * (1 + want) if n < 20 else 1.01 / (12 * n) + 1e-11 * want
        require(abs(got - want) <= tol, f"ln {n}! = {want}, got {got}")
        return
    if k == "lb":
        n, h = c["n"], c["hits"]
        p = min(1, max(0, c["p"]))
        got = float(pu.log_binomial(p=c["p"], n=n, hits=h))
        want = exact_ll(p, n, h)
        ok = got == want if math.isinf(want) else abs(got - want) <= 1e-9 * (1 + abs(want)) + 1.01 * stirling_slack(n, h)
        require(ok, f"ln P(B({n},{c['p']}) = {h}) = {want}, got {got}")
        return
    if k == "lbarr":
        n, h = c["n"], c["hits"]
        ps = [0, 1, 0.5, 0.25, 1e-3, 1e-6, 0.999, min(1, (h + 1) / n), h / n]
        got = pu.log_binomial(p=np.array(ps, dtype=np.float64), n=n, hits=h)
        require(got.shape == (len(ps),), "shape changed")
        for p, g in zip(ps, got):
            want = exact_ll(p, n, h)
            # Terms of this size are summed in doubles.
            mag = abs(h * math.log(p)) + abs((n - h) * math.log1p(-p)) + n * math.log(n + 1) if 0 < p < 1 else 0
            ok = g == want if math.isinf(want) else abs(g - want) <= 1e-13 * mag + 1e-9 * (1 + abs(want)) + 1.01 * stirling_slack(n, h)
            require(ok, f"ln P(B({n},{p}) = {h}) = {want}, got {g}")
        return
    if k == "rate":
        sd = cd.ShotData(num_shots=c["n"], num_correct=c["c"])
        want = 1 if c["n"] == 0 else (c["n"] - c["c"]) / c["n"]
        require(abs(sd.logical_error_rate - want) <= 1e-12 and sd.num_errors == c["n"] - c["c"],
                f"{c['n']} shots, {c['c']} correct: rate {sd.logical_error_rate}, errors {sd.num_errors}")
        return
    n, e, ratio = c["n"], c["errors"], c["ratio"]
    sd = cd.ShotData(num_shots=n, num_correct=n - e)
    lo, hi = sd.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=ratio)
    mle = e / n
    eps = 1e-12
    require(-eps <= lo <= mle + eps and mle - eps <= hi <= 1 + eps, f"{e}/{n}: bounds ({lo}, {hi}) do not surround {mle}")
    # Exact end points: |difference of log likelihoods| crosses -ln(ratio); found by bisection.
    rel = lambda p: (e * (math.log(p / mle) if p > 0 else -math.inf) if e else 0.0) + \
        ((n - e) * (math.log1p((mle - p) / (1 - mle)) if p < 1 and (mle - p) / (1 - mle) > -1 else -math.inf) if n - e else 0.0)
    t = math.log(ratio)

    def solve(a, b):
        """rel crosses t between a (inside) and b (outside); b returned if never outside."""
        if rel(b) >= t:
            return b
        for _ in range(200):
            m = (a + b) / 2
            if rel(m) >= t:
                a = m
            else:
                b = m
        return a
    want_lo, want_hi = solve(mle, 0.0), solve(mle, 1.0)
    grid = 1.02 / (100 * n)
    # Accuracy of the log likelihoods themselves (sums of terms of size n ln n in doubles).
    noise = 4e-15 * (n * math.log(n + 2) + 1)
    for got, want, nm in ((lo, want_lo, "low"), (hi, want_hi, "high")):
        d = abs(got - want)
        slope = abs(e / max(want, 1e-300) - (n - e) / max(1 - want, 1e-300))
        tol = grid + (noise / slope if slope > 0 else 0) * 4 + 1e-12
        require(d <= tol, f"{e} errors in {n} shots, ratio {ratio}: {nm} bound {got}, but the likelihood ratio is reached at {want}")
