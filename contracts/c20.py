"""C20: least-squares fits, and the ranges obtained by letting the cost grow."""
import math

from contracts.common import NotApplicable, require

BUDGET = {"quick": 120, "thorough": 900}
CHUNK = 10
CASE_LIMIT = 60
HANG_IS_VIOLATION = True
BOUND = "random data sets of 2..12 points with various scales, compared with the closed-form least-squares solution"
EXPLANATION = ("arrays of arbitrary length are represented by polynomials in one generic point and np.sum by moment symbols (exact); "
               "cost formula, interpolation/slope constraint, optimality from the assumed contract of scipy's minimiser, and the "
               "range functions from the proved contract of the intercept search")
ASSUMPTIONS = ["scipy.optimize.leastsq returns the minimiser of func(x)**2 (assumed contract; numeric accuracy checked on bounded cases)",
               "scipy.stats.linregress returns the ordinary least-squares line (assumed contract)"]


def prove(P):
    import z3
    import numpy as np
    import probability_util as pu
    from pyvc.core import Unsupported, PyExc
    from pyvc.values import SBool, SNum, Sym, as_num, land, zb
    eng = P.eng
    MOM = {}

    def moment(a, b):
        return MOM.setdefault((a, b), SNum(z3.Real(f"sum_x{a}y{b}")))

    class Poly(Sym):
        """An array indexed by the data points, as a polynomial in the point's (x, y)."""
        def __init__(self, c):
            self.c = {k: v for k, v in c.items()}
            self.shape = (SNum(z3.Int("npoints")),)
            self.ndim = 1

        def sym_len(self):
            return self.shape[0]

        def __hash__(self):
            return id(self)

        @staticmethod
        def of(o):
            return o if isinstance(o, Poly) else Poly({(0, 0): as_num(o)})

        def __add__(self, o):
            o = Poly.of(o)
            r = dict(self.c)
            for k, v in o.c.items():
                r[k] = r[k] + v if k in r else v
            return Poly(r)
        __radd__ = __add__

        def __neg__(self):
            return Poly({k: -v for k, v in self.c.items()})

        def __sub__(self, o):
            return self + (-Poly.of(o))

        def __rsub__(self, o):
            return Poly.of(o) + (-self)

        def __mul__(self, o):
            o = Poly.of(o)
            r = {}
            for (a, b), v in self.c.items():
                for (a2, b2), v2 in o.c.items():
                    k = (a + a2, b + b2)
                    r[k] = r[k] + v * v2 if k in r else v * v2
            return Poly(r)
        __rmul__ = __mul__

        def __truediv__(self, o):
            return Poly({k: v / o for k, v in self.c.items()})

        def __pow__(self, k):
            if k != 2:
                raise Unsupported("power")
            return self * self

        def __eq__(self, o):
            return self is o

        def sum(self, *a, **k):
            return np_sum(self)

        def dot(self, o):
            return np_sum(self * o)

    def np_sum(p, *a, **k):
        if not isinstance(p, Poly):
            raise Unsupported("np.sum")
        t = as_num(0)
        for k2, v in p.c.items():
            t = t + v * moment(*k2)
        return t
    P.interp.override(np.sum, np_sum)
    P.interp.override(np.dot, lambda a, b: np_sum(a * b))
    P.interp.override(np.square, lambda a: a * a)
    P.interp.override(np.array, lambda x, dtype=None: x)
    P.interp.override(np.asarray, lambda x, dtype=None: x)
    X, Y = Poly({(1, 0): as_num(1)}), Poly({(0, 1): as_num(1)})

    def cost_spec(i, s):
        i, s = as_num(i), as_num(s)
        M = moment
        return (i * i * M(0, 0) + s * s * M(2, 0) + M(0, 2) + 2 * i * s * M(1, 0) - 2 * i * M(0, 1) - 2 * s * M(1, 1))

    def cost():
        i, s = P.real("intercept"), P.real("slope")
        r = as_num(P.call(pu.least_squares_cost, xs=X, ys=Y, intercept=i, slope=s))
        P.prove("the cost is the sum of squared residuals", r == cost_spec(i, s))
    P.group("least_squares_cost", cost)

    captured = []

    def leastsq_contract(func, x0, *a, **k):
        best = SNum(eng.fresh("best", z3.RealSort()))
        captured.append((func, best))
        return (best,), 1
    P.interp.override(pu.leastsq, leastsq_contract)

    class Fit:
        pass

    def fit_result(*a, **k):
        f = Fit()
        names = ["slope", "intercept", "rvalue", "pvalue", "stderr"]
        for n, v in list(zip(names, a)) + list(k.items()):
            setattr(f, n, v)
        return f
    P.interp.override(pu.LinregressResult, fit_result)

    def optimal(other):
        """Assumed contract of leastsq at an arbitrary other parameter."""
        if len(captured) != 1:
            raise Unsupported("the fit does not come from one minimisation")
        func, best = captured[0]
        fb, fo = as_num(P.interp.call(func, (best,), {})), as_num(P.interp.call(func, (other,), {}))
        eng.assume(fb * fb <= fo * fo)
        eng.assume(land(fb >= 0, fo >= 0))     # sums of squares
        return fb, fo

    def through():
        captured.clear()
        rx, ry, s2 = P.real("required_x"), P.real("required_y"), P.real("other_slope")
        f = P.call(pu.least_squares_through_point, xs=X, ys=Y, required_x=rx, required_y=ry)
        sl, ic = as_num(f.slope), as_num(f.intercept)
        P.prove("the fitted line passes through the required point", ic + sl * rx == ry)
        fb, fo = optimal(s2)
        i2 = ry - rx * s2
        P.prove("the minimised function is the cost of the line through the point (best)", fb == cost_spec(ic, sl))
        P.prove("the minimised function is the cost of the line through the point (other)", fo == cost_spec(i2, s2))
    P.group("least_squares_through_point", through)

    def withslope():
        captured.clear()
        rs, i2 = P.real("required_slope"), P.real("other_intercept")
        f = P.call(pu.least_squares_with_slope, xs=X, ys=Y, required_slope=rs)
        P.prove("the fitted line has the required slope", as_num(f.slope) == rs)
        fb, fo = optimal(i2)
        P.prove("the minimised function is the cost of the line (best)", fb == cost_spec(f.intercept, rs))
        P.prove("the minimised function is the cost of the line (other)", fo == cost_spec(i2, rs))
    P.group("least_squares_with_slope", withslope)

    # ---- ranges, from contracts
    ols = Fit()
    ols.slope, ols.intercept = SNum(z3.Real("ols_slope")), SNum(z3.Real("ols_intercept"))
    regress_args = []

    def linregress_contract(xs, ys):
        regress_args.append((xs, ys))
        return ols
    P.interp.override(pu.linregress, linregress_contract)
    TP = z3.Function("through_point_slope", z3.RealSort(), z3.RealSort(), z3.RealSort())
    WS = z3.Function("with_slope_intercept", z3.RealSort(), z3.RealSort())

    def tp_contract(*, xs, ys, required_x, required_y):
        if xs is not X or ys is not Y:
            raise Unsupported("fit of other data")
        rx, ry = as_num(required_x), as_num(required_y)
        s = SNum(TP(rx.real_term(), ry.real_term()))
        return fit_result(s, ry - rx * s)

    def ws_contract(*, xs, ys, required_slope):
        if xs is not X or ys is not Y:
            raise Unsupported("fit of other data")
        rs = as_num(required_slope)
        return fit_result(rs, SNum(WS(rs.real_term())))
    found = []

    def bi_contract(*, func, start_x, step, target_y, atol):
        r = SNum(eng.fresh("found", z3.RealSort()))
        st, sx = as_num(step), as_num(start_x)
        eng.prove("callee precondition: the step is not zero and the tolerance not negative", land(st != 0, as_num(atol) >= 0))
        fr = as_num(P.interp.call(func, (r,), {}))
        eng.assume(abs(fr - target_y) <= atol)
        eng.assume(SBool(z3.And(z3.Implies(zb(st > 0), zb(r >= sx)), z3.Implies(zb(st < 0), zb(r <= sx)))))
        found.append((r, as_num(target_y), as_num(atol)))
        return r
    eng.callee_contracts.update({"probability_util.least_squares_through_point": tp_contract,
                                 "probability_util.least_squares_with_slope": ws_contract,
                                 "probability_util.binary_intercept": bi_contract})
    base = cost_spec(ols.intercept, ols.slope)

    def out_range():
        found.clear(), regress_args.clear()
        tx, inc = P.real("target_x"), P.real("cost_increase", 0)
        lo, hi = P.call(pu.least_squares_output_range, xs=X, ys=Y, target_x=tx, cost_increase=inc)
        lo, hi = as_num(lo), as_num(hi)
        P.prove("the regression is of y on x", all(a is X and b is Y for a, b in regress_args))
        by = ols.intercept + ols.slope * tx
        P.prove("the range surrounds the best fit's prediction", land(lo <= by, by <= hi))
        for nm, v in (("low", lo), ("high", hi)):
            s = SNum(TP(z3.simplify(tx.real_term()), z3.simplify(v.real_term())))
            c = cost_spec(v - tx * s, s)
            P.prove(f"at the {nm} end the best line through it costs the allowed increase more (to 1e-4)",
                    abs(c - (base + inc)) <= as_num(1e-4))
    P.group("least_squares_output_range", out_range)

    def slope_range():
        found.clear(), regress_args.clear()
        inc = P.real("cost_increase", 0)
        lo, mid, hi = (as_num(v) for v in P.call(pu.least_squares_slope_range, xs=X, ys=Y, cost_increase=inc))
        P.prove("the regression is of y on x", all(a is X and b is Y for a, b in regress_args))
        P.prove("the middle is the best fit's slope", mid == ols.slope)
        P.prove("the range surrounds the best slope", land(lo <= ols.slope, ols.slope <= hi))
        for nm, v in (("low", lo), ("high", hi)):
            c = cost_spec(SNum(WS(z3.simplify(v.real_term()))), v)
            P.prove(f"at the {nm} end the best line of that slope costs the allowed increase more (to 1e-4)",
                    abs(c - (base + inc)) <= as_num(1e-4))
    P.group("least_squares_slope_range", slope_range)
    eng.callee_contracts.clear()


# ------------------------------------------------------------------ bounded stand-in
def cases(tier, rng):
    fixed = [([1, 2, 3], [2, 4, 7]), ([0, 1], [0, 1]), ([4, 8, 12], [-3.0, -6.5, -9.0]), ([4, 8, 12, 16, 20], [-2, -5, -7, -11, -13]),
             ([-27.6, -20, -10, -5], [16, 12, 8, 4])]
    for xs, ys in fixed:
        for inc in (1, 0.5, 4):
            yield {"xs": xs, "ys": ys, "inc": inc, "tx": 0.0, "ry": 1.0, "rs": 0.5}
            yield {"xs": xs, "ys": ys, "inc": inc, "tx": -27.6, "ry": -1.0, "rs": -1}
    for _ in range(250 if tier == "quick" else 4000):
        n = rng.randint(2, 12) if rng.random() < 0.97 else 300
        scale = rng.choice([1, 1, 10])
        xs = sorted(rng.sample(range(-30, 30), n)) if n < 50 and rng.random() < 0.5 else [rng.uniform(-5, 5) for _ in range(n)]
        if max(xs) - min(xs) < 0.3:
            continue
        s, i = rng.uniform(-3, 3), rng.uniform(-5, 5)
        ys = [s * x + i + rng.gauss(0, rng.choice([0.01, 0.3, 1])) for x in xs]
        yield {"xs": xs, "ys": ys, "inc": rng.choice([1, 0.25, 2, 9]), "tx": rng.choice([0, rng.uniform(-30, 30), xs[0], xs[0] + 0.5]), "kind": rng.randint(0, 7),
               "ry": rng.uniform(-10, 10), "rs": rng.uniform(-3, 3)}


def run_case(c):
    import numpy as np
    import probability_util as pu
    xs, ys = np.array(c["xs"], dtype=np.float64), np.array(c["ys"], dtype=np.float64)
    inc, tx, ry, rs = c["inc"], c["tx"], c["ry"], c["rs"]
    n = len(xs)

    def cost(i, s):
        return math.fsum((i + s * x - y) ** 2 for x, y in zip(xs, ys))
    got = float(pu.least_squares_cost(xs=xs, ys=ys, intercept=ry, slope=rs))
    want = cost(ry, rs)
    require(abs(got - want) <= 1e-9 * (1 + want), f"cost {got} instead of {want}")

    def best_through(px, py):
        den = math.fsum((x - px) ** 2 for x in xs)
        s = math.fsum((x - px) * (y - py) for x, y in zip(xs, ys)) / den if den else 0.0
        return py - px * s, s
    f = pu.least_squares_through_point(xs=xs, ys=ys, required_x=tx, required_y=ry)
    require(abs(f.intercept + f.slope * tx - ry) <= 1e-9 * (1 + abs(ry) + abs(f.slope * tx)), "the line misses the required point")
    bi, bs = best_through(tx, ry)
    b, g = cost(bi, bs), cost(f.intercept, f.slope)
    require(g <= b * (1 + 1e-3) + 1e-4, f"through ({tx},{ry}): cost {g}, the optimum is {b}")
    f = pu.least_squares_with_slope(xs=xs, ys=ys, required_slope=rs)
    require(f.slope == rs, "the slope is not the required one")
    bi = float(np.mean(ys - rs * xs))
    b, g = cost(bi, rs), cost(f.intercept, rs)
    require(g <= b * (1 + 1e-3) + 1e-4, f"with slope {rs}: cost {g}, the optimum is {b}")
    # Ranges, whatever kind of sequence the data comes in.
    kind = c.get("kind", 0)
    ints = all(x == int(x) for x in c["xs"])
    form = [list, tuple, np.array, lambda v: np.array(v, dtype=np.float64)][kind % 4]
    xs_in, ys_in = form([int(x) for x in c["xs"]] if ints and kind < 4 else list(map(float, c["xs"]))), form(c["ys"])
    xs_was, ys_was = list(xs_in), list(ys_in)
    mx, my = float(np.mean(xs)), float(np.mean(ys))
    sxx = math.fsum((x - mx) ** 2 for x in xs)
    s0 = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    i0 = my - s0 * mx
    base = cost(i0, s0)
    half_s = math.sqrt(inc / sxx)
    lo, mid, hi = pu.least_squares_slope_range(xs=xs_in, ys=ys_in, cost_increase=inc)
    tol = 1e-2
    require(abs(mid - s0) <= 1e-6 * (1 + abs(s0)), f"best slope {s0}, got {mid}")
    for nm, gv, w in (("low", lo, s0 - half_s), ("high", hi, s0 + half_s)):
        require(abs(gv - w) <= tol * half_s + 1e-4, f"slope range: {nm} end {gv}, expected {w}")
    y0 = i0 + s0 * tx
    half_y = math.sqrt(inc * (1 / n + (tx - mx) ** 2 / sxx))
    lo, hi = pu.least_squares_output_range(xs=xs_in, ys=ys_in, target_x=tx, cost_increase=inc)
    for nm, gv, w in (("low", lo, y0 - half_y), ("high", hi, y0 + half_y)):
        require(abs(gv - w) <= tol * half_y + 1e-4, f"output range at {tx}: {nm} end {gv}, expected {w}")
    require(list(xs_in) == xs_was and list(ys_in) == ys_was, "the data was modified")
