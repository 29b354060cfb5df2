"""C19: the two searches of probability_util find what they promise."""
import itertools
import math

from contracts.common import Broken, NotApplicable, require

BUDGET = {"quick": 100, "thorough": 900}
CHUNK = 20
HANG_IS_VIOLATION = True
CASE_LIMIT = 60
BOUND = "ascending integer functions (linear, steps, random walks, -inf tails) on ranges up to 10^9 wide and all tiny ranges; continuous monotone functions for the intercept search"
EXPLANATION = ("binary_search: inductive bracket invariant, result within range and at least as close to the target as every point "
               "of the range, for every ascending function; variant max-min. binary_intercept: result within tolerance, on the "
               "step's side of the start, bracket kept, bracket halves")


def prove(P):
    import z3
    import probability_util as pu
    from pyvc.rules import InvariantRule
    from pyvc.values import SNum, as_num, land, lor, SBool, zb, implies
    from pyvc.prover import mval
    eng = P.eng
    F = z3.Function("F", z3.IntSort(), z3.RealSort())

    def ints(env):
        return {k: v for k, v in env.items() if isinstance(v, SNum) and v.is_int_sort and v.den == 1}

    m0, M0, T = SNum(z3.Int("m0")), SNum(z3.Int("M0")), SNum(z3.Real("target"))

    def cand(env, entry, ghosts):
        out = {}
        iv = ints(env)
        for n, v in iv.items():
            out[f"{n} >= min"] = v >= m0
            out[f"{n} <= max"] = v <= M0
            out[f"f({n}) <= target or {n} is the minimum"] = lor(SNum(F(v.e)) <= T, v == m0)
            out[f"f({n}) >= target or {n} is the maximum"] = lor(SNum(F(v.e)) >= T, v == M0)
        for (a, x), (b, y) in itertools.permutations(iv.items(), 2):
            out[f"{a} <= {b}"] = x <= y
            out[f"{a} < {b} or the range is one point"] = lor(x < y, m0 == M0)
        return out

    def variant(env, entry, ghosts):
        iv = ints(env)
        return {f"{a}-{b}": x - y for (a, x), (b, y) in itertools.permutations(iv.items(), 2)}
    rule = InvariantRule("binary_search loop", "binary_search", cand, variant)
    P.interp.loop_rules = [rule]

    def func(x):
        return SNum(F(as_num(x).e))

    def wit(m):
        lo, hi = mval(m, m0), mval(m, M0)
        if hi - lo > 2000:
            return None
        import fractions
        vals = [mval(m, SNum(F(z3.IntVal(i)))) for i in range(lo, hi + 1)]
        return {"kind": "table", "lo": lo, "vals": vals, "target": mval(m, T)}

    i, j = z3.Ints("i j")
    mono = z3.ForAll([i, j], z3.Implies(i <= j, F(i) <= F(j)), patterns=[z3.MultiPattern(F(i), F(j))])

    def search():
        eng.assume(m0 <= M0)
        eng.assume(mono)
        r = P.call(pu.binary_search, func=func, min_x=m0, max_x=M0, target=T)
        r = as_num(r)
        P.prove("the result is in the range", land(r >= m0, r <= M0), witness=wit)
        x = SNum(z3.Int("x"))
        eng.assume(land(x >= m0, x <= M0))
        P.prove("no point of the range is closer to the target", abs(func(r) - T) <= abs(func(x) - T), witness=wit)
    P.group("binary_search", search)

    def total():
        # Without any assumption on the function: never leaves the range, never raises, terminates.
        eng.assume(m0 <= M0)
        r = as_num(P.call(pu.binary_search, func=func, min_x=m0, max_x=M0, target=T))
        P.prove("the result is in the range for any function", land(r >= m0, r <= M0), witness=wit)
    rule2 = InvariantRule("binary_search loop (any function)", "binary_search", cand, variant)
    P.interp.loop_rules = [rule2]
    P.group("binary_search, arbitrary function", total)

    # ---- binary_intercept
    G = z3.Function("G", z3.RealSort(), z3.RealSort())
    s0, st0, ty, atol = (SNum(z3.Real(n)) for n in ("start_x", "step0", "target_y", "atol"))

    def g(x):
        return SNum(G(z3.simplify(as_num(x).real_term())))

    def reals(env):
        return {k: v for k, v in env.items() if isinstance(v, SNum) and not v.is_int_sort}

    def cand_step(env, entry, ghosts):
        out = {}
        for n, v in reals(env).items():
            out[f"{n} keeps the sign of the step"] = SBool((v.e > 0) == (st0.e > 0))
            out[f"{n} is not zero"] = v != 0
        return out

    def cand_bracket(env, entry, ghosts):
        out = {}
        rv = {k: v for k, v in reals(env).items()}
        for n, v in rv.items():
            out[f"{n} on the step's side"] = SBool(z3.And(z3.Implies(st0.e > 0, v.e >= s0.e), z3.Implies(st0.e < 0, v.e <= s0.e)))
        for (a, x), (b, y) in itertools.permutations(rv.items(), 2):
            out[f"{a} < {b}"] = x < y
            out[f"[{a},{b}] brackets the target"] = SBool(z3.Or(z3.And(G(x.e) < ty.e, G(y.e) >= ty.e), z3.And(G(x.e) >= ty.e, G(y.e) < ty.e)))
            out[f"[{a},{b}] brackets the target in the direction found"] = SBool(z3.And(*[
                z3.And(z3.Implies(zb(v), z3.And(G(x.e) < ty.e, G(y.e) >= ty.e)), z3.Implies(z3.Not(zb(v)), z3.And(G(x.e) >= ty.e, G(y.e) < ty.e)))
                for k, v in env.items() if isinstance(v, SBool)] or [z3.BoolVal(False)]))
        return out

    def var_bracket(env, entry, ghosts):
        rv = reals(env)
        return {f"{a}-{b}": (x - y, 2) for (a, x), (b, y) in itertools.permutations(rv.items(), 2)}
    import ast
    met = []

    def nth(n):
        # The loops in the order they are met: first the one that widens the step, then the one that halves the bracket.
        def is_it(node, scope):
            if not isinstance(node, ast.While):
                return False
            if node not in met:
                met.append(node)
            return met.index(node) == n
        return is_it
    step_rule = InvariantRule("binary_intercept step loop", "binary_intercept", cand_step, is_loop=nth(0))
    br_rule = InvariantRule("binary_intercept bisection loop", "binary_intercept", cand_bracket, var_bracket, is_loop=nth(1))
    P.interp.loop_rules = [step_rule, br_rule]

    def intercept():
        eng.assume(land(st0 != 0, atol >= 0))
        from pyvc.core import PyExc
        try:
            r = as_num(P.call(pu.binary_intercept, func=g, start_x=s0, step=st0, target_y=ty, atol=atol))
        except PyExc as pe:
            if isinstance(pe.exc, ValueError):
                return
            raise
        P.prove("the value at the result is within the tolerance of the target", abs(g(r) - ty) <= atol)
        P.prove("the result is the start or on the step's side of it",
                SBool(z3.And(z3.Implies(st0.e > 0, r.real_term() >= s0.e), z3.Implies(st0.e < 0, r.real_term() <= s0.e))))
    P.group("binary_intercept", intercept)
    P.interp.loop_rules = []
    for lo, hi, t in [(0, 0, 1), (0, 1, 0.5), (0, 10, 3.5), (0, 10, 4), (-5, 7, 100), (-5, 7, -100)]:
        P.xcheck(pu.binary_search, func=lambda x: 2 * x, min_x=lo, max_x=hi, target=t)
    for sx, sp, t in [(0.0, 1.0, 5.0), (0.0, -1.0, -5.0), (3.0, 0.5, 3.0)]:
        P.xcheck(pu.binary_intercept, func=lambda x: 2 * x, start_x=sx, step=sp, target_y=t, atol=1e-3)


# ------------------------------------------------------------------ bounded stand-in
def cases(tier, rng):
    for f, start, step, dist in (("flat", 0, 1, 1e13), ("flat", 5, -1e-9, 1e15), ("flat", 1e9, -3, 1e14), ("steep", 0, 1, 1e-9), ("steep", 1, -1, 1e-8), ("lin", 0, 1e-12, 40)):
        yield {"kind": "intercept", "f": f, "start": start, "step": step, "dist": dist, "atol": 1e-4}
    for n in range(1, 8):
        for t in range(-1, 2 * n + 2):
            for off in (0, 0.25, 0.5, 0.75):
                yield {"kind": "lin", "lo": -2, "hi": -2 + n - 1, "a": 2, "b": 3, "target": t + off}
    for n in range(1, 5):
        for vals in itertools.combinations_with_replacement([0, 1, 2, 5], n):
            for t in (-1, 0, 0.4, 0.5, 0.6, 1, 1.5, 2, 3.4, 3.5, 5, 6):
                yield {"kind": "table", "lo": rng.randint(-3, 3), "vals": list(vals), "target": t}
    for _ in range(1500 if tier == "quick" else 20000):
        n = rng.choice([rng.randint(1, 12), rng.randint(1, 300)])
        v, vals = rng.uniform(-5, 5), []
        for _ in range(n):
            v += rng.choice([0, 0, rng.random(), rng.random() * 10, 1])
            vals.append(v)
        if rng.random() < 0.2:
            k = rng.randint(0, n)
            vals[:k] = ["-inf"] * k
        elif rng.random() < 0.2:
            k = rng.randint(0, n)
            vals[n - k:] = ["inf"] * k
        t = rng.choice([rng.uniform(-8, v + 3), rng.choice(vals)])
        if isinstance(t, str):
            t = 0.5
        yield {"kind": "table", "lo": rng.randint(-1000, 1000), "vals": vals, "target": t}
    for _ in range(400 if tier == "quick" else 4000):
        lo = rng.randint(-10 ** 9, 10 ** 9)
        hi = lo + rng.randint(0, 10 ** rng.randint(1, 9))
        a = rng.choice([1, 3, 1e-6, 1e3])
        yield {"kind": "lin", "lo": lo, "hi": hi, "a": a, "b": rng.uniform(-10, 10),
               "target": a * rng.uniform(lo - 10, hi + 10)}
    for _ in range(1500 if tier == "quick" else 20000):
        yield {"kind": "intercept", "f": rng.choice(["lin", "neg", "cube", "exp", "square", "atan"]),
               "start": rng.choice([0, rng.uniform(-3, 3), rng.uniform(-100, 100)]),
               "step": rng.choice([1, -1, rng.uniform(-2, 2) or 1, 2 ** rng.randint(-6, 6), -2 ** rng.randint(-6, 6)]),
               "dist": rng.choice([0, 1e-7, 1, 3, rng.uniform(0, 50)]), "atol": 10 ** rng.uniform(-6, -1)}


def fl(v):
    return {"-inf": -math.inf, "inf": math.inf}.get(v, v) if isinstance(v, str) else v


def run_case(c):
    import probability_util as pu
    if c["kind"] in ("table", "lin"):
        if c["kind"] == "table":
            vals = [fl(v) for v in c["vals"]]
            lo, hi = c["lo"], c["lo"] + len(vals) - 1
            f = lambda x: vals[x - lo]
            if any(b < a for a, b in zip(vals, vals[1:])):
                # No ascent: only the range is promised.
                r = pu.binary_search(func=f, min_x=lo, max_x=hi, target=c["target"])
                require(lo <= r <= hi, f"left the range: {r}")
                return
        else:
            lo, hi = c["lo"], c["hi"]
            f = lambda x: c["a"] * x + c["b"]
        t = c["target"]
        calls = [0]

        def g(x):
            calls[0] += 1
            require(isinstance(x, int) and lo <= x <= hi, f"evaluated the function at {x!r}, outside of {lo}..{hi}")
            require(calls[0] < 20000, "does not terminate")
            return f(x)
        r = pu.binary_search(func=g, min_x=lo, max_x=hi, target=t)
        require(lo <= r <= hi, f"result {r} outside of {lo}..{hi}")
        require(calls[0] <= 2 * (math.log2(hi - lo + 1) + 4), f"{calls[0]} evaluations over a range of {hi - lo + 1}")
        d = lambda x: 0 if f(x) == t else abs(f(x) - t)
        if c["kind"] == "table":
            best = min(d(x) for x in range(lo, hi + 1))
        else:
            guess = int((t - c["b"]) / c["a"])
            best = min(d(min(hi, max(lo, x))) for x in range(guess - 3, guess + 4))
        tol = 1e-12 * (abs(t) + 1) if c["kind"] == "lin" else 0
        require(d(r) <= best + tol, f"returned {r} at distance {d(r)} from the target {t}, but a point of {lo}..{hi} is at distance {best}")
        return
    f = {"flat": lambda x: 1e-9 * x, "steep": lambda x: 1e9 * x, "lin": lambda x: 2 * x + 1, "neg": lambda x: -0.5 * x, "cube": lambda x: x ** 3 / 50 + x, "exp": lambda x: math.exp(min(x, 600) / 20),
         "square": None, "atan": lambda x: x + math.atan(x)}[c["f"]]
    s, st = c["start"], c["step"]
    if f is None:
        f = lambda x: (x - s) ** 2
    if c["f"] == "exp":
        s = max(-50, min(50, s))
    x_t = s + math.copysign(c["dist"], st)
    ty = f(x_t)
    n = [0]

    def g(x):
        n[0] += 1
        require(n[0] < 5000, "does not terminate")
        return f(x)
    # Below the resolution of doubles the search may give up with its assertion; keep clear of that.
    atol = max(c["atol"], 1e-9 * (1 + abs(ty)))
    r = pu.binary_intercept(func=g, start_x=s, step=st, target_y=ty, atol=atol)
    require(abs(f(r) - ty) <= atol, f"f({r}) = {f(r)} is not within {atol} of {ty}")
    require((r - s) * st >= 0, f"the result {r} lies on the other side of the start {s} than the step {st}")
