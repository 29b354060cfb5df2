"""C17: total-to-per-piece error conversion inverts independent composition."""
import math

import z3

from contracts.common import require

FUNCTIONS = ["plotting.total_error_to_per_piece_error"]
BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 50
BOUND = ("error rates on a grid plus random ones in [0, 1], pieces in 1..40 and random up to 10^6; compared with "
         "the closed form evaluated in 60-digit arithmetic")
EXPLANATION = "postcondition (1-2r)^pieces == 1-2e, symmetry r(1-e) == 1-r(e) and range, for all real e in [0,1] and all pieces >= 1"


def prove(P):
    import plotting
    from pyvc.values import POW, SNum, as_num, land, pow_law, zb
    from pyvc.prover import mval
    f = plotting.total_error_to_per_piece_error

    def wit(e, k):
        return lambda m: {"e": mval(m, e), "k": max(1, int(mval(m, k)))}

    def low():
        e, k = P.real("e", 0), P.int("pieces", 1)
        P.eng.assume(e <= as_num(0.5))
        r = P.call(f, e, k)
        r = as_num(r)
        w = wit(e, k)
        base = z3.simplify((1 - 2 * e).real_term())
        kk = k.real_term()
        inner = POW(base, z3.simplify(1 / kk))
        P.eng.assume(z3.Implies(base >= 0, z3.And(inner >= 0, inner <= 1)))
        # (x**(1/k))**k == x, an instance of the power law.
        P.eng.assume(z3.Implies(base >= 0, POW(inner, kk) == base))
        flip = z3.simplify((1 - 2 * r).real_term())
        P.prove("the kept polarisation of one piece is the pieces-th root of the total's", SNum(flip) == SNum(inner), witness=w)
        P.eng.assume(z3.Implies(flip == inner, POW(flip, kk) == POW(inner, kk)))
        P.prove("composing the pieces gives back the total error rate", SNum(POW(flip, kk)) == SNum(base), witness=w)
        P.prove("the result is a probability of at most one half", land(r >= 0, r <= as_num(0.5)), witness=w)
    P.group("e in [0, 1/2]", low)

    def high():
        e, k = P.real("e", 0, 1), P.int("pieces", 1)
        P.eng.assume(e > as_num(0.5))
        r = as_num(P.call(f, e, k))
        r2 = as_num(P.call(f, 1 - e, k))
        P.prove("symmetric about one half", r + r2 == 1, witness=wit(e, k))
    P.group("e in (1/2, 1]", high)

    def one():
        e = P.real("e", 0, 1)
        r = as_num(P.call(f, e, 1))
        P.prove("a single piece keeps its rate", r == e, witness=lambda m: {"e": mval(m, e), "k": 1})
    P.group("pieces = 1", one)

    def mono():
        e1, e2 = P.real("e1", 0), P.real("e2")
        P.eng.assume(e2 <= as_num(0.5))
        P.eng.assume(e1 < e2)
        k = P.int("pieces", 1)
        kk = z3.simplify(1 / k.real_term())
        a, b = z3.simplify((1 - 2 * e1).real_term()), z3.simplify((1 - 2 * e2).real_term())
        r1, r2 = as_num(P.call(f, e1, k)), as_num(P.call(f, e2, k))
        P.eng.assumptions.add("x**y is strictly increasing in x >= 0 for y > 0")
        P.eng.assume(z3.Implies(z3.And(b >= 0, b < a), POW(b, kk) < POW(a, kk)))
        P.prove("strictly increasing in the total error rate", r1 < r2,
                witness=lambda m: {"e": mval(m, e1), "k": int(mval(m, k)), "e2": mval(m, e2)})
    P.group("monotone", mono)
    same = lambda x, y: abs(x - float(y)) < 1e-9
    for e in (0, 0.1, 0.25, 0.5, 0.75, 1):
        for k in (1, 2, 3):
            P.xcheck(f, e, k, same=same)


def exact(e, k):
    import decimal
    decimal.getcontext().prec = 60
    D = decimal.Decimal
    if e > 0.5:
        return 1 - exact(1 - e, k) if False else None
    x = 1 - 2 * D(e)
    if x == 0:
        return 0.5
    return float((1 - (x.ln() / D(k)).exp()) / 2)


def cases(tier, rng):
    es = [0, 1, 0.5, 1e-12, 1e-9, 1e-6, 1e-3, 0.01, 0.1, 0.2, 0.25, 0.3, 0.4, 0.49, 0.499999, 0.500001, 0.51, 0.6, 0.75, 0.9, 0.99, 0.999999]
    for e in es:
        for k in list(range(1, 41)) + [50, 64, 99, 100, 101, 128, 200, 256, 1000, 4096, 10 ** 6]:
            yield {"e": e, "k": k}
    for _ in range(4000 if tier == "quick" else 60000):
        e = rng.random() if rng.random() < 0.5 else 10 ** rng.uniform(-12, -0.3)
        if rng.random() < 0.2:
            e = 1 - e
        yield {"e": e, "k": rng.choice([rng.randint(1, 30), rng.randint(1, 1000), rng.randint(1, 10 ** 6)])}


def run_case(c):
    import plotting
    f = plotting.total_error_to_per_piece_error
    e, k = c["e"], c["k"]
    r = f(e, k)
    r_kw = f(error_rate=e, pieces=k)
    require(r == r_kw, f"positional and keyword calls differ: {r} {r_kw}")
    lo = min(e, 1 - e)
    want = exact(lo, k)
    if e > 0.5:
        want = 1 - want
    tol = 1e-13 + 1e-9 * abs(want if e <= 0.5 else 1 - want)
    if e > 0.5:
        tol += 1e-9 * abs(1 - want)
    # 1 - 2e loses relative accuracy in the doubles themselves near e = 1/2.
    gap = abs(0.5 - lo)
    if gap > 0:
        tol += 1e-15 / gap
    require(abs(r - want) <= tol, f"total error {e!r} over {k} pieces: got {r!r}, but {k} pieces with error {want!r} compose to it")
    if "e2" in c:
        require(f(c["e2"], k) > r, f"not increasing between {e} and {c['e2']} at {k} pieces")
