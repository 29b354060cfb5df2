"""C23: remaining-work estimates."""
import math

from contracts.common import require

BUDGET = {"quick": 40, "thorough": 300}
CHUNK = 200
BOUND = "all shot/error counts and limits up to 12, thresholds at and around attained rates, random large values"
EXPLANATION = "all properties of RemainingWork and ShotData as postconditions over symbolic counts, limits, cutoff and seconds; loop free, complete"


def cases(tier, rng):
    m = 4 if tier == "quick" else 8
    for s in list(range(m)) + [9, 10, 11]:
        for e in range(0, min(s, m) + 1):
            for ms in (0, s, s + 1, 12):
                for me in (0, e, e + 1, 5):
                    for th in sorted({0, 0.5, 1, 2, e / s if s else 1}):
                        yield {"s": s, "e": e, "ms": ms, "me": me, "th": th, "t": 2.5}
    for _ in range(3000 if tier == "quick" else 60000):
        s = rng.choice([rng.randint(0, 30), rng.randint(0, 10 ** 7)])
        e = rng.choice([0, rng.randint(0, s), s, rng.randint(0, min(s, 20))])
        yield {"s": s, "e": e, "ms": rng.choice([s, s + rng.randint(-3, 30), 10 ** 8]), "me": rng.choice([e, e + rng.randint(-3, 30), 10 ** 6]),
               "th": rng.choice([0.4, 1.0, 0.48, (e / s if s else 1)]), "t": rng.choice([0.0, rng.random() * 1000])}


def run_case(c):
    import collect_data as cd
    s, e, ms, me, th, t = (c[k] for k in ("s", "e", "ms", "me", "th", "t"))
    d = cd.ShotData(s, s - e, t)
    require(d.num_errors == e, f"num_errors {d.num_errors} != {e}")
    rate = e / s if s else 1
    require(math.isclose(d.logical_error_rate, rate, rel_tol=1e-12), f"logical_error_rate {d.logical_error_rate} != {rate}")
    w = d.remaining_work(max_shots=ms, max_errors=me, threshold_circuit_breaker=th)
    fin = s >= ms or e >= me or (rate >= th and s >= 10)
    require(bool(w.finished) == fin, f"finished={w.finished}, expected {fin}")
    if fin:
        require(w.remaining_shots == 0 and w.remaining_errors == 0 and w.remaining_time == 0, "finished, but something remains")
        return
    require(w.remaining_shots == ms - s and w.remaining_shots > 0, f"remaining_shots {w.remaining_shots}, expected {ms - s}")
    require(w.remaining_errors == me - e and w.remaining_errors > 0, f"remaining_errors {w.remaining_errors}, expected {me - e}")
    want = math.inf
    if s:
        want = min(want, (ms - s) * t / s)
    if e:
        want = min(want, (me - e) * t / e)
    require(w.remaining_time == want or math.isclose(w.remaining_time, want, rel_tol=1e-9, abs_tol=1e-300), f"remaining_time {w.remaining_time}, expected {want}")
    require((d.num_shots, d.num_correct, d.total_processing_seconds) == (s, s - e, t), "the estimate changed the data")


def prove(P):
    import z3
    import collect_data as cd
    from pyvc.prover import mval
    from pyvc.values import SNum, as_num, land, lor, lnot, implies, zb, SBool
    eng = P.eng

    def body():
        s, e, ms, me = P.int("shots", 0), P.int("errors", 0), P.int("max_shots"), P.int("max_errors")
        th, t = P.real("cutoff"), P.real("seconds", 0)
        eng.assume(e <= s)
        wit = lambda m: {"s": mval(m, s), "e": mval(m, e), "ms": mval(m, ms), "me": mval(m, me), "th": mval(m, th), "t": mval(m, t)}
        d = P.call(cd.ShotData, s, s - e, t)
        P.prove("num_errors is shots minus correct", P.interp.getattr(d, "num_errors") == e, wit)
        rate = P.interp.getattr(d, "logical_error_rate")
        P.prove("the error rate is errors per shot, one without shots", lor(land(s == 0, as_num(rate) == 1), land(s > 0, as_num(rate) * s == e)), wit)
        w = P.call(P.interp.getattr(d, "remaining_work"), max_shots=ms, max_errors=me, threshold_circuit_breaker=th)
        fin = lor(s >= ms, e >= me, land(s >= 10, SBool(z3.ToReal(e.e) >= th.e * z3.ToReal(s.e))))
        f = P.interp.getattr(w, "finished")
        f = f if isinstance(f, SBool) else SBool(z3.BoolVal(bool(f)))
        P.prove("finished exactly when a limit is reached", SBool(zb(f) == zb(fin)), wit)
        rs, re, rt = (P.interp.getattr(w, n) for n in ("remaining_shots", "remaining_errors", "remaining_time"))
        P.prove("nothing remains once finished", implies(fin, land(as_num(rs) == 0, as_num(re) == 0, as_num(rt) == 0 if not isinstance(rt, float) or rt == rt and abs(rt) < 1e300 else False)), wit)
        P.prove("missing shots", implies(lnot(fin), land(as_num(rs) == ms - s, as_num(rs) > 0)), wit)
        P.prove("missing errors", implies(lnot(fin), land(as_num(re) == me - e, as_num(re) > 0)), wit)
        if isinstance(rt, float) and rt == float("inf"):
            P.prove("unknown time only without any shot", land(s == 0, lnot(fin)), wit)
        else:
            rt = as_num(rt)
            a = lor(s == 0, rt * s <= (ms - s) * t)
            b = lor(e == 0, rt * e <= (me - e) * t)
            c = lor(land(s > 0, rt * s == (ms - s) * t), land(e > 0, rt * e == (me - e) * t))
            P.prove("the sooner of the two times", implies(lnot(fin), land(a, b, c)), wit)
        P.prove("the shot data is left alone", land(d.num_shots == s, d.num_correct == s - e, as_num(d.total_processing_seconds) == t), wit)
    P.group("RemainingWork", body)
    for s, e, ms, me, th in [(0, 0, 5, 5, .5), (10, 5, 20, 20, .5), (9, 9, 20, 20, .5), (3, 0, 5, 5, 0), (30, 1, 100, 2, .5)]:
        d = cd.ShotData(s, s - e, 2.5)
        for n in ("finished", "remaining_shots", "remaining_errors", "remaining_time"):
            P.xcheck(getattr(cd.RemainingWork, n).fget, cd.RemainingWork(d, ms, me, th))
