"""C14: the stopping rule of the sampling loop."""
import contextlib
import io
import math

from contracts.common import Broken, require

LEVEL = "proof"
BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 20
CASE_LIMIT = 60
HANG_IS_VIOLATION = True
BOUND = "limits up to 200 shots (all small ones, random larger ones up to 10^6), outcome sequences drawn at fixed, random and adversarial error rates, 1-3 problems"
EXPLANATION = ("any list of problems (one step from the state 'earlier problems complete'), symbolic limits, arbitrary batch outcomes: inductive invariant of the batch loop, "
               "every exit justified by the stopping rule, every continuation by its negation, totals never above the maximum, a variant (progress in every batch), "
               "every batch recorded (printed or in the file) before the next; also two given problems in sequence")


def cases(tier, rng):
    for mn in (1, 2, 5):
        for mx in (1, 2, 3, 7, 12):
            for mb in (None, 1, 3, 100):
                for rate in (0, 1, 0.5):
                    yield {"mn": mn, "mx": mx, "mb": mb, "std": 1, "me": 2, "outs": rate, "seed": 0, "k": 1}
    for _ in range(1500 if tier == "quick" else 30000):
        mx = rng.choice([rng.randint(1, 40), rng.randint(1, 200), rng.randint(1, 10 ** 6)])
        mn = rng.choice([1, rng.randint(1, mx), rng.randint(1, 2 * mx), 25])
        mb = rng.choice([None, None, rng.randint(1, mx + 3), 2 ** 15, mn, mx])
        if mb is not None and mx / mb > 3000:
            mb = mx // 3000 + 1
        yield {"mn": mn, "mx": mx, "mb": mb, "std": rng.choice([1, 1, 0.1, 0.05, 0.01, 0]),
               "me": rng.choice([0, 1, 3, 10, rng.randint(0, 100), 10 ** 9]), "outs": rng.choice([0, 1, 0.5, 0.48, 0.4, 0.1, 0.01, rng.random(), "rand", "exact48"]),
               "seed": rng.randint(0, 10 ** 9), "k": rng.choice([1, 1, 2, 3])}


def run_collect(c, on_batch=None):
    import random
    import collect_data as cd
    import decoding
    rng = random.Random(c["seed"])
    log = []

    def sampler(*, circuit, num_shots, decoder, model_circuit=None):
        n = int(num_shots)
        require(num_shots == n and n >= 1, f"a batch of {num_shots} shots was requested")
        o = c["outs"]
        if o == "rand":
            e = rng.randint(0, n)
        elif o == "exact48":
            tot = sum(b[1] for b in log if b[0] == circuit) + n
            e = max(0, min(n, math.ceil(0.48 * tot) - sum(b[2] for b in log if b[0] == circuit) - rng.choice([0, 0, 1])))
        else:
            e = sum(rng.random() < o for _ in range(n)) if n < 2000 else min(n, max(0, int(n * o + rng.randint(-2, 2))))
        log.append((circuit, n, e, decoder))
        require(len(log) < 20000, "does not stop")
        return n - e
    problems = []
    for i in range(c["k"]):
        desc = cd.DecodingProblemDesc(data_width=4, data_height=6, code_distance=4, num_qubits=24, rounds=3, noise=0.001 * (i + 1),
                                      circuit_style="s", preserved_observable="H", decoder=f"dec{i}")
        problems.append(cd.DecodingProblem(desc, lambda i=i: f"circuit{i}"))
    saved = cd.sample_decode_count_correct if hasattr(cd, "sample_decode_count_correct") else None, decoding.sample_decode_count_correct
    cd.sample_decode_count_correct = sampler
    decoding.sample_decode_count_correct = sampler
    try:
        kw = {} if c["mb"] is None and c["seed"] % 2 else {"max_batch": c["mb"]}
        if c["std"] != 1 or c["seed"] % 3:
            kw["max_sample_std_dev"] = c["std"]
        with contextlib.redirect_stdout(io.StringIO()) as out:
            cd.collect_simulated_experiment_data(problems, min_shots=c["mn"], max_shots=c["mx"], min_seen_logical_errors=c["me"],
                                                 out_path=None, discard_previous_data=False, **kw)
    finally:
        if saved[0] is not None:
            cd.sample_decode_count_correct = saved[0]
        decoding.sample_decode_count_correct = saved[1]
    return log, out.getvalue()


def run_case(c):
    log, out = run_collect(c)
    order = []
    for b in log:
        if b[0] not in order:
            order.append(b[0])
        require(b[0] == order[-1], "the batches of two problems are interleaved")
    require(order == [f"circuit{i}" for i in range(c["k"])], f"problems sampled: {order}")
    rows = [r.split(",") for r in out.splitlines()[1:] if r.count(",") >= 12]
    require([(int(r[8]), int(r[8]) - int(r[9])) for r in rows] == [(b[1], b[2]) for b in log], "the recorded rows differ from the batches taken")
    for i in range(c["k"]):
        bs = [b for b in log if b[0] == f"circuit{i}"]
        require(all(b[3] == f"dec{i}" for b in bs), "wrong decoder used")
        tot = err = 0
        for j, (_, n, e, _) in enumerate(bs):
            require(c["mb"] is None or n <= c["mb"], f"a batch of {n} shots exceeds the limit of {c['mb']}")
            tot += n
            err += e
            require(tot <= c["mx"], f"{tot} shots taken, the maximum is {c['mx']}")
            p = err / tot
            sd = math.sqrt(p * (1 - p) / tot)
            sd_ok = sd <= c["std"]
            near = abs(sd - c["std"]) < 1e-12
            half = err >= 10 and err >= 0.48 * tot
            met = tot >= c["mn"] and ((err >= c["me"] and sd_ok) or half)
            last = j == len(bs) - 1
            if near and not half and err >= c["me"] and tot < c["mx"]:
                continue
            stop = tot >= c["mx"] or met
            if last:
                require(stop, f"stopped after {tot} shots with {err} errors before any limit was reached ({c})")
            else:
                require(not stop, f"continued after {tot} shots with {err} errors although the limits were reached ({c})")


def prove(P):
    P.parallel([(b, f) for b in (True, False) for f in (False, True, None)], part)


def part(P, item):
    from contracts import collect
    with_batch, with_file = item
    if with_file is None:
        two_problems(P, with_batch)
    else:
        collect.sampling_loop(P, with_file, with_batch, a_case(P, with_batch))


def a_case(P, with_batch):
    import z3
    from pyvc.prover import mval
    from pyvc.values import SNum

    def wit(m):
        v = {k: mval(m, SNum(z3.Int(n))) for k, n in (("mn", "min_shots"), ("mx", "max_shots"), ("mb", "max_batch"), ("me", "min_errors"))}
        c = {**v, "mb": v["mb"] if with_batch else None, "std": mval(m, SNum(z3.Real("max_std_dev"))), "seed": 1, "k": 2}
        if c["mx"] > 5000 or c["mx"] / (c["mb"] or 1e9) > 3000:
            return None
        return [{**c, "outs": o, "seed": s} for o in (0, 1, 0.5, 0.1, "rand", "exact48") for s in (1, 2)]
    return wit


def two_problems(P, *batch):
    """Two given problems, one after the other."""
    import types
    import z3
    import collect_data as cd
    import decoding
    from pyvc.prover import mval
    from pyvc.rules import InvariantRule
    from pyvc.values import SBool, SNum, as_num, implies, land, lnot, lor, zb
    from pyvc.models import SQRT
    eng = P.eng
    eng.linear_branches = True
    mn, mx, mb, me = (SNum(z3.Int(n)) for n in ("min_shots", "max_shots", "max_batch", "min_errors"))
    sd = SNum(z3.Real("max_std_dev"))
    K = 2
    G = [f"{g}{k}" for k in range(K) for g in ("shots", "errors", "batches")]

    def ghost(name):
        return as_num(eng.ghost.get(name, 0))

    def half(t, e):
        return land(e >= 10, SBool(z3.ToReal(e.e) * 100 >= z3.ToReal(t.e) * 48))

    def over(a, b):
        return SNum(z3.simplify(a.real_term() / b.real_term()))

    def precise(t, e):
        """sqrt(p(1-p)/t) <= the limit; meaningful for t >= 1, 0 <= e <= t."""
        p = over(as_num(e), as_num(t))
        v = over(p * (1 - p), as_num(t)).e
        s = SQRT(z3.simplify(v))
        eng.assume(z3.Implies(z3.And(t.e >= 1, e.e >= 0, e.e <= t.e), z3.And(s >= 0, s * s == v)))
        return SBool(s <= sd.e)

    def stop(t, e):
        return lor(t >= mx, land(t >= mn, lor(land(e >= me, precise(t, e)), half(t, e))))

    for with_batch in batch:
        cap = mb if with_batch else mx

        def cand(env, entry, gh):
            out = {}
            for k in range(K):
                t, e, b = (as_num(gh[f"{g}{k}"]) for g in ("shots", "errors", "batches"))
                out[f"problem {k}: 0 <= errors <= shots"] = land(e >= 0, e <= t)
                out[f"problem {k}: a batch was taken iff shots were"] = land(b >= 0, SBool((b.e == 0) == (t.e == 0)))
                out[f"problem {k}: no batch yet"] = b == 0
                out[f"problem {k}: at most max_shots"] = t <= mx
                out[f"problem {k}: below max_shots"] = t < mx
                out[f"problem {k}: not to stop yet"] = lor(t == 0, land(t >= 1, lnot(stop(t, e))))
                out[f"problem {k}: stopped"] = land(t >= 1, stop(t, e))
                for n, v in env.items():
                    v = as_num(v) if not isinstance(v, (bool, SBool)) else None
                    if v is None or not v.is_int_sort:
                        continue
                    out[f"{n} is the shots of problem {k}"] = v == t
                    out[f"{n} is the errors of problem {k}"] = v == e
                    out[f"{n} more shots of problem {k} fit"] = v + t <= mx
                    out[f"{n} is all that is missing of problem {k}"] = v == mx - t
            for n, v in env.items():
                v = as_num(v) if not isinstance(v, (bool, SBool)) else None
                if v is None or not v.is_int_sort:
                    continue
                out[f"{n} >= 1"] = v >= 1
                out[f"{n} >= 0"] = v >= 0
                out[f"{n} <= batch limit"] = v <= cap
            return out

        def variant(env, entry, gh):
            return {f"max_shots - {n}": mx - as_num(v) for n, v in env.items() if as_num(v) is not None and as_num(v).is_int_sort}

        def wit(m):
            c = {"mn": mval(m, mn), "mx": mval(m, mx), "mb": mval(m, mb) if with_batch else None, "std": mval(m, sd), "me": mval(m, me), "seed": 1, "k": 2}
            if c["mx"] > 5000 or c["mx"] / (c["mb"] or 1e9) > 3000:
                return None
            return [{**c, "outs": o, "seed": s} for o in (0, 1, 0.5, 0.1, "rand", "exact48") for s in (1, 2)]

        def sampler(*, circuit, num_shots, decoder, model_circuit=None):
            k = circuit
            n = as_num(num_shots)
            t, e, b = (ghost(f"{g}{k}") for g in ("shots", "errors", "batches"))
            P.prove("the problem's own decoder is used", decoder == f"decoder {k}")
            for j in range(K):
                tj, ej, bj = (ghost(f"{g}{j}") for g in ("shots", "errors", "batches"))
                if j < k:
                    P.prove(f"problem {j} is complete before problem {k} is sampled", land(bj >= 1, stop(tj, ej)), wit)
                elif j > k:
                    P.prove(f"problem {j} is not sampled before problem {k}", bj == 0, wit)
            P.prove("a batch has at least one shot", n >= 1, wit)
            P.prove("a batch is within the batch limit", n <= cap, wit)
            P.prove("the maximum is never exceeded", t + n <= mx, wit)
            P.prove("no batch is taken after the limits were reached", lor(b == 0, lnot(stop(t, e))), wit)
            c = SNum(eng.fresh("correct", z3.IntSort()))
            eng.assume(land(c >= 0, c <= n))
            eng.ghost[f"shots{k}"] = t + n
            eng.ghost[f"errors{k}"] = e + n - c
            eng.ghost[f"batches{k}"] = b + 1
            eng.ghost["last"] = (n, c)
            return c

        def recorded(a, kw):
            txt = a[0] if a else None
            last = eng.ghost.get("last")
            if hasattr(txt, "parts") and last is not None:
                nums = [x.v for x in txt.parts if hasattr(x, "v") and isinstance(x.v, SNum)]
                P.prove("the record holds the shots of the batch", lor(*[x == last[0] for x in nums]) if nums else False, wit)
                P.prove("the record holds the correct shots of the batch", lor(*[x == last[1] for x in nums]) if nums else False, wit)

        def body():
            for v in (mn, mx, mb):
                eng.assume(v >= 1)
            eng.assume(me >= 0)
            eng.assume(sd >= 0)
            P.interp.override(cd.sample_decode_count_correct, sampler)
            P.interp.override(decoding.sample_decode_count_correct, sampler)
            import time
            clock = lambda: SNum(eng.fresh("clock", z3.RealSort()))
            for f in (time.monotonic, time.time, time.perf_counter):
                P.interp.override(f, clock)
            for g in G:
                eng.ghost[g] = as_num(0)
            eng.ghost["on_print"] = recorded
            problems = []
            for k in range(K):
                desc = cd.DecodingProblemDesc(data_width=4, data_height=6, code_distance=4, num_qubits=24, rounds=3, noise=0.5, circuit_style="s",
                                              preserved_observable="H", decoder=f"decoder {k}")
                problems.append(cd.DecodingProblem(desc, (lambda k=k: k)))
            kw = {"max_batch": mb} if with_batch else {}
            P.call(cd.collect_simulated_experiment_data, problems, min_shots=mn, max_shots=mx, max_sample_std_dev=sd, min_seen_logical_errors=me,
                   out_path=None, discard_previous_data=False, **kw)
            for k in range(K):
                t, e, b = (ghost(f"{g}{k}") for g in ("shots", "errors", "batches"))
                P.prove(f"problem {k} was sampled until the limits were reached", land(b >= 1, t <= mx, stop(t, e)), wit)
        rule = InvariantRule("batch loop" + ("" if with_batch else " (no batch limit)"), "collect_simulated_experiment_data", cand, variant,
                             ghosts={g: SNum(z3.IntVal(0)) for g in G})
        P.interp.loop_rules = [rule]
        P.group("sampling" + (" with a batch limit" if with_batch else " without a batch limit"), body)
    P.interp.reset()
