"""C21: lambda and teraquop projections."""
import math

from contracts.common import require

LEVEL = "proof"
EXPLANATION = ("grouping as a fold over arbitrary data (every problem at its noise, observable and distance; a second one for a place refused), combined rates as a fold over "
               "the distances of both observables, flags, projected error and distance inverse, lambda the ratio of projected errors two distance steps apart, "
               "ranges around it, qubit counts quadratic in the realisable distance for any patch and never refused for the benchmark's; fits by their contracts (C20)")
BUDGET = {"quick": 100, "thorough": 600}
CHUNK = 5
BOUND = "random data sets of 0-6 distances x both observables (some missing, some without errors), honeycomb and surface styles, random targets"


def cases(tier, rng):
    for _ in range(300 if tier == "quick" else 4000):
        yield {"seed": rng.randint(0, 10 ** 9), "style": rng.choice(["honeycomb_SD6", "honeycomb_EM3_v2", "surface_SD6", "surface_SI1000"]), "noises": rng.choice([1, 1, 2, 3]),
               "nd": rng.choice([0, 1, 2, 3, 4, 5, 5]), "target": rng.choice([1e-12, 1e-6, 0.001, 1e-15])}


def fit(xs, ys):
    n = len(xs)
    mx, my = sum(xs) / n, sum(ys) / n
    s = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sum((x - mx) ** 2 for x in xs)
    return s, my - s * mx


def per_piece(p, m):
    if p > 0.5:
        return 1 - per_piece(1 - p, m)
    return (1 - (1 - 2 * p) ** (1 / m)) / 2


def cost(xs, ys, s, b):
    return sum((y - s * x - b) ** 2 for x, y in zip(xs, ys))


def run_case(c):
    import contextlib
    import io
    import random
    with contextlib.redirect_stdout(io.StringIO()):
        return run(c, random.Random(c["seed"]))


def run(c, rng):
    import collect_data as cd
    import paper.main_render_lambda_figure as lf
    honey = "honeycomb" in c["style"]
    data = {}
    cells_per = rng.choice([1, 2, 3, 3])
    extra = rng.choice([0, 0, 1])
    noises = rng.sample([0.0001, 0.001, 0.002, 0.005, 0.01], c["noises"])
    for noise in noises:
        ds = rng.sample([4, 8, 12, 16, 20], c["nd"]) if honey else rng.sample([3, 7, 11, 15, 19], c["nd"])
        lam = rng.choice([1.3, 2, 5, 0.9])
        for d in ds:
            for o in ("HV" if honey else "XZ"):
                if rng.random() < 0.1:
                    continue
                shots = 10 ** 6
                e = min(shots - 1, max(0, int(shots * 0.4 * lam ** (-d / 2) * rng.choice([0.8, 1, 1.1]))))
                if rng.random() < 0.1:
                    e = 0
                if rng.random() < 0.05:
                    e = int(shots * 0.6)
                u = d // 4
                data[cd.DecodingProblemDesc(data_width=d, data_height=d * 3 // 2 if honey else d, code_distance=d, num_qubits=(24 * u * u * (1 if "EM3" in c["style"] else 5) // (1 if "EM3" in c["style"] else 2)) if honey else 2 * d * d - 1,
                                            rounds=cells_per * d - extra, noise=noise, circuit_style=c["style"], preserved_observable=o, decoder="internal")] = cd.ShotData(shots, shots - e, 1.0)
    src = cd.ProblemShotData(data)
    groups = lf.LambdaGroup.groups_from_data(src)
    require(set(groups) == {k.noise for k in data}, f"noise levels {sorted(groups)}")
    n = 0
    for noise, g in groups.items():
        mine = {k: v for k, v in data.items() if k.noise == noise}
        require(g.noise == noise and g.rep in mine, "the representative is not one of the group's problems")
        for part, obs in ((g.distance_error_pairs_h, "HX"), (g.distance_error_pairs_v, "VZ")):
            want = {k.code_distance: v for k, v in mine.items() if k.preserved_observable in obs}
            require(dict(part) == want, f"noise {noise}: problems of observable {obs} grouped as {part}, expected {want}")
            n += len(part)
        cells = -(-g.rep.rounds // g.rep.code_distance)
        xs, ys = [], []
        for d in sorted({k.code_distance for k in mine}):
            ps = {k.preserved_observable in "HX": (v.num_shots - v.num_correct) / v.num_shots for k, v in mine.items() if k.code_distance == d}
            p1, p2 = ps.get(True, ps.get(False)), ps.get(False, ps.get(True))
            if p1 and p2:
                xs.append(d)
                ys.append(1 - (1 - per_piece(p1, cells)) * (1 - per_piece(p2, cells)))
        gx, gy = g.combo_data
        require(list(gx) == xs and all(math.isclose(a, b, rel_tol=1e-9) for a, b in zip(gy, ys)), f"combined rates {list(zip(gx, gy))}, expected {list(zip(xs, ys))}")
        require(g.has_low_confidence_extrapolation == (min(len(g.distance_error_pairs_h), len(g.distance_error_pairs_v)) < 3), "low confidence flag")
        r = g.linear_fit_d_to_log_err
        ly = [math.log(y) for y in ys]
        if len(xs) <= 1:
            require(r.slope == 0 and not g.appears_to_be_suppressing_errors, "one distance looks like suppression")
            require(tuple(g.projected_lambda_range()) == (1, 1, 1), f"lambda range of a single distance: {g.projected_lambda_range()}")
            continue
        s, b = fit(xs, ly)
        require(math.isclose(r.slope, s, rel_tol=1e-7, abs_tol=1e-9) and math.isclose(r.intercept, b, rel_tol=1e-7, abs_tol=1e-7), f"fit ({r.slope}, {r.intercept}), expected ({s}, {b})")
        for v, th in ((s, -0.02), (b, -0.1), (s, -1)):
            if abs(v - th) < 1e-6:
                return
        require(bool(g.appears_to_be_suppressing_errors) == bool((s < -0.02 and b < -0.1) or s < -1), f"suppression flag with slope {s} and intercept {b}")
        lo, mid, hi = g.projected_lambda_range()
        require(math.isclose(mid, math.exp(-2 * s), rel_tol=1e-6), f"lambda {mid}, expected {math.exp(-2 * s)}")
        require(min(lo, hi) <= mid * (1 + 1e-9) and max(lo, hi) >= mid * (1 - 1e-9), f"lambda range {lo}, {mid}, {hi}")
        base = cost(xs, ly, s, b)
        for v in (lo, hi):
            sl = -math.log(v) / 2
            bb = sum(y - sl * x for x, y in zip(xs, ly)) / len(xs)
            inc = cost(xs, ly, sl, bb) - base
            require(abs(inc - 1) < 1e-2 or abs(inc - 1) < 1e-3 * base, f"the lambda range ends where the cost has increased by {inc}")
        d0 = rng.choice([3, 10, 25.5])
        require(math.isclose(g.projected_error(d0), math.exp(s * d0 + b), rel_tol=1e-6), "projected error")
        if abs(s) > 1e-3:
            pd = g.projected_distance(c["target"])
            require(math.isclose(pd, (math.log(c["target"]) - b) / s, rel_tol=1e-6), f"projected distance {pd}")
            require(math.isclose(g.projected_error(pd), c["target"], rel_tol=1e-5), "projected error and distance are not inverse")
            if s < 0 and 0 < pd < 3000 and abs(pd - round(pd)) > 1e-6:
                q = g.projected_required_qubit_count(c["target"], c["style"])
                judge_q(g, math.ceil(pd), c["style"], q)
                # inverse fit of distance against log rate
                s2, b2 = fit(ly, xs)
                mid = s2 * math.log(c["target"]) + b2
                q1, q2 = g.projected_qubit_count_range(c["target"], c["style"])
                require(q1 <= q2, f"qubit count range {q1}, {q2}")
                qm = {honeyd(math.ceil(mid) + e, honey) for e in (-1, 0, 1)}
                dq = [dist_of(g, v, c["style"]) for v in (q1, q2)]
                require(dq[0] <= max(qm) and dq[1] >= min(qm), f"range of distances {dq} does not bracket {mid}")
                for v, dd in zip((q1, q2), dq):
                    judge_q(g, dd, c["style"], v)
                base2 = cost(ly, xs, s2, b2)
                for dd, side in zip(dq, (-1, 1)):
                    # end points: where forcing the line through (log target, D) costs one more; D lies within one realisable step below dd
                    def inc(D):
                        t = math.log(c["target"])
                        sl = sum((x - D) * (l - t) for l, x in zip(ly, xs)) / sum((l - t) ** 2 for l in ly)
                        return sum((x - (D + sl * (l - t))) ** 2 for l, x in zip(ly, xs)) - base2
                    step = 4 if honey else 1
                    if side < 0:
                        require(inc(min(dd, mid) if dd < mid else mid) <= 1 + 0.05 + 1e-3 * base2, f"the lower end {dd} is beyond a cost increase of one")
                        require(dd - step > mid or inc(dd - step - 1e-3) >= 1 - 0.05 or dd - step > mid, f"the lower end {dd} is above a cost increase of one: {inc(dd - step)}")
                    else:
                        require(inc(dd + 1e-3) >= 1 - 0.05, f"the upper end {dd} comes before a cost increase of one: {inc(dd)}")
                        require(dd - step < mid or inc(dd - step) <= 1 + 0.05 + 1e-3 * base2, f"the upper end {dd} is beyond a cost increase of one")
        for d in (4, 5, 7, 8, 9, 23):
            judge_q(g, d, c["style"], g._d_to_q(d, c["style"]))
    require(n == len(data), "problems were lost when grouping")
    # two problems for the same place are refused
    if data:
        k = next(iter(data))
        dup = dict(data)
        dup[k.with_changes(rounds=k.rounds + 100)] = data[k]
        try:
            lf.LambdaGroup.groups_from_data(cd.ProblemShotData(dup))
        except Exception:
            pass
        else:
            require(False, "two problems with the same noise, distance and observable were accepted")


def honeyd(d, honey):
    return -(-d // 4) * 4 if honey else d


def dist_of(g, q, style):
    if "surface" in style:
        return round(math.sqrt((q + 1) / (g.rep.num_qubits + 1)) * g.rep.code_distance)
    return round(math.sqrt(q / g.rep.num_qubits) * g.rep.code_distance)


def judge_q(g, d, style, q):
    honey = "honeycomb" in style
    dd = honeyd(d, honey)
    if honey:
        want = g.rep.num_qubits * (dd / g.rep.code_distance) ** 2
    else:
        want = (g.rep.num_qubits + 1) * (dd / g.rep.code_distance) ** 2 - 1
    require(abs(q - want) < 1e-4, f"distance {d} needs {q} qubits, expected {want} ({style})")


# ------------------------------------------------------------------ obligations
M = "paper.main_render_lambda_figure.LambdaGroup."


def prove(P):
    P.eng.assumptions.add("contracts of least_squares_slope_range, least_squares_output_range (C20), total_error_to_per_piece_error (C17); "
                          "scipy.stats.linregress is the least-squares line of its second argument over its first")
    setup(P)
    qubits(P)
    inverse(P)
    flags(P)
    fits(P)
    prove_groups(P)
    prove_combo(P)
    P.eng.callee_contracts = {}


class Line:
    def __init__(self, slope, intercept):
        self.slope, self.intercept = slope, intercept


class Rep:
    """A descriptor of which the listed fields are symbolic."""

    def __init__(self, **k):
        self.__dict__.update(k)


def setup(P):
    """numpy arrays of symbolic sequences are the sequences."""
    import numpy as np
    from pyvc.values import SSeq
    real = np.array

    def array(x, *a, **k):
        return x if isinstance(x, SSeq) else real(x, *a, **k)
    array._pyvc_model = True
    P.interp.override(np.array, array)
    P.interp.override(np.asarray, array)


def group_of(P, rep=None, h=None, v=None):
    import paper.main_render_lambda_figure as lf
    g = lf.LambdaGroup(P.real("noise", 0, 1), rep, {} if h is None else h, {} if v is None else v)
    return g


def method(P, g, name, *args):
    return P.interp.call(P.interp.getattr(g, name), args, {})


def refused(fn):
    """(result, None) or (None, exception)."""
    from pyvc.core import PyExc
    try:
        return fn(), None
    except PyExc as pe:
        return None, pe.exc


def qubits(P):
    from pyvc.values import as_num

    def unknown():
        got, ex = refused(lambda: method(P, group_of(P, Rep(num_qubits=P.int("q", 1), code_distance=P.int("D", 1))), "_d_to_q", P.int("d", 1), "toric_SD6"))
        P.prove("an unknown kind of code is refused", ex is not None)
    P.group("required qubits of an unknown kind", unknown)
    for style in ("honeycomb_SD6", "surface_SI1000"):
        honey = style.startswith("honey")

        def distance():
            """An arbitrary distance asked for, and the least realisable one that is no smaller."""
            if not honey:
                d = P.int("d", 1)
                return d, d
            k = P.int("k", 1)
            return 4 * k - P.eng.choose(4), 4 * k

        def any_patch():
            Q, D = P.int("q", 1), P.int("D", 1)
            d, d4 = distance()
            got, ex = refused(lambda: method(P, group_of(P, Rep(num_qubits=Q, code_distance=D)), "_d_to_q", d, style))
            if ex is None:
                x = 0 if honey else 1
                P.prove("the qubit count scales with the square of the realisable distance", (as_num(got) + x) * D * D == (Q + x) * d4 * d4)
        P.group(f"required qubits of {style}", any_patch)

        def benchmark():
            u = P.eng.choose(8) + 1
            d, d4 = distance()
            if honey:
                D, Q = 4 * u, (60, 24)[P.eng.choose(2)] * u * u
            else:
                D = (3, 7, 11, 15, 19, 5, 9, 13)[u - 1]
                Q = 2 * D * D - 1
            got, ex = refused(lambda: method(P, group_of(P, Rep(num_qubits=Q, code_distance=D)), "_d_to_q", d, style))
            P.prove("counts that are whole are not refused", ex is None)
            if ex is None:
                want = as_num(Q // (u * u)) * d4 * d4 / 16 if honey else 2 * d4 * d4 - 1
                P.prove("the count is that of the patch of the realisable distance", as_num(got) == want)
        P.group(f"required qubits of benchmark patches {style}", benchmark)


def inverse(P):
    import z3
    from pyvc.models import EXP
    from pyvc.values import SNum, as_num
    eng = P.eng

    def go():
        s, b, e = P.real("slope"), P.real("intercept"), P.real("target")
        eng.assume(e > 0)
        d = P.real("distance")
        eng.callee_contracts = {M + "linear_fit_d_to_log_err": lambda g: Line(s, b)}
        g = group_of(P)
        # exp(ln y) = y, ln(exp t) = t, where used
        from pyvc.models import LOG
        at = as_num(method(P, g, "projected_error", d))
        P.prove("the projected error is exp(slope * distance + intercept)", at == SNum(EXP(z3.simplify((s * d + b).real_term()))))
        at2 = as_num(method(P, g, "projected_error", d + 2))
        P.prove("the projected error two steps on", at2 == SNum(EXP(z3.simplify((s * (d + 2) + b).real_term()))))
        pd, ex = refused(lambda: method(P, g, "projected_distance", e))
        P.prove("only a flat line has no projected distance", (s == 0) if ex is not None else True)
        if ex is not None:
            return
        eng.assume(s != 0)          # floats: division of numpy floats by zero gives inf, of floats an error
        P.prove("the line reaches the log of the target at the projected distance", as_num(pd) * s + b == SNum(LOG(e.real_term())))
        t = s * as_num(pd) + b
        eng.assume(z3.Implies(t.real_term() == LOG(e.real_term()), EXP(z3.simplify(t.real_term())) == e.real_term()))
        P.prove("the error projected for the projected distance is the target", as_num(method(P, g, "projected_error", pd)) == e)
        eng.assume(LOG(EXP(z3.simplify((s * d + b).real_term()))) == (s * d + b).real_term())
        back, ex = refused(lambda: method(P, g, "projected_distance", at))
        P.prove("the distance projected for the projected error is the distance", ex is None and as_num(back) == d)
    P.group("projected error and distance", go)
    eng.callee_contracts = {}


def flags(P):
    from pyvc.folds import AMap
    from pyvc.values import SBool, as_num, land, lor, zb
    eng = P.eng

    def suppressing():
        s, b = P.real("slope"), P.real("intercept")
        eng.callee_contracts = {M + "linear_fit_d_to_log_err": lambda g: Line(s, b)}
        got = P.interp.getattr(group_of(P), "appears_to_be_suppressing_errors")
        got, N = zb(got), as_num
        P.prove("flagged as suppressing exactly for falling lines below one, or steep ones", SBool(got == zb(lor(land(s < N(-0.02), b < N(-0.1)), s < -1))))
    P.group("suppression flag", suppressing)
    eng.callee_contracts = {}

    def confidence():
        class Sized(AMap):
            def sym_len(self):
                return self.size
        nh, nv = P.int("nh", 0), P.int("nv", 0)
        h, v = (Sized(None, None, None) for _ in range(2))
        h.size, v.size = nh, nv
        got = P.interp.getattr(group_of(P, h=h, v=v), "has_low_confidence_extrapolation")
        got = zb(got)
        P.prove("low confidence: fewer than three distances of an observable", SBool(got == zb(lor(nh < 3, nv < 3))))
    P.group("confidence flag", confidence)


def fits(P):
    """Projections from any points (distances, rates), by contracts of the fits."""
    import z3
    from pyvc.core import Unsupported
    from pyvc.models import EXP, LOG
    from pyvc.values import SBool, SNum, SSeq, as_num, land, zb
    import paper.main_render_lambda_figure as lf
    eng = P.eng
    XF, YF = z3.Function("distance_of", z3.IntSort(), z3.IntSort()), z3.Function("rate_of", z3.IntSort(), z3.RealSort())

    def points():
        n = P.int("points", 0)

        def y(i):
            t = YF(as_num(i).e)
            eng.assume(z3.And(t > 0, t <= 1))
            return SNum(t)
        return n, (SSeq(n, lambda i: SNum(XF(as_num(i).e)), list), SSeq(n, y, list))

    def is_x(v, n):
        def at():
            i = SNum(eng.fresh("i", z3.IntSort()))
            eng.assume(land(i >= 0, i < n))
            P.prove("the fit is of the distances", as_num(v.at(i)) == SNum(XF(i.e)))
        sized(v, n)
        eng.sub_explore(at)

    def is_log_y(v, n):
        def at():
            i = SNum(eng.fresh("i", z3.IntSort()))
            eng.assume(land(i >= 0, i < n))
            P.prove("the fit is of the logs of the rates", as_num(v.at(i)) == SNum(LOG(YF(i.e))))
        sized(v, n)
        eng.sub_explore(at)

    def sized(v, n):
        if not isinstance(v, SSeq):
            raise Unsupported("points of the fit")
        P.prove("the fit is of all points", as_num(v.n) == n)

    def line():
        n, pts = points()
        eng.callee_contracts = {M + "combo_data": lambda g: pts}
        s, b = P.real("slope"), P.real("intercept")
        calls = []

        def regress(x, y, **k):
            calls.append((x, y))
            if k:
                raise Unsupported("linregress option")
            if isinstance(x, SSeq) or isinstance(y, SSeq):
                is_x(x, n)
                is_log_y(y, n)
                return Line(s, b)
            from scipy.stats import linregress
            return linregress(x, y)
        regress._pyvc_model = True
        P.interp.override(lf.linregress, regress)
        r = P.interp.getattr(group_of(P), "linear_fit_d_to_log_err")
        if len(calls) != 1:
            raise Unsupported("the fit is not one regression")
        if isinstance(calls[0][0], SSeq):
            P.prove("the line is the regression of log rate over distance", land(as_num(r.slope) == s, as_num(r.intercept) == b))
            P.prove("a regression needs two points", n >= 2)
        else:
            P.prove("without two points there is no decay", land(n <= 1, r.slope == 0, r.intercept == 0))
    P.group("fitted line", line)
    P.interp.override(lf.linregress, lf.linregress)

    def lambdas():
        n, pts = points()
        s, b = P.real("slope"), P.real("intercept")
        lo, hi = P.real("lowest slope"), P.real("highest slope")
        eng.assume(land(lo <= s, s <= hi))
        calls = []

        def slopes(*, xs, ys, cost_increase):
            is_x(xs, n)
            is_log_y(ys, n)
            P.prove("a regression needs two points", n >= 2)
            calls.append(cost_increase)
            return lo, s, hi
        eng.callee_contracts = {M + "combo_data": lambda g: pts, M + "linear_fit_d_to_log_err": lambda g: Line(s, b), "probability_util.least_squares_slope_range": slopes}
        g = group_of(P)
        got = method(P, g, "projected_lambda_range")
        P.prove("three values", isinstance(got, tuple) and len(got) == 3)
        if not calls:
            P.prove("without two points there is no suppression", land(n <= 1, *[as_num(v) == 1 for v in got]))
            return
        d = P.real("distance")
        here, there = (as_num(method(P, g, "projected_error", x)) for x in (d, d + 2))
        E = {k: EXP(z3.simplify(v.real_term())) for k, v in (("lo", lo), ("mid", s), ("hi", hi))}
        t = EXP(z3.simplify((s * d + b).real_term()))
        # laws of the exponential function, where used
        eng.assume(z3.And(EXP(z3.simplify((s * (d + 2) + b).real_term())) == t * E["mid"] * E["mid"], E["lo"] <= E["mid"], E["mid"] <= E["hi"], E["lo"] > 0, t > 0))
        for v, k in zip(got, ("lo", "mid", "hi")):
            P.prove(f"suppression at the {k} slope is exp(-2 slope)", as_num(v) * SNum(E[k]) * SNum(E[k]) == 1)
        P.prove("lambda is the projected error over that two distance steps on", SBool(z3.Implies(zb(as_num(got[1]) * SNum(E["mid"]) * SNum(E["mid"]) == 1), zb(as_num(got[1]) * there == here))))
        inv = [SNum(E[k]) for k in ("lo", "mid", "hi")]
        a = [as_num(v) for v in got]
        P.prove("the range brackets the estimate", order(P, a, inv))
    P.group("lambda range", lambdas)

    def needed():
        d = P.real("projected")
        calls = []

        def to_q(g, dd, style):
            calls.append((dd, style))
            return SNum(z3.Int("count"))
        eng.callee_contracts = {M + "projected_distance": lambda g, target_error: d, M + "_d_to_q": to_q}
        got = method(P, group_of(P), "projected_required_qubit_count", P.real("target", 0, 1), "surface_SD6")
        if len(calls) != 1:
            raise Unsupported("required count")
        P.prove("the distance is rounded up to a whole one", land(as_num(calls[0][0]) >= d, as_num(calls[0][0]) < d + 1, SBool(zb(as_num(calls[0][0]).is_int_sort))))
        P.prove("the count is that of the distance and style", land(as_num(got) == SNum(z3.Int("count")), calls[0][1] == "surface_SD6"))
    P.group("required qubits", needed)

    def between():
        n, pts = points()
        lo, hi, e = P.real("lowest"), P.real("highest"), P.real("target", 0, 1)
        eng.assume(land(e > 0, lo <= hi))
        DQ = z3.Function("count_of", z3.IntSort(), z3.RealSort())
        calls = []

        def to_q(g, dd, style):
            dd = as_num(dd)
            P.prove("counts are of whole distances and the given style", land(SBool(zb(dd.is_int_sort)), style == "honeycomb_SD6"))
            return SNum(DQ(dd.e))

        def outputs(*, xs, ys, target_x, cost_increase):
            is_log_y(xs, n)
            is_x(ys, n)
            P.prove("a regression needs two points", n >= 2)
            P.prove("the range is at the log of the target", as_num(target_x) == SNum(LOG(e.real_term())))
            calls.append(1)
            return lo, hi

        def single(g, target_error, style):
            P.prove("the count is for the target", land(as_num(target_error) == e, style == "honeycomb_SD6"))
            return SNum(z3.Real("the_count"))
        eng.callee_contracts = {M + "combo_data": lambda g: pts, M + "_d_to_q": to_q, "probability_util.least_squares_output_range": outputs, M + "projected_required_qubit_count": single}
        got = method(P, group_of(P), "projected_qubit_count_range", e, "honeycomb_SD6")
        P.prove("two counts", isinstance(got, tuple) and len(got) == 2)
        if calls:
            P.prove("the counts are those of the ends of the range, rounded up",
                    land(*[as_num(v) == SNum(DQ(-z3.ToInt(-z3.Real(nm)))) for v, nm in zip(got, ("lowest", "highest"))]))
        else:
            P.prove("a single point has no range", land(n <= 1, *[as_num(v) == SNum(z3.Real("the_count")) for v in got]))
    P.group("range of required qubits", between)
    eng.callee_contracts = {}


def order(P, a, inv):
    """a[i] * inv[i]**2 == 1 and 0 < inv[0] <= inv[1] <= inv[2]: a is descending."""
    import z3
    from pyvc.values import SBool, land, zb
    pre = [zb(x * y * y == 1) for x, y in zip(a, inv)]
    x, y, p, q = z3.Reals("x y p q")
    lemma = z3.Implies(z3.And(x * p * p == 1, y * q * q == 1, 0 < p, p <= q), x >= y)
    P.prove("lemma: greater reciprocals of squares are smaller", SBool(lemma))
    out = []
    for i in (0, 1):
        P.eng.assume(z3.substitute(lemma, (x, a[i].real_term()), (y, a[i + 1].real_term()), (p, inv[i].real_term()), (q, inv[i + 1].real_term())))
        out.append(a[i] >= a[i + 1])
    return land(*out)


def only(env, kind):
    """Name of the one empty container of that type among the variables; what the loop collects into."""
    from pyvc.core import Unsupported
    names = [k for k, v in env.items() if type(v).__name__ == kind and len(v) == 0 and getattr(v, "fam", None) is None and not getattr(v, "sym", ())]
    if not names:
        raise Unsupported("what the loop collects into")
    return names


def prove_groups(P):
    import z3
    import collect_data as cd
    import paper.main_render_lambda_figure as lf
    from pyvc.core import Unsupported
    from pyvc.folds import AMap, Fold
    from pyvc.values import SAtom, SBool, SNum, U, as_num, implies, land, lnot, lor, value_eq, zb
    eng = P.eng
    R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
    PRES = z3.Function("has_noise", R, B)
    PART = [z3.Function(f"{o}_has", R, I, B) for o in "hv"]
    VAL = [z3.Function(f"{o}_value", R, I, U) for o in "hv"]
    ORIG = {}

    def real(k):
        return z3.simplify(as_num(k).real_term())

    def pairs(o, k):
        return AMap(lambda: SNum(eng.fresh("d", I)), lambda d: SBool(PART[o](real(k), as_num(d).e)), lambda d: SAtom(VAL[o](real(k), as_num(d).e)))

    def a_group(k):
        g = lf.LambdaGroup(SNum(real(k)), Rep(), pairs(0, k), pairs(1, k))
        ORIG[id(g)] = (g, g.rep)
        return g

    def fold_of():
        st = {}

        def state(env, phase):
            name = st.setdefault("name", None) or only(env, "MDict")
            st["name"] = name
            if len(name) != 1:
                raise Unsupported("more than one dictionary")
            if phase == "names":
                return name
            st["res"] = AMap(lambda: SNum(eng.fresh("k", R)), lambda k: SBool(PRES(real(k))), a_group)
            return {name[0]: st["res"]}

        def entry(env):
            v = env[only(env, "MDict")[0]]
            P.prove("grouping starts with nothing", len(v) == 0)

        def slot(x):
            o = 0 if x.preserved_observable in "HX" else 1
            k, d = real(x.noise), as_num(x.code_distance).e
            return o, SBool(z3.And(PRES(k), PART[o](k, d)))

        def check(pre, env, e):
            key, val = e
            o, taken = slot(key)
            P.prove("a second problem for the same place is refused", lnot(taken))
            eng.assume(lnot(taken))
            m = st["res"]
            P.prove("the groups are carried on", any(v is m for v in env.values()))
            k = SNum(eng.fresh("level", R))
            before = bool(SBool(PRES(k.e)))
            mine = bool(k == key.noise)
            ok, g = m.lookup(k)
            P.prove("there is a group for the problem's noise level and no other new one", ok == (before or mine))
            if not ok:
                return
            P.prove("groups are of their noise level", as_num(g.noise) == k)
            P.prove("the representative is one of the group's problems", (g.rep is ORIG[id(g)][1]) if before and id(g) in ORIG else g.rep is key)
            for o2, part in enumerate((g.distance_error_pairs_h, g.distance_error_pairs_v)):
                d = SNum(eng.fresh("d", I))
                had = bool(SBool(PART[o2](k.e, d.e))) if before else False
                new = mine and o2 == o and bool(d == key.code_distance)
                if isinstance(part, AMap):
                    ok2, v2 = part.lookup(d)
                else:
                    v2 = P.interp.call(part.get, (d,), {})
                    ok2 = v2 is not None
                P.prove("a step adds the problem at its distance and observable and nothing else", ok2 == (had or new))
                if ok2:
                    P.prove("results are those of the problem", value_eq(v2, val if new else SAtom(VAL[o2](k.e, d.e))))

        def on_raise(pe, pre, e):
            o, taken = slot(e[0])
            P.prove(f"refused ({type(pe.exc).__name__}) only when the place is taken", taken)
        return Fold("grouping", state, check, entry, on_raise=on_raise), st

    def go():
        ORIG.clear()
        fold, st = fold_of()

        def entry():
            key = Rep(noise=SNum(eng.fresh("noise", R)), code_distance=SNum(eng.fresh("distance", I)), preserved_observable="HVXZ"[eng.choose(4)],
                      rounds=SNum(eng.fresh("rounds", I)), num_qubits=SNum(eng.fresh("qubits", I)), circuit_style="some", decoder="some")
            return key, SAtom(eng.fresh("val", U))
        src = AMap(None, None, None, items_stream=fold)
        src._entry = entry
        data = cd.ProblemShotData(src)
        r = P.call(lf.LambdaGroup.groups_from_data, data)
        if not fold.used:
            raise Unsupported("grouping does not go through the data")
        if r is not st["res"]:
            raise Unsupported("the groups are not what is returned")
        P.prove("the source is not written to", not src.writes)
    P.group("grouping", go)


def prove_combo(P):
    import z3
    import collect_data as cd
    import paper.main_render_lambda_figure as lf
    from pyvc.core import Unsupported
    from pyvc.folds import AMap, Fold, SSet, Stream
    from pyvc.values import SBool, SNum, Sym, as_num, ite, land, lor, zb
    eng = P.eng
    I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
    HAS = [z3.Function(f"{o}_at", I, B) for o in "hv"]
    SHOTS = [z3.Function(f"{o}_shots", I, I) for o in "hv"]
    RIGHT = [z3.Function(f"{o}_correct", I, I) for o in "hv"]
    PP = z3.Function("per_piece_rate", R, I, R)

    class Acc(Sym):
        """A list under construction: only what is appended now is known."""
        py_type = list

        def __init__(self):
            self.token = object()

        new = property(lambda self: eng.local.get(self.token, ()))

        def append(self, v):
            eng.local[self.token] = self.new + (v,)

        def __bool__(self):
            raise Unsupported("truth value of a list under construction")

        def __hash__(self):
            return id(self)

    class Ascending(SSet):
        """Sorted elements of a set, gone through in order."""
        py_type = list
        fold = None

        def run_for(self, interp, node, scope):
            self.fold.run_for(interp, node, scope, self)

        def pick(self):
            x = SNum(eng.fresh("d", I))
            eng.assume(self.has(x))
            return x

        def sym_source(self):
            return self

        def __hash__(self):
            return id(self)

    class Keys(SSet):
        py_type = set

        def _with(self, o, f):
            o = SSet.of(o)
            return NotImplemented if o is None else Keys(lambda t, a=self.pred, b=o.pred: f(a(t), b(t)))

        def as_sorted(self):
            r = Ascending(self.pred)
            r.fold = self.fold
            return r

        def as_set(self):
            return self

        def as_list(self):
            raise Unsupported("a set in no particular order")

        def __hash__(self):
            return id(self)

    def go():
        st = {}

        def state(env, phase):
            st["names"] = st.get("names") or only(env, "MList")
            if len(st["names"]) != 2:
                raise Unsupported("two lists are expected")
            if phase == "names":
                return st["names"]
            st["res"] = {n: Acc() for n in st["names"]}
            return dict(st["res"])

        def check(pre, env, d):
            P.prove("the points are carried on", all(env[n] is v for n, v in st["res"].items()))
            accs = list(st["res"].values())
            has = [bool(SBool(HAS[o](d.e))) for o in (0, 1)]
            rates = []
            for o in (0, 1):
                w = o if has[o] else 1 - o
                n, c = SNum(SHOTS[w](d.e)), SNum(RIGHT[w](d.e))
                # without shots the rate is one
                rates.append(ite(zb(n == 0), as_num(1.0), (n - c) / ite(zb(n == 0), as_num(1), n)))
            some = bool(land(rates[0] > 0, rates[1] > 0))
            lens = sorted(len(a.new) for a in accs)
            P.prove("a distance is a point exactly when both observables have errors", lens == ([1, 1] if some else [0, 0]))
            if lens != [1, 1] or not some:
                return
            cells = (ROUNDS + D - 1) // D
            a, b = (SNum(PP(z3.simplify(r.real_term()), z3.simplify(cells.e))) for r in rates)
            want = 1 - (1 - a) * (1 - b)
            # Which list is which is decided by the returned order, see below.
            xs, ys = (st["res"][n] for n in st["order"])
            P.prove("the point is at the distance", as_num(xs.new[0]) == d)
            P.prove("the rate is the chance that either observable fails in a cell", as_num(ys.new[0]) == want)

        ROUNDS, D = P.int("rounds", 1), P.int("code_distance", 1)
        fold = Fold("points", state, check)
        Keys.fold = fold

        def shots(o):
            def value(d):
                n, c = SNum(SHOTS[o](as_num(d).e)), SNum(RIGHT[o](as_num(d).e))
                eng.assume(land(n >= 0, c >= 0, c <= n))
                return cd.ShotData(n, c, 1.0)
            return value

        class Pairs(AMap):
            def keys(self):
                return Keys(lambda t: self.present(SNum(t)).e)
            sym_source = keys

            def as_set(self):
                return self.keys()

        parts = [Pairs(None, lambda d, o=o: SBool(HAS[o](as_num(d).e)), shots(o)) for o in (0, 1)]

        def per_piece(error_rate, pieces):
            e, k = as_num(error_rate), as_num(pieces)
            eng.prove("callee precondition: a rate and at least one piece", land(e >= 0, e <= 1, k >= 1))
            t = PP(z3.simplify(e.real_term()), z3.simplify(k.e) if k.is_int_sort and k.den == 1 else z3.ToInt(k.real_term()))
            eng.assume(z3.And(t >= 0, t <= 1, (t > 0) == (z3.simplify(e.real_term()) > 0)))
            return SNum(t)
        eng.callee_contracts = {"plotting.total_error_to_per_piece_error": per_piece}
        rep = Rep(rounds=ROUNDS, code_distance=D)
        st["order"] = order_of(P, lf)
        r = P.interp.getattr(group_of(P, rep, *parts), "combo_data")
        if not fold.used or not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported("points are collected in another way")
        P.prove("the points are what is returned", all(r[i] is st["res"][n] and not r[i].new for i, n in enumerate(st["order"])))
        P.prove("the results are not written to", not any(p.writes for p in parts))
    P.group("points", go)
    eng.callee_contracts = {}


def order_of(P, lf):
    """Names of the returned lists, from the return statement of combo_data."""
    import ast
    import inspect
    import textwrap
    from pyvc.core import Unsupported
    f = lf.LambdaGroup.__dict__["combo_data"]
    f = getattr(f, "func", getattr(f, "fget", f))
    rets = [n for n in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(f)))) if isinstance(n, ast.Return)]
    if len(rets) != 1 or not isinstance(rets[0].value, ast.Tuple) or not all(isinstance(e, ast.Name) for e in rets[0].value.elts) or len(rets[0].value.elts) != 2:
        raise Unsupported("return of combo_data")
    return [e.id for e in rets[0].value.elts]
