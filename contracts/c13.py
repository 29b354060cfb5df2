"""C13: predictions are matched to shots, are minimum-weight explanations, and are counted exactly."""
import math

from contracts.common import require

BUDGET = {"quick": 90, "thorough": 900}
CHUNK = 4
EXPLANATION = ("sample_decode_count_correct for any numbers of shots, detectors and observables, any samples and any predictions, all decoder names, with and without a model circuit; "
               "decode_using_pymatching shot by shot (induction over the shots); detector_error_model_to_pymatching_graph leaves the graph of C12 as it is")
ASSUMPTIONS = ["pymatching.Matching.decode returns the observable flips of a minimum-weight explanation of the symptoms handed in (checked by enumeration on bounded models)",
               "stim's sampler, its error model and numpy's boolean arrays behave as documented", "the single-error clause follows from minimality; it is also checked on generated circuits"]
BOUND = "circuits realising random graph-like error models (up to 7 detectors, 0-4 observables), all syndromes; counting with up to 70 shots and arbitrary predictions"


def build(rng, nd, no, ne, pick):
    """A circuit with nd detectors, no observables and ne random graph-like errors."""
    import stim
    c = stim.Circuit()
    if nd + no:
        c.append("R", range(nd + no))
    for _ in range(ne):
        ds = rng.sample(range(nd), min(nd, rng.choice([1, 2, 2, 2])))
        os = [o for o in range(no) if rng.random() < 0.35]
        ts = [stim.target_x(d) for d in ds] + [stim.target_x(nd + o) for o in os]
        if ts:
            c.append("CORRELATED_ERROR", ts, pick())
    if nd + no:
        c.append("M", range(nd + no))
    for d in range(nd):
        c.append("DETECTOR", [stim.target_rec(d - nd - no)], [d, 0, 0])
    for o in range(no):
        c.append("OBSERVABLE_INCLUDE", [stim.target_rec(o - no)], o)
    return c


def cases(tier, rng):
    for nd in (1, 3):
        for no in (0, 1, 2, 3):
            yield {"kind": "count", "nd": nd, "no": no, "shots": 40, "seed": nd * 10 + no}
    for nd, no, shots in ((1, 1, 7001), (2, 2, 40009), (3, 90, 5), (700, 1, 9)):
        yield {"kind": "count", "nd": nd, "no": no, "shots": shots, "seed": nd * 10 + no}
    for _ in range(120 if tier == "quick" else 2000):
        yield {"kind": "count", "nd": rng.randint(1, 6), "no": rng.randint(0, 4), "shots": rng.choice([1, 2, 7, 8, 9, 64, 65, 70]), "seed": rng.randint(0, 10 ** 9)}
    for _ in range(160 if tier == "quick" else 3000):
        yield {"kind": "match", "nd": rng.randint(1, 6), "no": rng.randint(0, 4), "ne": rng.randint(1, 12), "seed": rng.randint(0, 10 ** 9)}
    for _ in range(12 if tier == "quick" else 100):
        yield {"kind": "perfect", "nd": rng.randint(1, 5), "no": rng.randint(0, 4), "seed": rng.randint(0, 10 ** 9)}
    for st in ("SD6", "EM3_v2", "EM3", "PC3", "SI1000"):
        yield {"kind": "single", "style": st, "obs": rng.choice("HV"), "seed": rng.randint(0, 10 ** 9)}


def explanations(edges, B, nd):
    """weight of the best explanation of each (syndrome, observables) pair: Bellman over edge toggles."""
    best = {(0, 0): 0.0}
    for e, (p, obs) in edges.items():
        w = math.log((1 - p) / p)
        s = 0
        for n in e:
            if n != B:
                s ^= 1 << n
        m = 0
        for o in obs:
            m ^= 1 << o
        nxt = dict(best)
        for (a, b), v in best.items():
            k = (a ^ s, b ^ m)
            if v + w < nxt.get(k, math.inf):
                nxt[k] = v + w
        best = nxt
    return best


def run_case(c):
    import random
    import numpy as np
    import decoding
    import stim
    rng = random.Random(c["seed"])
    if c["kind"] == "count":
        nd, no = c["nd"], c["no"]
        # every observable equals detector (k % nd), so that the truth is visible to the decoder
        circ = stim.Circuit()
        circ.append("X_ERROR", range(nd), 0.5)
        circ.append("M", range(nd))
        for d in range(nd):
            circ.append("DETECTOR", [stim.target_rec(d - nd)])
        for o in range(no):
            circ.append("OBSERVABLE_INCLUDE", [stim.target_rec(o % nd - nd)], o)
        model = None
        if rng.random() < 0.5:
            model = circ.copy()
            model.append("X_ERROR", [0], 0.25)
        calls = []

        def fake(*args, **kw):
            names = ["circuit", "det_samples", "use_correlated_decoding"]
            kw.update(dict(zip(names, args)))
            ds = np.asarray(kw["det_samples"])
            require(ds.shape == (c["shots"], nd), f"the decoder was handed {ds.shape}, expected {(c['shots'], nd)}")
            pred = np.zeros((c["shots"], no), dtype=np.bool_)
            for o in range(no):
                pred[:, o] = ds[:, o % nd]
            good = c["shots"]
            for s in range(c["shots"]):
                bad = [o for o in range(no) if rng.random() < rng.choice([0, 0.3, 1])]
                for o in bad:
                    pred[s, o] = not pred[s, o]
                good -= bool(bad)
            calls.append((kw["circuit"], kw["use_correlated_decoding"], good))
            return pred
        for dec, name, corr in (("pymatching", "decode_using_pymatching", False), ("internal", "decode_using_internal_decoder", False),
                                ("internal_correlated", "decode_using_internal_decoder", True)):
            calls.clear()
            old = getattr(decoding, name)
            setattr(decoding, name, fake)
            try:
                kw = {} if model is None else {"model_circuit": model}
                got = decoding.sample_decode_count_correct(circuit=circ, num_shots=c["shots"], decoder=dec, **kw)
            finally:
                setattr(decoding, name, old)
            require(len(calls) == 1, f"decoder {dec!r} was called {len(calls)} times")
            require(calls[0][0] == (model if model is not None else circ), "the decoder was configured with the wrong circuit")
            require(bool(calls[0][1]) == corr, f"decoder {dec!r} asked for correlated={calls[0][1]}")
            require(int(got) == calls[0][2], f"{int(got)} correct shots reported, {calls[0][2]} of {c['shots']} predictions agree with the actual flips ({no} observables)")
        bad_model = stim.Circuit("M 0\nDETECTOR rec[-1]\n" + "DETECTOR rec[-1]\n" * nd)
        for mc, dec in ((bad_model, "pymatching"), (None, "other")):
            try:
                decoding.sample_decode_count_correct(circuit=circ, model_circuit=mc, num_shots=2, decoder=dec)
            except Exception:
                continue
            require(False, "a mismatched model circuit or an unknown decoder was accepted")
        try:
            decoding.decode_using_pymatching(circ, np.zeros((1, nd), dtype=np.bool_), True)
        except Exception:
            pass
        else:
            require(False, "pymatching accepted correlated decoding")
        return
    if c["kind"] == "perfect":
        nd, no = c["nd"], c["no"]
        circ = stim.Circuit()
        circ.append("R", range(nd + no))
        for d in range(nd):
            ts = [stim.target_x(d)] + [stim.target_x(nd + o) for o in range(no) if rng.random() < 0.5]
            circ.append("CORRELATED_ERROR", ts, rng.choice([0.1, 0.3, 0.45]))
        fails = rng.random() < 0.5 and no > 0
        if fails:
            circ.append("X_ERROR", [nd + rng.randrange(no)], 1)
        circ.append("M", range(nd + no))
        for d in range(nd):
            circ.append("DETECTOR", [stim.target_rec(d - nd - no)])
        for o in range(no):
            circ.append("OBSERVABLE_INCLUDE", [stim.target_rec(o - no)], o)
        # the certain, symptomless flip cannot be predicted, everything else is
        model = stim.Circuit(str(circ).replace("X_ERROR(1)", "I"))
        got = decoding.sample_decode_count_correct(circuit=circ, model_circuit=model, num_shots=33, decoder="pymatching")
        require(int(got) == (0 if fails else 33), f"{int(got)} of 33 shots reported correct, expected {0 if fails else 33}")
        return
    if c["kind"] == "single":
        from honeycomb_layout import HoneycombLayout
        circ = HoneycombLayout(data_width=4, data_height=6, sub_rounds=6, style=c["style"], obs=c["obs"], noise=0.001).make_circuit()
    else:
        circ = build(rng, c["nd"], c["no"], c["ne"], lambda: rng.choice([0.1, 0.01, 0.2, 0.001, 0.3, rng.random() * 0.45 + 1e-4]))
    dem = circ.detector_error_model(decompose_errors=True)
    from contracts import c12
    edges, _, B = c12.reference(dem)
    nd, no = circ.num_detectors, circ.num_observables
    if c["kind"] == "match":
        syn = list(range(2 ** nd))
        rng.shuffle(syn)
        best = explanations(edges, B, nd)
    else:
        es = list(edges.items())
        rng.shuffle(es)
        es = es[:60]
        syn = []
    rows = np.zeros((len(syn) if syn else len(es), nd), dtype=np.bool_)
    if syn:
        for i, s in enumerate(syn):
            for d in range(nd):
                rows[i, d] = s >> d & 1
    else:
        for i, (e, _) in enumerate(es):
            for n in e:
                if n != B:
                    rows[i, n] ^= True
    keep = rows.copy()
    pred = decoding.decode_using_pymatching(circ, rows, False)
    require((rows == keep).all(), "the samples handed in were modified")
    require(pred.shape == (len(rows), no), f"predictions of shape {pred.shape}")
    if syn:
        for i, s in enumerate(syn):
            m = min((v for (a, b), v in best.items() if a == s), default=None)
            if m is None:
                continue
            o = sum(int(pred[i, k]) << k for k in range(no))
            w = best.get((s, o))
            require(w is not None and w <= m + 0.02, f"symptoms {s:b}: predicted flips {o:b} have best explanation weight {w}, the minimum is {m} in\n{str(dem)[:700]}")
    else:
        import heapq
        adj = {}
        for e, (p, obs) in edges.items():
            a, b = tuple(e)
            w = math.log((1 - p) / p)
            m = sum(1 << o for o in obs)
            adj.setdefault(a, []).append((b, w, m))
            adj.setdefault(b, []).append((a, w, m))
        for i, (e, (p, obs)) in enumerate(es):
            a, b = tuple(e)
            dist = {}
            q = [(0.0, a, 0)]
            lim = math.log((1 - p) / p) + 1e-6
            while q:
                d, n, m = heapq.heappop(q)
                if (n, m) in dist or d > lim:
                    continue
                dist[n, m] = d
                for n2, w2, m2 in adj[n]:
                    heapq.heappush(q, (d + w2, n2, m ^ m2))
            here = {m: d for (n, m), d in dist.items() if n == b}
            mine = sum(1 << o for o in obs)
            others = [d for m, d in here.items() if m != mine]
            # (alternatives through the boundary are covered because the boundary is an ordinary node here)
            if others and min(others) <= here[mine] + 0.02:
                continue
            o = sum(int(pred[i, k]) << k for k in range(no))
            require(o == mine, f"the single error with symptoms {sorted(e)} flips {mine:b} but the prediction is {o:b}")


# ------------------------------------------------------------------ obligations
def shots(P):
    """Symbols: S shots, D detectors, O observables; BIT(i, j) what was sampled, FLIP(i, j) what the decoder predicts."""
    import z3
    from pyvc.values import SBool, SNum, as_num
    I, B = z3.IntSort(), z3.BoolSort()
    D, O, S = P.int("detectors", 0), P.int("observables", 0), P.int("shots", 0)
    bit, flip = z3.Function("sampled", I, I, B), z3.Function("predicted", I, I, B)
    BIT = lambda i, j: SBool(bit(as_num(i).e, as_num(j).e))
    FLIP = lambda i, j: SBool(flip(as_num(i).e, as_num(j).e))
    return D, O, S, BIT, FLIP


def some_cases(kind, n=12):
    import random
    rng = random.Random(1)
    return lambda model: [c for c in cases("quick", rng) if c["kind"] == kind][:n]


def prove_counting(P, decoder, small):
    """sample_decode_count_correct for any numbers of shots, detectors and observables, and any predictions."""
    import decoding
    from contracts import arrays
    from contracts.arrays import Forall, Mat, counted
    from pyvc import core
    from pyvc.values import SBool, SNum, as_num, land, lor, value_eq, zb
    eng = P.eng
    arrays.install(P)
    D, O, S, BIT, FLIP = shots(P)
    if small is not None:
        eng.assume(O == small)
    given = eng.choose(2) == 1

    class Sampler:
        _pyvc_model = True

        def sample(self, shots, *, append_observables=False, prepend_observables=False, separate_observables=False, bit_packed=False):
            P.prove("as many shots are sampled as were asked for", value_eq(as_num(shots), S), wit)
            if bit_packed or prepend_observables:
                raise core.Unsupported("sampling options")
            kept = lambda: P.prove("the samples are left as they are", False, wit)
            if separate_observables:
                return Mat(S, D, BIT, kept), Mat(S, O, lambda i, j: BIT(i, as_num(j) + D), kept)
            return Mat(S, D + O if append_observables else D, BIT, kept)

    class Circuit:
        _pyvc_model = True

        def __init__(self, name, d, o):
            self.name, self.num_detectors, self.num_observables = name, d, o

        def compile_detector_sampler(self, **k):
            P.prove("the shots are sampled from the circuit", self.name == "circuit", wit)
            if k:
                raise core.Unsupported("sampler options")
            return Sampler()
    circuit = Circuit("circuit", D, O)
    model = Circuit("model", P.int("model_detectors", 0), P.int("model_observables", 0)) if given else None
    fits = land(model.num_detectors == D, model.num_observables == O) if given else SBool(zb(True))
    used = model if given else circuit
    wit = some_cases("count")

    def decodes(which):
        def contract(circuit, det_samples, use_correlated_decoding):
            P.prove("the decoder that was asked for is used", decoder in ({"pymatching"} if which == "pymatching" else {"internal", "internal_correlated"}), wit)
            P.prove("correlated decoding is used exactly when asked for", value_eq(use_correlated_decoding, decoder == "internal_correlated"), wit)
            P.prove("the decoder is configured with the model circuit, or else the circuit", circuit is used, wit)
            if not isinstance(det_samples, Mat):
                raise core.Unsupported("symptoms that are not an array")
            ok = P.prove("the decoder gets one row per shot", value_eq(det_samples.n, S), wit)
            ok = P.prove("the decoder gets one column per detector", value_eq(det_samples.m, D), wit) and ok
            if ok:
                i, j = SNum(eng.fresh("shot", S.e.sort())), SNum(eng.fresh("det", S.e.sort()))

                def point():
                    eng.assume(land(i >= 0, i < S, j >= 0, j < D))
                    P.prove("the decoder gets the symptoms of the shots, in order", value_eq(det_samples.at(i, j), BIT(i, j)), wit)
                eng.sub_explore(point)
            if not bool(value_eq(det_samples.m, as_num(used.num_detectors))):
                raise core.PyExc(AssertionError("precondition of the decoder"))
            return Mat(S, used.num_observables, FLIP)
        return contract
    eng.callee_contracts = {"decoding.decode_using_pymatching": decodes("pymatching"), "decoding.decode_using_internal_decoder": decodes("internal")}
    kw = {"model_circuit": model} if given else {}
    try:
        result = P.call(decoding.sample_decode_count_correct, circuit=circuit, num_shots=S, decoder=decoder, **kw)
    except core.PyExc as pe:
        if decoder == "other":
            P.prove("an unknown decoder is refused", True)
            return
        eng.path = list(getattr(pe, "path", None) or eng.path)
        P.prove(f"only a model that does not fit is refused ({type(pe.exc).__name__})", not_(fits) if given else False, wit)
        return
    P.prove("an unknown decoder is refused", decoder != "other", wit)
    P.prove("a model that does not fit is refused", fits, wit)
    n, pred = counted(result)
    P.prove("the count is over all shots", value_eq(n, S), wit)
    i = SNum(eng.fresh("shot", S.e.sort()))
    eng.assume(land(i >= 0, i < S))
    right = Forall(O, lambda j: value_eq(FLIP(i, j), BIT(i, as_num(j) + D)))
    got = pred(i)
    if isinstance(got, Forall) and got.neg == right.neg and arrays.same(got.n, O):
        j = SNum(eng.fresh("obs", S.e.sort()))
        eng.assume(land(j >= 0, j < O))
        P.prove("a shot counts when each predicted flip equals the actual one", value_eq(got.el(j), right.el(j)), wit)
        return
    P.prove("a shot counts exactly when all its predicted flips equal the actual ones", value_eq(SBool(zb(got)), SBool(zb(right))), wit)


def not_(b):
    from pyvc.values import lnot
    return lnot(b)


def prove_matching(P, correlated):
    """decode_using_pymatching: every shot's own symptoms are decoded and its own prediction reported."""
    import decoding
    from contracts import arrays
    from contracts.arrays import Loops, Mat, Ranged, Row, in_order, same
    from pyvc import core
    from pyvc.values import SBool, SNum, as_num, ite, land, lor, value_eq, zb
    eng = P.eng
    arrays.install(P)
    D, O, S, BIT, FLIP = shots(P)
    wit = some_cases("match")
    dem, det = object(), Mat(S, D, BIT, lambda: P.prove("the samples handed in are left as they are", False, wit))

    class Circuit:
        _pyvc_model = True
        num_detectors, num_observables = D, O

        def detector_error_model(self, *, decompose_errors=False, **k):
            if any(k.values()):
                raise core.Unsupported("options of the error model")
            P.prove("the error model is decomposed into graph-like errors", decompose_errors, wit)
            return dem
    circuit = Circuit()

    class Matching:
        _pyvc_model = True

        def decode(self, v, **k):
            if k or not isinstance(v, Row):
                raise core.Unsupported("options of decode")
            P.prove("the symptoms have one entry per detector, and at most two more", lor(value_eq(v.n, D + 1), value_eq(v.n, D + 2)), wit)
            r = v.hint if v.hint is not None else shot.index
            if r is None:
                raise core.Unsupported("symptoms of no shot")
            j = SNum(eng.fresh("det", D.e.sort()))

            def point():
                eng.assume(land(j >= 0, j < v.n, SBool(j.e != D.e)))
                P.prove("the symptoms are those of one shot", value_eq(v.at(j), ite(zb(j < D), BIT(r, j), False)), wit)
            eng.sub_explore(point)
            return Row(O, lambda j: FLIP(r, j))
    matching = Matching()

    def graph(model):
        P.prove("the graph is that of the circuit's error model", model is dem, wit)
        return matching

    def made(env):
        ms = {id(v): v for v in env.values() if isinstance(v, Mat) and v.frozen is None and same(v.n, S) and same(v.m, O)}
        if len(ms) != 1:
            raise core.Unsupported("not exactly one array of predictions")
        return list(ms.values())[0]

    def state(env, i):
        if i is not None:
            m = made(env)
            old = m.at
            m.at = lambda r, c: ite(zb(as_num(r) < i), FLIP(r, c), old(r, c))
        return {}

    def check(env, i):
        m = made(env)
        r, c = SNum(eng.fresh("shot", S.e.sort())), SNum(eng.fresh("obs", S.e.sort()))

        def point():
            eng.assume(land(r >= 0, r < i, c >= 0, c < O))
            P.prove("the predictions of the earlier shots are in place", value_eq(m.at(r, c), FLIP(r, c)), wit)
        eng.sub_explore(point)

    def state2(env, j):
        if j is not None:
            m = made(env)
            old, k = m.at, shot.index
            m.at = lambda r, c: ite(zb(land(value_eq(as_num(r), k), as_num(c) < j)), FLIP(r, c), old(r, c))
        return {}

    def check2(env, j):
        m, k = made(env), shot.index
        r, c = SNum(eng.fresh("shot", S.e.sort())), SNum(eng.fresh("obs", S.e.sort()))

        def point():
            eng.assume(land(r >= 0, c >= 0, c < O, lor(r < k, land(value_eq(r, k), c < j))))
            P.prove("the predictions of the earlier shots and observables are in place", value_eq(m.at(r, c), FLIP(r, c)), wit)
        eng.sub_explore(point)
    shot = Ranged("shots", lambda src, sc: same(src.n, S) and in_order(src), S, state, check)
    obs = Ranged("observables", lambda src, sc: shot.index is not None and same(src.n, O) and in_order(src), O, state2, check2)
    P.interp.loop_rules[:] = [Loops(shot, obs)]
    eng.callee_contracts = {"decoding.detector_error_model_to_pymatching_graph": graph}
    try:
        got = P.call(decoding.decode_using_pymatching, circuit, det, correlated)
    except core.PyExc as pe:
        if correlated and isinstance(pe.exc, Exception):
            P.prove("correlated decoding is refused", True)
            return
        raise
    P.prove("correlated decoding is refused", not correlated, wit)
    if not isinstance(got, Mat):
        raise core.Unsupported("predictions that are not an array")
    P.prove("there is one row per shot", value_eq(got.n, S), wit)
    P.prove("there is one column per observable", value_eq(got.m, O), wit)
    r, c = SNum(eng.fresh("shot", S.e.sort())), SNum(eng.fresh("obs", S.e.sort()))
    eng.assume(land(r >= 0, r < S, c >= 0, c < O))
    P.prove("the prediction of each shot and observable is that of its own symptoms", value_eq(got.at(r, c), FLIP(r, c)), wit)


def prove_graph(P):
    """detector_error_model_to_pymatching_graph leaves the graph of C12 alone, up to far-away edges to one more node."""
    import z3
    import pymatching
    import decoding
    from contracts.arrays import same
    from pyvc import core
    from pyvc.interp import _depth, _log
    from pyvc.values import Fam, SBool, SNum, SSeq, Sym, as_num, land, lor, value_eq
    eng = P.eng
    D, O = P.int("detectors", 0), P.int("observables", 0)
    wit = some_cases("match")

    class Graph(Sym):
        """The graph of C12 on the nodes 0..D, and what was added."""
        born = 0

        def __init__(self):
            self.added = []

        def note(self, e):
            if _depth() and eng.journal is not None:
                _log(self, "add", e)
            else:
                self.added.append(lambda e=e: e)

        def add_family(self, fam, src):
            self.added.append(fam.pick)

        def add_node(self, n, **attrs):
            n = as_num(n)
            P.prove("a node's data is left as it is", lor(not attrs, n > D), wit)
            P.prove("nodes are numbered without a gap", land(n >= 0, n <= D + 1), wit)
            self.note(("node", n, n))

        def add_nodes_from(self, ns):
            from pyvc.interp import _as_source
            src = _as_source(ns)
            if src is None:
                for n in ns:
                    self.add_node(n)
                return

            def one():
                self.add_node(src.pick())
            old, eng.journal = eng.journal, []
            d, eng.journal_depth = eng.journal_depth, 1
            try:
                eng.sub_explore(one)
            finally:
                eng.journal, eng.journal_depth = old, d
            self.added.append(lambda: ("node",) + (lambda n: (n, n))(as_num(src.pick())))

        def add_edge(self, u, v, **attrs):
            u, v = as_num(u), as_num(v)
            P.prove("an edge of the error model is left as it is", lor(u > D, v > D), wit)
            P.prove("nodes are numbered without a gap", land(u >= 0, v >= 0, u <= D + 1, v <= D + 1), wit)
            w = attrs.get("weight")
            P.prove("another edge is so unlikely that it explains nothing", w is not None and as_num(w) >= 1000, wit)
            self.note(("edge", u, v, attrs.get("qubit_id")))

        def has(self, kind, u, v):
            found = []
            for f in self.added:
                def is_it(f=f):
                    e = f()
                    if e[0] != kind and not (kind == "node" and e[0] == "edge"):
                        raise core.PathEnd("other")
                    if kind == "node":
                        return lor(value_eq(e[1], u), value_eq(e[2], u))
                    return lor(land(value_eq(e[1], u), value_eq(e[2], v)), land(value_eq(e[1], v), value_eq(e[2], u)))
                for conds, consts, hit in eng.sub_explore(is_it):
                    body = z3.And(*conds, zb_(hit))
                    found.append(z3.Exists(consts, body) if consts else body)
            from pyvc.values import SBool
            return SBool(z3.Or(*found)) if found else False
    g, out = Graph(), []

    class Model:
        _pyvc_model = True
        num_detectors, num_observables = D, O
    model = Model()

    def nx_graph(m):
        P.prove("the graph is that of the error model", m is model, wit)
        return g

    def matching(x, *a, **k):
        if a or k:
            raise core.Unsupported("options of pymatching.Matching")
        P.prove("the graph is handed over to the matching decoder", x is g, wit)
        out.append(object())
        return out[-1]
    matching._pyvc_model = True
    P.interp.override(pymatching.Matching, matching)
    eng.callee_contracts = {"decoding.detector_error_model_to_nx_graph": nx_graph}
    got = P.call(decoding.detector_error_model_to_pymatching_graph, model)
    P.prove("the matching decoder is returned", len(out) == 1 and got is out[-1], wit)
    k = SNum(eng.fresh("node", z3.IntSort()))
    eng.assume(land(k >= 0, k < D))
    P.prove("every detector is a node", g.has("node", k, k), wit)
    P.prove("every detector is connected", g.has("edge", k, D + 1), wit)
    P.prove("the boundary is connected", g.has("edge", D, D + 1), wit)
    hits = []
    for f in g.added:
        def all_on_it(f=f):
            e = f()
            if e[0] != "edge" or not isinstance(e[3], SSeq) or not same(e[3].n, O):
                raise core.PathEnd("other")
            o = SNum(eng.fresh("o", z3.IntSort()))
            if not same(e[3].at(o), o):
                raise core.PathEnd("other")
            return True
        for conds, consts, _ in eng.sub_explore(all_on_it):
            body = z3.And(*conds)
            hits.append(z3.Exists(consts, body) if consts else body)
    hit = SBool(z3.Or(*hits)) if hits else False
    P.prove("an edge carries all observables", hit, wit)


def zb_(b):
    from pyvc.values import zb
    return zb(b)


def prove(P):
    P.eng.assumptions.add("pymatching.Matching.decode returns the observable flips of a minimum-weight explanation of the symptoms handed in (bounded check by enumeration)")
    P.eng.assumptions.add("stim's detector sampler returns the detectors and then the observables of each shot; contract of detector_error_model_to_nx_graph (C12)")
    jobs = [(d, k) for d in ("pymatching", "internal", "internal_correlated", "other") for k in ((None, 0, 1, 2) if d == "pymatching" else (None,))]
    for d, k in jobs:
        P.interp.reset()
        P.group(f"counting with decoder {d}" + ("" if k is None else f", {k} observables"), lambda: prove_counting(P, d, k), cover=d != "other")
    for corr in (False, True):
        P.interp.reset()
        P.group("matching" + (", correlated" if corr else ""), lambda: prove_matching(P, corr))
    P.interp.reset()
    P.group("matching graph", lambda: prove_graph(P))
