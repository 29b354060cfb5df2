"""C01: detectors and observable of the noiseless circuits are deterministic."""
from contracts.common import require
from contracts.c05 import lay_of
from contracts.hc import STYLES

LEVEL = "other"
EXPLANATION = ("Proved for every number of sub-rounds (symbolic, no bound) on the 2 x 6 and 4 x 6 patches (quick) and three larger ones (thorough), every style "
               "and observable: the generator's source is executed with sub_rounds = 6 m + r, m arbitrary, and a loop invariant over stabiliser relations "
               "(the greatest inductive set, recomputed each run) shows every detector before, in and behind the repeat block and the observable to be fixed. "
               "Bounded: other patch sizes")
BUDGET = {"quick": 120, "thorough": 1200}
CHUNK = 2
BOUND = "all styles x observables x sub-round counts 1..30 and several large ones (folded) x patches up to 6 x 12 (quick) / 8 x 18 (thorough)"


def rounds(st, ns):
    return [n for n in ns if st != "SI1000" or n % 3 == 0]


def cases(tier, rng):
    sizes = [(4, 6), (2, 6), (6, 6), (4, 12), (2, 12), (6, 12)] + ([(8, 12), (8, 18), (2, 24), (12, 6)] if tier == "thorough" else [])
    ns = list(range(1, 31)) + [40, 41, 42, 99, 100, 101, 300, 3001, 3002, 3003]
    for dw, dh in sizes:
        for st in STYLES:
            for o in "HV":
                for n in rounds(st, ns if dw * dh <= 24 or tier == "thorough" else sorted(set([3, 6] + rng.sample(ns[:30], 5) + [300]))):
                    yield {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}
    yield {"refuse": 1}


def run_case(c):
    import stim
    if "refuse" in c:
        for st, n in [(s, 0) for s in STYLES] + [("SI1000", 1), ("SI1000", 2), ("SI1000", 4), ("nope", 3)]:
            try:
                lay_of({"dw": 4, "dh": 6, "n": n, "style": st}).make_circuit()
            except Exception:
                continue
            require(False, f"{st} with {n} sub-rounds was generated")
        return
    circuit = lay_of(c).make_circuit()
    require(circuit.num_observables >= 1 and circuit.num_detectors >= 1, f"{c}: no detectors or observable")
    try:
        circuit.detector_error_model(decompose_errors=False)
    except ValueError as ex:
        require(False, f"{c}: not deterministic: {str(ex)[:400]}")
    noisy = lay_of(c, noise=0.001).make_circuit()
    try:
        noisy.detector_error_model(decompose_errors=False)
    except ValueError as ex:
        require(False, f"{c}: not deterministic when noise is added: {str(ex)[:400]}")
    if circuit.num_measurements < 3000:
        conv = circuit.compile_m2d_converter()
        m = circuit.compile_sampler(seed=5).sample(16)
        d = conv.convert(measurements=m, append_observables=True)
        require((d == d[0]).all(), f"{c}: two noiseless runs disagree on {[i for i in range(d.shape[1]) if (d[:, i] != d[0, i]).any()][:5]}")


# ------------------------------------------------------------------ obligations
def determinism(P, conf):
    import sys
    from contracts import hcsym, stab
    from pyvc.core import Unsupported
    me = sys.modules[__name__]

    def go():
        F, m = hcsym.folded(P, conf)
        w = F.window()
        if max(F.lookback(F.B), F.lookback(F.S)) > w:
            raise Unsupported("detectors reach back beyond the first repetition")
        part = ["before the loop"]
        count = {}

        def detector(R, records, args):
            count[part[0]] = count.get(part[0], 0) + 1
            hcsym.decide(P, f"detectors {part[0]} are deterministic", R.fixed(records), f"the detector at {args} is not", conf, me)
        R = stab.Relations(F.nq)
        R.on_detector = detector
        R.run(F.P)
        start = R.window(w)

        def body(rel, check):
            T = stab.Relations(F.nq)
            T.load(rel, w)
            T.on_detector = detector if check else None
            T.run(F.B)
            return T.window(w)
        # The largest set of relations that holds at the start and that every repetition re-establishes.
        inv = start
        while True:
            new = stab.meet(inv, body(inv, False))
            if len(new) == len(inv):
                break
            inv = new
        ech = stab.basis(start)
        P.evaluated("the invariant relations hold before the first repetition", all(stab.reduce(ech, v) == 0 for v in inv))
        part[0] = "of every repetition"
        ech = stab.basis(body(inv, True))
        P.evaluated("every repetition re-establishes the invariant relations", all(stab.reduce(ech, v) == 0 for v in inv))
        part[0] = "behind the loop"
        T = stab.Relations(F.nq)
        T.load(inv, w)
        T.on_detector = detector
        T.run(F.S)
        used = {int(a[1][0]) for a in F.P + F.B + F.S if a[0] == "OBSERVABLE_INCLUDE"}
        P.evaluated("there is an observable", len(used) >= 1)
        for k in sorted(used):
            hcsym.decide(P, "the observable is deterministic", T.fixed(0, 1 << k), f"observable {k} is not", conf, me)
        P.evaluated("there are detectors before, in and behind the loop", len(count) == 3)
        P.eng.assumptions.add("contract of NoiseModel.noisy_circuit (C07): without noise it returns the circuit itself")
    try:
        P.group(hcsym.name_of(*conf), go)
    except stab.Outside as ex:
        P.eng.undecided(hcsym.name_of(*conf), f"outside of the algebra: {ex}")


def small(P, item):
    """The numbers of sub-rounds below the symbolic ones, one by one."""
    import sys
    from contracts.common import Broken
    dw, dh, st, o, n = item
    case = {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}
    try:
        sys.modules[__name__].run_case(case)
        P.evaluated("circuits with few sub-rounds are deterministic", True)
    except Broken as ex:
        P.evaluated("circuits with few sub-rounds are deterministic", False, str(ex)[:400], witness=case)


def few(tier):
    from contracts import hcsym
    for dw, dh, st, o in sorted({c[:4] for c in hcsym.configurations(tier)}):
        for n in rounds(st, range(1, 6 * hcsym.FIRST_M)):
            yield dw, dh, st, o, n


def prove(P):
    from contracts import hcsym
    P.parallel(hcsym.configurations(P.tier), determinism)
    P.parallel(few(P.tier), small)
