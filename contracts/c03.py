"""C03: detectors cover every plaquette comparison, correctly located."""
import collections

from contracts import circ, hc, hcsym, stab
from contracts.c01 import few, rounds
from contracts.common import Broken, require
from contracts.c05 import lay_of
from pyvc.core import Unsupported

LEVEL = "other"
EXPLANATION = ("Proved for every number of sub-rounds (symbolic, no bound) on the 2 x 6 and 4 x 6 patches (quick) and three larger ones (thorough), every style "
               "and observable: the generator's source is executed with sub_rounds = 6 m + r, m arbitrary; the meaning of records and coordinates behind a "
               "repetition is that before it six sub-rounds later, and the detectors with 0 and with 1 repetition are exactly the expected ones, hence with any "
               "number; on 4-wide patches the undetected effects of single faults are closed under repetitions and none flips the observable. Bounded: other "
               "patch sizes")
BUDGET = {"quick": 120, "thorough": 1200}
CHUNK = 2
BOUND = "all styles x observables x sub-round counts 1..30 (and 60, 99) x patches up to 6 x 12; single faults on patches at least 4 wide"


def cases(tier, rng):
    ns = list(range(1, 31)) + [60, 61, 62]
    sizes = [(4, 6), (2, 6), (6, 6), (4, 12), (2, 12), (6, 12)] + ([(8, 12), (8, 18), (2, 24)] if tier == "thorough" else [])
    for dw, dh in sizes:
        for st in hc.STYLES:
            for o in "HV":
                for n in rounds(st, ns if dw * dh <= 24 or tier == "thorough" else sorted(set([3, 6] + rng.sample(ns[:30], 5) + [60]))):
                    yield {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}


def run_case(c):
    lay = lay_of(c)
    circuit = lay.make_circuit()
    C = hc.Circuit(circuit, c["dw"], c["dh"], c["n"])
    got = collections.Counter((v, tuple(float(x) for x in a)) for v, a in C.detectors)
    want = collections.Counter((v, tuple(float(x) for x in a)) for v, a in hc.expected_detectors(C.g, c["obs"], c["n"]))
    if got != want:
        extra, missing = list((got - want)), list((want - got))
        require(False, f"{c}: {sum((got - want).values())} unexpected detectors, e.g. {[(sorted(map(str, v)), a) for v, a in extra[:1]]}; "
                       f"{sum((want - got).values())} missing, e.g. {[(sorted(map(str, v)), a) for v, a in missing[:1]]}")
    if c["dw"] >= 4 and c["n"] <= 24:
        noisy = lay_of(c, noise=0.001).make_circuit()
        for e in noisy.detector_error_model(decompose_errors=False).flattened():
            if e.type == "error":
                ts = e.targets_copy()
                require(any(t.is_relative_detector_id() for t in ts) or not any(t.is_logical_observable_id() for t in ts), f"{c}: a single fault flips the observable undetected")


# ------------------------------------------------------------------ obligations
def counter(ds):
    return collections.Counter((v, tuple(float(x) for x in a)) for v, a in ds)


def differences(got, want):
    if got == want:
        return ""
    extra, missing = list(got - want), list(want - got)
    return (f"{len(extra)} unexpected detectors, e.g. {[(sorted(map(str, v)), a) for v, a in extra[:1]]}; "
            f"{len(missing)} missing, e.g. {[(sorted(map(str, v)), a) for v, a in missing[:1]]}")[:600]


def detectors(P, conf):
    import sys
    me = sys.modules[__name__]
    dw, dh, st, o, r = conf

    def go():
        F, m = hcsym.folded(P, conf)
        if max(F.lookback(F.B), F.lookback(F.S)) > F.window():
            raise Unsupported("detectors reach back beyond the first repetition")
        n, T, C = hcsym.shape(P, F, conf, me)
        hcsym.decide(P, "no detector contains what was measured long ago", all(x[0] in "ed" for v, _ in T.detectors[n:] + C.detectors[n:] for x in v),
                     "a detector contains measurements of the far past", conf, me)
        for j in (0, 1):
            C = hc.Circuit(F.concrete(j), dw, dh)
            want = hc.expected_detectors(C.g, o, 6 * (hcsym.FIRST_M + j) + r)
            got, want = counter(C.detectors), counter(want)
            for d in got | want:
                if got[d] != want[d]:
                    hcsym.decide(P, f"the detectors with {j} repetitions are the expected ones", False, differences(got, want), conf, me)
                    break
                P.evaluated(f"the detectors with {j} repetitions are the expected ones", True)
        if dw >= 4:
            faults(P, F, conf, me)
    try:
        P.group(hcsym.name_of(*conf), go)
    except (stab.Outside, NotImplementedError) as ex:
        P.eng.undecided(hcsym.name_of(*conf), f"outside of the algebra: {ex}")


def faults(P, F, conf, me):
    """The undetected effects a single fault can have at the start of a repetition: the smallest set closed under repetitions."""
    import stim
    dw, dh, st, o, r = conf
    lay = lay_of({"dw": dw, "dh": dh, "n": 6 * hcsym.FIRST_M + r, "style": st, "obs": o}, noise=0.001)
    whole = circ.to_circuit(F.P)
    whole.append(stim.CircuitRepeatBlock(2, circ.to_circuit(F.B)))
    whole += circ.to_circuit(F.S)
    noisy = lay.noise_model.noisy_circuit(whole)
    at = [i for i, op in enumerate(noisy) if isinstance(op, stim.CircuitRepeatBlock)]
    if len(at) != 1:
        raise Unsupported("repeat blocks of the noisy circuit")
    NP, NB, NS = circ.atoms(noisy[:at[0]]), circ.atoms(noisy[at[0]].body_copy()), circ.atoms(noisy[at[0] + 1:])
    nq = noisy.num_qubits
    w = F.window()
    f = stab.Frames(nq)
    f.run(NP)
    states = f.states(w)
    f = stab.Frames(nq)
    f.load([], w)
    f.run(NB)
    states |= f.states(w)
    todo = set(states)
    while todo:
        f = stab.Frames(nq)
        f.load(todo, w)
        f.run(NB, new=False)
        todo = f.states(w) - states
        states |= todo
    bad = 0
    f = stab.Frames(nq)
    f.load(states, w)
    f.run(NS, new=False)
    bad |= f.obs & ~f.hit
    n = f.n
    f = stab.Frames(nq)
    f.load([], w)
    f.run(NS)
    bad |= (f.obs & ~f.hit) << n
    hcsym.decide(P, "no single fault, in whichever repetition, flips the observable undetected", bad == 0,
                 f"{bad.bit_count()} of {n + f.n} effects of faults flip the observable undetected", conf, me)
    P.eng.assumptions.add("contract of NoiseModel.noisy_circuit (C08): a repeat block gets the noise of its unrolled contents")


def specification(P, conf):
    """The expected detectors of sub-rounds k and k + 6 are the same, six sub-rounds later, from the second six on (so that the two numbers of
    repetitions compared above stand for all)."""
    dw, dh, o = conf
    G = hc.Geometry(dw, dh)

    def go():
        for n in range(6 * hcsym.FIRST_M, 6 * hcsym.FIRST_M + 6):
            e = [counter(hc.expected_detectors(G, o, n + 6 * j)) for j in range(3)]

            def later(c):
                return collections.Counter({(frozenset((x[0], x[1] + 6, x[2]) if x[0] == "e" else x for x in v), (a[0], a[1], a[2] + 6)): k for (v, a), k in c.items()})
            up, down = later(e[1] - e[0]), later(e[0] - e[1])
            P.evaluated("the expected detectors repeat every six sub-rounds", up == e[2] - e[1] and down == e[1] - e[2])
    P.group(f"specification, {o} {dw}x{dh}", go)


def prove(P):
    P.parallel(hcsym.configurations(P.tier), detectors)
    P.parallel(sorted({(c[0], c[1], c[3]) for c in hcsym.configurations(P.tier)}), specification)
    P.parallel(few(P.tier), small)


def small(P, item):
    """The numbers of sub-rounds below the symbolic ones, one by one."""
    dw, dh, st, o, n = item
    case = {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}
    try:
        run_case(case)
        P.evaluated("circuits with few sub-rounds have the expected detectors", True)
    except Broken as ex:
        P.evaluated("circuits with few sub-rounds have the expected detectors", False, str(ex)[:400], witness=case)
