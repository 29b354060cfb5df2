"""C09: the correlated parity measurement gadget."""
from contracts import circ
from contracts.common import require
from pyvc.values import SNum, land, pow_law, zb

LEVEL = "proof"
EXPLANATION = ("the gadget for all 36 bases and inversions, any three distinct qubits and any mixing probability: ideal part compared with MPP by its complete set "
               "of stabiliser flows, mixture by its 31 Walsh characters (each a product of 16 factors 1 - 2q), q by the contract of the component probability, itself proved for any n")
BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 8
BOUND = "all 36 basis/inversion combinations x mixing probabilities (0, 1, tiny, random) x qubit placements; component probability for n = 1..9"


def cases(tier, rng):
    for a in "XYZ":
        for b in "XYZ":
            for ia in (0, 1):
                for ib in (0, 1):
                    for p in [0.0, 0.01, 1.0, rng.random()] + ([rng.random() for _ in range(30)] if tier == "thorough" else []):
                        q = rng.sample(range(6), 3)
                        yield {"a": a, "b": b, "ia": ia, "ib": ib, "p": p, "q": q}
    for n in range(1, 10):
        for p in (0.0, 1e-9, 0.001, 0.5, 0.999, 1.0, rng.random()):
            yield {"n": n, "p": p}


def run_case(c):
    import noise
    import stim
    if "n" in c:
        q = noise.mix_probability_to_independent_component_probability(c["p"], c["n"])
        # an odd subset of half of the 2^n - 1 components: the product of 2^(n-1) factors (1 - 2q)
        require(0 <= q <= 0.5 and abs((1 - 2 * q) ** (2 ** (c["n"] - 1)) - (1 - c["p"])) < 1e-9, f"component probability {q} for p={c['p']} n={c['n']}")
        return
    f = {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z}
    t1, t2 = f[c["a"]](c["q"][0], invert=bool(c["ia"])), f[c["b"]](c["q"][1], invert=bool(c["ib"]))
    g = noise.parity_measurement_with_correlated_measurement_noise(t1=t1, t2=t2, ancilla=c["q"][2], mix_probability=c["p"])
    ats = circ.atoms(g)
    for a in ats:
        require(circ.qubits(a) <= set(c["q"]), f"{c}: touches other qubits: {a}")
    bad = circ.measures_parity(ats, t1, t2)
    require(bad is None, f"{c}: does not measure the parity: {bad} in\n{g}")
    # the ancilla must not leak anything else either: started in any state, it ends as the result
    bad = circ.is_mix(circ.distribution(ats, c["q"][:2]), c["p"])
    require(not bad, f"{c}: the (pair, result) distribution differs: (pauli, flip, got, expected) {bad[:4]}")


# ------------------------------------------------------------------ obligations
def classes():
    import stim
    from pyvc.core import Unsupported
    from pyvc.values import Sym

    class T(Sym):
        """A target of an operation: a qubit given by an integer expression, with a Pauli letter or an inverted result."""
        py_type = stim.GateTarget

        def __init__(self, value, pauli="", inv=False):
            self.value, self.pauli, self.is_inverted_result_target = value, pauli, bool(inv)
            self.is_x_target, self.is_y_target, self.is_z_target = pauli == "X", pauli == "Y", pauli == "Z"
            self.is_qubit_target, self.is_combiner, self.is_measurement_record_target = not pauli, False, False

        def __eq__(self, o):
            if isinstance(o, str):
                return False
            raise Unsupported("comparison of targets")

        def __ne__(self, o):
            return not self == o

        def __hash__(self):
            return id(self)

    class Rec(Sym):
        py_type = stim.Circuit

        def __init__(self):
            self.ops = []

        def append_operation(self, name, targets=(), arg=None):
            if not isinstance(name, str):
                raise Unsupported("append of an operation")
            self.ops.append((name, list(targets) if isinstance(targets, (list, tuple)) else [targets], arg))

        append = append_operation

        def __iadd__(self, o):
            if not isinstance(o, Rec):
                return NotImplemented
            self.ops += o.ops
            return self

        def __hash__(self):
            return id(self)
    return T, Rec


def component(P):
    """Probability q of each component so that an odd number out of half of the 2^n - 1 components has the given probability."""
    import noise
    eng = P.eng
    p = P.real("p", 0, 1)
    n = P.int("n", 1)
    q = P.call(noise.mix_probability_to_independent_component_probability, p, n)
    k = 2 ** (n - 1)
    for x, y, t in eng.ghost.get("pow_terms", []):
        pow_law(SNum(x), SNum(y), k)
    P.prove("the component probability is between 0 and 1/2", land(q >= 0, q * 2 <= 1))
    P.prove("independent components compose to the mixing probability", (1 - q * 2) ** k == 1 - p)


def gadget(P, a, b, ia, ib):
    import noise
    import stim
    import z3
    from pyvc.core import Unsupported
    from pyvc.values import as_num, is_sym
    eng = P.eng
    T, Rec = classes()
    v = [P.int(x, 0) for x in ("first", "second", "ancilla")]
    P.eng.assume(v[0] != v[1])
    P.eng.assume(v[0] != v[2])
    P.eng.assume(v[1] != v[2])
    p = P.real("p", 0, 1)

    def make(pauli):
        def f(q, invert=False):
            if isinstance(q, T):
                q, invert = q.value, bool(invert) != q.is_inverted_result_target
            return T(q, pauli, invert)
        f._pyvc_model = True
        return f
    P.interp.override(stim.target_x, make("X"))
    P.interp.override(stim.target_y, make("Y"))
    P.interp.override(stim.target_z, make("Z"))

    def inv(q):
        return T(q.value, q.pauli, not q.is_inverted_result_target) if isinstance(q, T) else T(q, "", True)
    inv._pyvc_model = True
    P.interp.override(stim.target_inv, inv)

    def circuit(*args):
        if args:
            raise Unsupported("circuit from text")
        return Rec()
    circuit._pyvc_model = True
    P.interp.override(stim.Circuit, circuit)
    case = {"a": a, "b": b, "ia": ia, "ib": ib, "p": 0.37, "q": [0, 1, 2]}
    q = P.real("q", 0)
    P.eng.assume(q * 2 <= 1)
    used = []

    def comp(mix_probability, n):
        P.settle("the component probability is asked for five independent generators of the given mixture",
                 eng.implied(zb(land(as_num(mix_probability) == p, as_num(n) == 5))), "other arguments", [case], run_case)
        used.append(1)
        return q
    eng.callee_contracts = {"noise.mix_probability_to_independent_component_probability": comp}
    eng.assumptions.add("contract of mix_probability_to_independent_component_probability (discharged by the obligations `component probability`)")
    res = P.call(noise.parity_measurement_with_correlated_measurement_noise, t1=T(v[0], a, ia), t2=T(v[1], b, ib), ancilla=v[2], mix_probability=p)
    if not isinstance(res, Rec):
        raise Unsupported("the result is no recorded circuit")

    def qubit(x):
        x = x.value if isinstance(x, T) else x
        for i, y in enumerate(v):
            if eng.implied(zb(as_num(x) == y)):
                return i
        return None
    ats, probs = [], []
    for name, ts, arg in res.ops:
        c = stim.Circuit()
        idx = [qubit(t) for t in ts]
        P.prove("only the pair and the ancilla are touched", all(i is not None for i in idx))
        if any(i is None for i in idx):
            return
        f = {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z, "": lambda i, invert=False: stim.target_inv(i) if invert else i}
        real = [f[t.pauli](i, t.is_inverted_result_target) if isinstance(t, T) else i for t, i in zip(ts, idx)]
        noisy = arg is not None and not (isinstance(arg, (int, float)) and arg == 0)
        if name == "MPP":
            raise Unsupported("MPP")
        # Strengths are carried separately; 0.125 marks where one belongs.
        c.append(name, real, *([0.125] if noisy else []))
        for at in circ.atoms(c):
            ats.append(at)
            probs.append(arg if noisy else None)
    t = {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z}
    bad = circ.measures_parity(ats, t[a](0, invert=bool(ia)), t[b](1, invert=bool(ib)))
    P.evaluated("without noise the parity of the two targets is reported", bad is None, str(bad), witness=case)
    # Walsh characters: the mixture is the one with E[chi] = 1 - p for each of the 31 non-trivial characters of the 32 outcomes.
    effects = []
    for i, (name, args, ts) in enumerate(ats):
        if not args:
            continue
        if name in circ.MEAS:
            effects.append(([(1, 0b10000)], probs[i]))
            continue
        terms = circ.noise_terms((name, args, ts))
        eff = []
        for w, ps in terms:
            eff.append((w / args[0], propagate(ats, i, ps)))
        effects.append((eff, probs[i]))
    factors = {}
    for s in range(1, 32):
        fs = []
        for eff, pr in effects:
            w = sum(w for w, e in eff if (e & s).bit_count() & 1)
            if w:
                fs.append((w, pr))
        factors[s] = fs
    distinct = {}
    for s, fs in factors.items():
        for w, pr in fs:
            key = (round(w, 12), id(pr))
            if key not in distinct:
                distinct[key] = abs(w - 1) < 1e-12 and eng.implied(zb(as_num(pr) == q))
    plain = all(distinct.values())
    for s, fs in factors.items():
        name = "the result and the pair are mixed with exactly the requested probability"
        if plain and used:
            # (1 - 2 q)^16 = 1 - p by the contract of the component probability; any other power is another number (p = 0.37).
            P.evaluated(name, len(fs) == 16, f"{len(fs)} of the errors change the parity {s:05b} of (pair, result), 16 needed", witness=case)
        else:
            eng.undecided(name, "the strengths are not the component probability")


def propagate(ats, i, ps):
    """Effect at the end of the Pauli ps placed at operation i: bits x1 z1 x2 z2 and the flip of the result."""
    from contracts import stab
    f = stab.Frames(3)
    x = sum(1 << q for q, c in ps.items() if c in "XY")
    z = sum(1 << q for q, c in ps.items() if c in "YZ")
    f.add(x, z)
    f.run(ats[i + 1:], new=False)
    flip = 0
    for r in f.rec:
        flip ^= r
    return (f.x[0] & 1) | (f.z[0] & 1) << 1 | (f.x[1] & 1) << 2 | (f.z[1] & 1) << 3 | (flip & 1) << 4


def prove(P):
    P.group("component probability", lambda: component(P))
    for a in "XYZ":
        for b in "XYZ":
            for ia in (0, 1):
                for ib in (0, 1):
                    P.group(f"{'!' * ia}{a} * {'!' * ib}{b}", lambda: gadget(P, a, b, ia, ib))
