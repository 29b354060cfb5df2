"""C07: noise insertion never changes the ideal circuit."""
from contracts import circ
from contracts.common import require

EXPLANATION = ("noisy_circuit and noisy_op for every model (any strengths, any subset of noisy gates, gadgets or not) and every circuit: one arbitrary operation, tick or "
               "repeat block on any number of targets from an arbitrary state of the time step, every part of the step arbitrary; the recursion by its own contract; "
               "the gadget by its contract (C09)")
ASSUMPTIONS = ["fold principle: a for-loop meets every operation of the circuit once, in order", "induction on the nesting depth of repeat blocks",
               "stim's accessors (name, targets_copy, gate_args_copy, body_copy, repeat_count) describe the circuit; append_operation and += append",
               "parity measurements are products of two Paulis, results carry no noise argument beforehand",
               "float arithmetic on probabilities is real arithmetic"]
BUDGET = {"quick": 90, "thorough": 900}
CHUNK = 20
BOUND = "random circuits (up to 7 qubits, nested repeat blocks, annotations anywhere, inverted results, qubits reused within a time step), named and custom models, random strengths and idle sets; the generated memory circuits"


def cases(tier, rng):
    for _ in range(2500 if tier == "quick" else 40000):
        yield {"kind": "rand", "seed": rng.randint(0, 10 ** 9), "model": rng.choice(["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000", "custom"]),
               "p": rng.choice([0.0, 0.001, 0.01, 0.1]), "qs": rng.choice(["none", "none", "sub", "super"])}
    for st in ("SD6", "PC3", "EM3", "EM3_v2", "SI1000"):
        for n in (3, 12, 24):
            yield {"kind": "hex", "style": st, "n": n, "obs": "HV"[n % 2]}


def setup(c):
    import random
    import noise
    rng = random.Random(c["seed"])
    nq = rng.randint(2, 7)
    if c["model"] == "custom":
        names = circ.C1 + circ.C2 + ["R", "RX", "RY", "M", "MX", "MY", "MPP"]
        p = c["p"]
        m = noise.NoiseModel(idle=rng.choice([0, p]), measure_reset_idle=rng.choice([0, 2 * p]), any_clifford_1=rng.choice([0, p]), any_clifford_2=rng.choice([0, p]),
                             use_correlated_parity_measurement_errors=rng.random() < 0.5,
                             noisy_gates={k: rng.choice([0, p, p / 2]) for k in ["R", "RX", "RY", "M", "MX", "MY", "MPP", "CX", "H"]})
    else:
        names = circ.KNOWN[c["model"]]
        m = getattr(noise.NoiseModel, c["model"])(c["p"])
    circuit = circ.random_circuit(rng, names, nq, single=rng.random() < 0.6)
    kw = {}
    if c["qs"] == "sub":
        kw["qs"] = set(q for q in range(nq) if rng.random() < 0.6)
    elif c["qs"] == "super":
        kw["qs"] = set(range(nq)) | {nq + rng.randint(0, 3)}
    return m, circuit, kw


def compare(orig, noisy, allow_gadget, what):
    """Walks both unrolled circuits; returns nothing, raises on the first difference."""
    used = set()
    for a in orig:
        used |= circ.qubits(a)
    quiet = [a for a in noisy if a[0] not in circ.NOISE]
    i = 0
    for a in orig:
        require(i < len(quiet), f"{what}: the noisy circuit ends before {a}")
        b = quiet[i]
        if a[0] in circ.MEAS:
            same = (b[0], b[2]) == (a[0], a[2]) and (not a[1] or b[1] == a[1] or a[1] == (0.0,))
        else:
            same = b == a
        if same:
            i += 1
            continue
        require(allow_gadget and a[0] == "MPP" and len(a[2]) == 2, f"{what}: {a} became {b}")
        chunk = []
        anc = None
        while i < len(quiet):
            b = quiet[i]
            i += 1
            chunk.append(b)
            if b[0] in circ.MEAS:
                break
        qs = set()
        for b in chunk:
            qs |= circ.qubits(b)
        anc = qs - {t.value for t in a[2]}
        require(len(anc) == 1 and not anc & used, f"{what}: the gadget for {a} uses {sorted(qs)}; the circuit uses {sorted(used)}")
        bad = circ.measures_parity(chunk, *a[2])
        require(bad is None, f"{what}: {a} was replaced by something that does not measure it: {bad}: {chunk}")
    require(i == len(quiet), f"{what}: extra operation {quiet[i:i + 1]} in the noisy circuit")


def run_case(c):
    if c["kind"] == "hex":
        from contracts.c05 import lay_of
        d = {"dw": 4, "dh": 6, "style": c["style"], "obs": c["obs"], "n": c["n"]}
        a = circ.atoms(lay_of(d, noise=0.0).make_circuit())
        b = circ.atoms(lay_of(d, noise=0.003).make_circuit())
        compare(a, b, c["style"] == "EM3_v2", str(c))
        return
    m, circuit, kw = setup(c)
    before = str(circuit)
    noisy = m.noisy_circuit(circuit, **kw)
    require(str(circuit) == before, "the original circuit was modified")
    compare(circ.atoms(circuit), circ.atoms(noisy), m.use_correlated_parity_measurement_errors, f"{c['model']} p={c['p']} qs={kw}\n{before[:500]}\n->\n{str(noisy)[:900]}\n")
    require(noisy.num_measurements == circuit.num_measurements and noisy.num_detectors == circuit.num_detectors, "record or detector counts changed")
    if not m.use_correlated_parity_measurement_errors:
        require(noisy.without_noise().flattened() == circuit.without_noise().flattened() or circ.atoms(noisy.without_noise()) == circ.atoms(circuit), "not the same circuit without noise")


# ------------------------------------------------------------------ obligations
class AnyGates:
    """The gate strengths of an arbitrary model: any gate may or may not have one."""
    def __init__(self, eng):
        self.eng, self.memo = eng, {}

    def _get(self, k):
        from contracts import noisefold as nf
        from pyvc.core import Unsupported
        from pyvc.values import SNum
        import z3
        if not isinstance(k, str):
            raise Unsupported("gate name")
        key = ("gate", k)
        if key not in self.eng.local:
            has = k not in nf.ANNOTATIONS + ["TICK"] and bool(self.eng.choose(2))      # (a model gives strengths to gates, not to annotations)
            v = None
            if has:
                v = SNum(z3.Real(f"strength_{k}"))
                self.eng.assume(v >= 0)
            self.eng.local[key] = (has, v)
        return self.eng.local[key]


def arbitrary_model(P):
    import noise
    import z3
    from pyvc.core import PyExc
    from pyvc.values import Sym
    eng = P.eng

    class Gates(AnyGates, Sym):
        py_type = dict

        def __contains__(self, k):
            return self._get(k)[0]

        def contains_expr(self, k):
            return self._get(k)[0]

        def __getitem__(self, k):
            has, v = self._get(k)
            if not has:
                raise PyExc(KeyError(k))
            return v

        def get(self, k, d=None):
            has, v = self._get(k)
            return v if has else d

        def __hash__(self):
            return id(self)
    m = object.__new__(noise.NoiseModel)
    corr = bool(eng.choose(2))
    idle, mri = P.real("idle_strength", 0), P.real("measure_reset_idle_strength", 0)
    attrs = dict(idle=idle, measure_reset_idle=mri, noisy_gates=Gates(eng), use_correlated_parity_measurement_errors=corr)
    for k in ("any_clifford_1", "any_clifford_2"):
        attrs[k] = P.real(k, 0) if eng.choose(2) else None
    for k, v in attrs.items():
        object.__setattr__(m, k, v)
    return m, {"idle": idle, "mri": mri, "correlated": corr, "known": None}


def prove(P):
    from contracts import noisefold as nf

    class Fold(nf.NoiseFold):
        def refused(self, x):
            # Any model may refuse operations without noise rules; the circuit is supported when none of its operations is refused.
            return x.name not in nf.ANNOTATIONS + ["TICK", "REPEAT"]

        def idle(self, label, rest, st):
            P.prove(f"{label}: behind the time step there are only noise channels", all(a[0] == "op" and a[1] in nf.NOISE for a in rest))
    names = nf.ANNOTATIONS + nf.ONE + nf.TWO + nf.RESETS + nf.MEASURES + ["MPP"]
    P.group("noisy_circuit, any model", lambda: Fold(P, lambda: arbitrary_model(P), nf.judge_ideal, names).run(), max_paths=20000)
    P.eng.callee_contracts = {}
    P.interp.reset()
