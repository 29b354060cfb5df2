"""C08: every operation and idle qubit gets exactly the model's noise."""
from contracts import circ
from contracts.common import require

EXPLANATION = ("the named models' constructors and noisy_circuit/noisy_op under each, for every strength and every circuit: channel, strength, side and targets of every operation; "
               "exact sets of idling qubits of every time step (arbitrary sets of touched and measured qubits); unknown operations refused; the ancilla free; the recursion "
               "by its own contract; the gadget's distribution by its contract (C09)")
ASSUMPTIONS = ["fold principle: a for-loop meets every operation of the circuit once, in order", "induction on the nesting depth of repeat blocks",
               "stim's accessors (name, targets_copy, gate_args_copy, body_copy, repeat_count) describe the circuit; append_operation and += append",
               "parity measurements are products of two Paulis, results carry no noise argument beforehand",
               "float arithmetic on probabilities is real arithmetic"]
BUDGET = {"quick": 90, "thorough": 900}
CHUNK = 20
BOUND = "random circuits (up to 7 qubits, nested repeat blocks, annotations anywhere), every named model, random strengths and idle sets; every single operation of every model; unknown operations; the generated memory circuits"

P1, P2 = circ.C1, circ.C2
OTHER = ["S", "X", "SWAP", "MR", "MRX", "RX", "RY", "MX", "MY", "SQRT_X", "H_XY", "ISWAP", "Z"]


def spec(model, p):
    """{gate: strength}, idle, idle during measurement/reset, correlated  -- written from the models' definitions."""
    one = {k: p for k in P1}
    if model == "SD6":
        return {**one, "CX": p, "R": p, "M": p}, p, 0, False
    if model == "PC3":
        return {**one, **{k: p for k in P2}, "R": p, "M": p}, p, 0, False
    if model == "EM3_v1":
        return {**one, "R": p, "M": p, "MPP": p}, p, 0, False
    if model == "EM3_v2":
        return {**{k: 0 for k in P1 + P2}, "R": p / 2, "M": p / 2, "MPP": p}, p, 0, True
    if model == "SI1000":
        return {**{k: p / 10 for k in P1}, "CZ": p, "R": 2 * p, "M": 5 * p}, p / 10, 2 * p, False


def cases(tier, rng):
    for m in circ.KNOWN:
        for k in P1 + P2 + ["R", "M", "MPP"] + OTHER:
            for p in (0.0, 0.004):
                yield {"kind": "one", "model": m, "gate": k, "p": p}
    for _ in range(2500 if tier == "quick" else 40000):
        yield {"kind": "rand", "seed": rng.randint(0, 10 ** 9), "model": rng.choice(list(circ.KNOWN)), "p": rng.choice([0.0, 0.001, 0.01, 0.1]),
               "qs": rng.choice(["none", "none", "sub", "super"])}
    for st in ("SD6", "PC3", "EM3", "EM3_v2", "SI1000"):
        for n in (3, 12, 24):
            yield {"kind": "hex", "style": st, "n": n, "obs": "HV"[n % 2]}


def moments(ats):
    out = [[]]
    for a in ats:
        if a[0] in ("TICK", "|"):
            out.append([])
        elif a[0] not in circ.ANNOT:
            out[-1].append(a)
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def judge(model, p, orig, noisy, qs, what):
    gates, idle, mri, corr = spec(model, p)
    mo, mn = moments(circ.atoms(orig, marks=True)), moments(circ.atoms(noisy, marks=True))
    # empty steps add nothing; align on the others
    mo = [m for m in mo if m]
    mn = [m for m in mn if m]
    require(len(mo) == len(mn), f"{what}: {len(mo)} time steps with operations became {len(mn)} time steps with operations or noise")
    for o, n in zip(mo, mn):
        # what each qubit should see in this time step
        want = {}
        ops = list(o)
        used, mr = set(), set()
        single = True
        for a in ops:
            q = circ.qubits(a)
            single = single and not q & used
            used |= q
            if a[0] in ("M", "R"):
                mr |= q
        for a in ops:
            s = gates[a[0]]
            q = sorted(circ.qubits(a))
            lab = ("op", a[0], tuple(t.value for t in a[2]))
            if a[0] in P1:
                seq = [lab] + ([("DEPOLARIZE1", s, (q[0],))] if s else [])
            elif a[0] in P2:
                seq = [lab] + ([("DEPOLARIZE2", s, tuple(q))] if s else [])
            elif a[0] == "R":
                seq = [lab] + ([("X_ERROR", s, (q[0],))] if s else [])
            elif a[0] == "M":
                seq = ([("X_ERROR", s, (q[0],))] if s else []) + [lab]
            elif corr and s:
                seq = [("gadget", s, tuple(t.value for t in a[2]))]
            else:
                seq = ([("DEPOLARIZE2", s, tuple(q))] if s else []) + [lab] + ([("flip", s, lab[2])] if s else [])
            for x in q:
                want.setdefault(x, []).extend(seq)
        if used and idle:
            for q in qs - used:
                want.setdefault(q, []).append(("DEPOLARIZE1", idle, (q,)))
        if mr and mri:
            for q in qs - mr:
                want.setdefault(q, []).append(("DEPOLARIZE1", mri, (q,)))
        # what each qubit does see
        got = {}
        k = 0
        mpps = iter([a for a in ops if a[0] == "MPP"])
        while k < len(n):
            a = n[k]
            if corr and p > 0 and a[0] == "R" and circ.qubits(a) - used and not circ.qubits(a) & qs:
                chunk = [a]
                while chunk[-1][0] != "M":
                    k += 1
                    require(k < len(n), f"{what}: unfinished gadget")
                    chunk.append(n[k])
                src = next(mpps, None)
                require(src is not None, f"{what}: a gadget without a parity measurement")
                pair = [t.value for t in src[2]]
                bad = circ.is_mix(circ.distribution(chunk, pair), gates["MPP"])
                require(not bad, f"{what}: wrong noise in the gadget of {src}: {bad[:3]}")
                for x in set(pair):
                    got.setdefault(x, []).append(("gadget", gates["MPP"], tuple(pair)))
            elif a[0] in circ.NOISE:
                if a[1][0]:
                    q = tuple(sorted(circ.qubits(a)))
                    for x in q:
                        got.setdefault(x, []).append((a[0], a[1][0], q))
            else:
                lab = ("op", a[0], tuple(t.value for t in a[2]))
                for x in circ.qubits(a):
                    got.setdefault(x, []).append(lab)
                if a[0] in circ.MEAS and a[1] and a[1][0]:
                    for x in circ.qubits(a):
                        got.setdefault(x, []).append(("flip", a[1][0], lab[2]))
            k += 1
        for q in set(want) | set(got):
            w, g = want.get(q, []), got.get(q, [])
            if not single:
                w, g = sorted(w, key=str), sorted(g, key=str)
            # The idle channels commute with each other: their order does not matter.
            elif len(w) == len(g) and len(w) >= 2:
                def norm(s):
                    j = len(s)
                    while j and s[j - 1][0] == "DEPOLARIZE1":
                        j -= 1
                    return s[:j] + sorted(s[j:], key=lambda e: e[1])
                w, g = norm(w), norm(g)
            ok = len(w) == len(g) and all(x[0] == y[0] and x[2] == y[2] and (x[1] == y[1] or (not isinstance(x[1], str) and not isinstance(y[1], str) and close(x[1], y[1]))) for x, y in zip(w, g))
            require(ok, f"{what}: in the time step {[(a[0], sorted(circ.qubits(a))) for a in o]} qubit {q} sees {g}, the model prescribes {w}")


def run_case(c):
    import noise
    import stim
    if c["kind"] == "hex":
        from contracts.c05 import lay_of
        d = {"dw": 4, "dh": 6, "style": c["style"], "obs": c["obs"], "n": c["n"]}
        lay = lay_of(d, noise=0.003)
        a, b = lay_of(d, noise=0.0).make_circuit(), lay.make_circuit()
        judge({"EM3": "EM3_v1"}.get(c["style"], c["style"]), 0.003, a, b, set(range(a.num_qubits)), str(c))
        return
    if c["kind"] == "one":
        m = getattr(noise.NoiseModel, c["model"])(c["p"])
        tg = {"MPP": "X1*Y2 Z3*Z0"}.get(c["gate"], "1 2" if c["gate"] in P2 + ["SWAP", "ISWAP"] else "1 3 0")
        circuit = stim.Circuit(f"QUBIT_COORDS(1) 4\n{c['gate']} {tg}\nTICK\nTICK\nR 4\n")
        try:
            noisy = m.noisy_circuit(circuit)
        except NotImplementedError:
            require(c["gate"] not in circ.KNOWN[c["model"]], f"{c['model']} refuses {c['gate']}")
            return
        require(c["gate"] in circ.KNOWN[c["model"]], f"{c['model']} accepts the unknown operation {c['gate']}")
        judge(c["model"], c["p"], circuit, noisy, set(range(5)), str(c))
        return
    from contracts.c07 import setup
    m, circuit, kw = setup(c)
    noisy = m.noisy_circuit(circuit, **kw)
    judge(c["model"], c["p"], circuit, noisy, kw.get("qs", set(range(circuit.num_qubits))), f"{c['model']} p={c['p']} qs={kw}\n{str(circuit)[:500]}\n->\n{str(noisy)[:900]}\n")


# ------------------------------------------------------------------ obligations
def prove(P):
    import noise
    from contracts import noisefold as nf

    def model(name):
        p = P.real("p", 0)
        m = P.call(getattr(noise.NoiseModel, name), p)
        gates, idle, mri, corr = spec(name, p)
        return m, {"idle": idle, "mri": mri, "correlated": corr, "known": set(gates), "strength": gates}
    for name in circ.KNOWN:
        P.group(name, lambda: nf.NoiseFold(P, lambda: model(name), nf.judge_noise, nf.all_gates()).run(), max_paths=20000)
        P.eng.callee_contracts = {}
        P.interp.reset()
