"""Circuit helpers: unrolling into atoms, Pauli noise distributions, random circuits."""
NOISE = {"DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2", "E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR",
         "HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1"}
ANNOT = {"OBSERVABLE_INCLUDE", "DETECTOR", "SHIFT_COORDS", "QUBIT_COORDS", "TICK"}
TWO = {"CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ", "SWAP", "DEPOLARIZE2"}
MEAS = {"M", "MX", "MY", "MPP"}


def atoms(circuit, out=None, marks=False):
    """Unrolls to a list of (name, args, targets): one entry per qubit, pair or product. With marks, block boundaries are ('|',)."""
    import stim
    if out is None:
        out = []
    for op in circuit:
        if isinstance(op, stim.CircuitRepeatBlock):
            if marks:
                out.append(("|", (), ()))
            body = op.body_copy()
            for _ in range(op.repeat_count):
                atoms(body, out, marks)
                if marks:
                    out.append(("|", (), ()))
            continue
        name, args, ts = op.name, tuple(op.gate_args_copy()), op.targets_copy()
        if name in ("TICK", "SHIFT_COORDS", "DETECTOR", "OBSERVABLE_INCLUDE", "E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            out.append((name, args, tuple(ts)))
        elif name == "MPP":
            cur = []
            for i, t in enumerate(ts):
                if not t.is_combiner:
                    cur.append(t)
                    if i + 1 == len(ts) or not ts[i + 1].is_combiner:
                        out.append((name, args, tuple(cur)))
                        cur = []
        elif name in ("MR", "MRX", "MRY"):
            for t in ts:
                out.append(("M" + name[2:], args, (t,)))
                out.append(("R" + name[2:], (), (stim.GateTarget(t.value),)))
        elif name in ("MXX", "MYY", "MZZ"):
            f = {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z}[name[1]]
            for i in range(0, len(ts), 2):
                out.append(("MPP", args, tuple(f(t.value, t.is_inverted_result_target) for t in ts[i:i + 2])))
        elif name in TWO or stim.gate_data(name).is_two_qubit_gate:
            for i in range(0, len(ts), 2):
                out.append((name, args, tuple(ts[i:i + 2])))
        else:
            for t in ts:
                out.append((name, args, (t,)))
    return out


def to_circuit(ats):
    import stim
    c = stim.Circuit()
    for name, args, ts in ats:
        if name == "MPP":
            full = []
            for t in ts:
                full += [t, stim.target_combiner()]
            ts = full[:-1]
        c.append(name, list(ts), list(args))
    return c


def qubits(at):
    return {t.value for t in at[2] if not t.is_measurement_record_target and not t.is_combiner}


def noise_terms(at):
    """List of (probability, {qubit: pauli}) of a Pauli noise atom, excluding the identity."""
    name, args, ts = at
    p = args[0] if args else 0
    if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        return [(p, {ts[0].value: name[0]})]
    if name == "DEPOLARIZE1":
        return [(p / 3, {ts[0].value: c}) for c in "XYZ"]
    if name == "DEPOLARIZE2":
        return [(p / 15, {t.value: c for t, c in zip(ts, (a, b)) if c != "I"}) for a in "IXYZ" for b in "IXYZ" if a + b != "II"]
    if name in ("E", "CORRELATED_ERROR"):
        return [(p, {t.value: ("X" if t.is_x_target else "Y" if t.is_y_target else "Z") for t in ts})]
    if name == "PAULI_CHANNEL_1":
        return [(a, {ts[0].value: c}) for a, c in zip(args, "XYZ")]
    raise NotImplementedError(name)


def distribution(ats, pair):
    """Joint distribution of (Pauli on pair, flipped records) caused by the noise of a short circuit, propagated to its end."""
    import stim
    n = max(max((qubits(a) for a in ats if a[2]), key=max, default={0})) + 1
    dist = {((0, 0), frozenset()): 1.0}
    recs = []
    k = 0
    for a in ats:
        recs.append(k)
        if a[0] in MEAS:
            k += 1
    for i, a in enumerate(ats):
        terms = []
        if a[0] in MEAS and a[1] and a[1][0]:
            terms = [(a[1][0], None)]
        elif a[0] in NOISE:
            terms = noise_terms(a)
        if not terms:
            continue
        eff = []
        for p, ps in terms:
            flips = set()
            P = stim.PauliString(n)
            if ps is None:
                flips = {recs[i]}
            else:
                for q, c in ps.items():
                    P[q] = c
                for j in range(i + 1, len(ats)):
                    b = ats[j]
                    if b[0] in NOISE or b[0] in ANNOT:
                        continue
                    if b[0] in MEAS:
                        Q = stim.PauliString(n)
                        if b[0] == "MPP":
                            for t in b[2]:
                                Q[t.value] = "X" if t.is_x_target else "Y" if t.is_y_target else "Z"
                        else:
                            Q[b[2][0].value] = {"M": "Z", "MX": "X", "MY": "Y"}[b[0]]
                        if not P.commutes(Q):
                            flips ^= {recs[j]}
                    elif b[0] in ("R", "RX", "RY"):
                        P[b[2][0].value] = 0
                    else:
                        P = P.after(to_circuit([b]))
            eff.append((p, (P[pair[0]], P[pair[1]]), frozenset(flips)))
        new = {}
        rest = 1 - sum(e[0] for e in eff)
        for (pp, ff), w in dist.items():
            new[pp, ff] = new.get((pp, ff), 0) + w * rest
            for p, pq, fl in eff:
                key = (mul(pp[0], pq[0]), mul(pp[1], pq[1])), ff ^ fl
                new[key] = new.get(key, 0) + w * p
        dist = new
    return dist


def mul(a, b):
    """Product of stim Pauli codes 0=I 1=X 2=Y 3=Z."""
    if a == 0 or b == 0:
        return a + b
    return 0 if a == b else 6 - a - b


def is_mix(dist, p, tol=1e-9):
    """Is it: with probability p a uniformly random one of 16 Paulis x 2 flips?"""
    bad = []
    for a in range(4):
        for b in range(4):
            for f in (frozenset(), frozenset([0])):
                want = p / 32 + (1 - p if (a, b, f) == (0, 0, frozenset()) else 0)
                got = dist.get(((a, b), f), 0)
                if abs(got - want) > tol:
                    bad.append(((a, b), sorted(f), got, want))
    extra = [k for k, v in dist.items() if v > tol and not (k[1] <= {0})]
    return bad + extra


def measures_parity(ats, t1, t2):
    """Do the (noiseless) atoms implement MPP t1*t2, whatever the other qubits are?  Returns an error message or None."""
    import stim
    ref = to_circuit([("MPP", (), (t1, t2))])
    c = to_circuit([a for a in ats if a[0] not in NOISE and a[0] not in ANNOT])
    if c.num_measurements != 1:
        return f"{c.num_measurements} measurements"
    pair = {t1.value, t2.value}
    for fl in ref.flow_generators():
        if any(P[i] for P in (fl.input_copy(), fl.output_copy()) for i in range(len(P)) if i not in pair):
            continue
        if not c.has_flow(fl, unsigned=False):
            return f"flow {fl} missing"
    return None


C1 = ["C_XYZ", "C_ZYX", "H", "H_YZ", "I"]
C2 = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
KNOWN = {"SD6": C1 + ["CX", "R", "M"], "PC3": C1 + C2 + ["R", "M"], "EM3_v1": C1 + ["R", "M", "MPP"], "EM3_v2": C1 + C2 + ["R", "M", "MPP"], "SI1000": C1 + ["CZ", "R", "M"]}


def random_circuit(rng, names, nq, depth=0, single=True, nrec=None, invert=True):
    """A random circuit of the given operations with ticks, annotations and repeat blocks."""
    import stim
    c = stim.Circuit()
    nrec = [0] if nrec is None else nrec
    if depth == 0 and rng.random() < 0.7:
        for q in range(nq):
            if rng.random() < 0.6:
                c.append("QUBIT_COORDS", [q], [q, rng.choice([0, 1, 0.5])])
    free = list(range(nq))
    rng.shuffle(free)
    for _ in range(rng.randint(1, 9 if depth == 0 else 5)):
        k = rng.choice(["op"] * 6 + ["tick"] * 3 + ["ann"] * 3 + ["rep"])
        if k == "tick":
            c.append("TICK", [])
            free = list(range(nq))
            rng.shuffle(free)
        elif k == "ann":
            a = rng.choice(["DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS"])
            recs = [stim.target_rec(-r) for r in rng.sample(range(1, min(nrec[0], 5) + 1), rng.randint(0, min(nrec[0], 3)))]
            if a == "DETECTOR":
                c.append(a, recs, [rng.choice([0, 1, 2.5]) for _ in range(rng.randint(0, 3))])
            elif a == "OBSERVABLE_INCLUDE":
                c.append(a, recs, rng.randint(0, 3))
            elif a == "SHIFT_COORDS":
                c.append(a, [], [rng.choice([0, 1, -1]) for _ in range(rng.randint(1, 3))])
            else:
                c.append(a, [rng.randrange(nq)], [rng.randint(0, 3), rng.randint(0, 3)])
        elif k == "rep":
            if depth >= 2:
                continue
            before = nrec[0]
            b = random_circuit(rng, names, nq, depth + 1, single, nrec, invert)
            r = rng.choice([2, 2, 3])
            nrec[0] = before
            if len(b):
                c.append(stim.CircuitRepeatBlock(r, b))
            nrec[0] = c.num_measurements if depth == 0 else before + c.num_measurements
            free = list(range(nq))
            rng.shuffle(free)
        else:
            name = rng.choice(names)
            pool = free if single else rng.sample(range(nq), nq)
            if name in C2:
                m = rng.randint(1, 3) * 2
                if len(pool) < m:
                    continue
                ts = pool[:m]
            elif name == "MPP":
                m = rng.randint(1, 2)
                if len(pool) < 2 * m:
                    continue
                ts = []
                for j in range(m):
                    f = [stim.target_x, stim.target_y, stim.target_z]
                    a, b = (rng.choice(f)(pool[2 * j + d], invert=invert and rng.random() < 0.25) for d in (0, 1))
                    ts += [a, stim.target_combiner(), b]
                m *= 2
            else:
                m = rng.randint(1, max(1, min(3, len(pool))))
                if len(pool) < m:
                    continue
                ts = [stim.target_inv(q) if name in ("M", "MX", "MY") and invert and rng.random() < 0.2 else q for q in pool[:m]]
            if name in ("CX", "CY", "CZ", "XCZ", "YCZ") and False:
                pass
            c.append(name, ts)
            if name in ("M", "MX", "MY", "MPP"):
                nrec[0] += m // (2 if name == "MPP" else 1)
            if single:
                free = free[m:]
    return c
