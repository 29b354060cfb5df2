"""C04: the H and V observables are conserved, independent logical operators."""
from contracts.c01 import few
from contracts.common import require
from contracts.c05 import lay_of
from contracts.geom import Span, anticommute, pauli

LEVEL = "other"
EXPLANATION = ("Proved for every patch size (the number of tiles in each direction symbolic) and every sub-round: the operator commutes with every edge measured "
               "before and after it and with every plaquette, is replaced by itself times the edges of its path, is independent of the stabilisers and of the other "
               "operator, and its path is a closed loop. Proved for every number of sub-rounds on the 2 x 6 and 4 x 6 patches (quick; three more thorough), every style: "
               "the circuit's observable is the operator valid at the end times all edge parities along its path. Bounded: read-out on other patches")
BUDGET = {"quick": 90, "thorough": 600}
BOUND = "every grid size up to 8 x 18 (quick) or 12 x 30 (thorough), sub-rounds -7..20 and some large ones; read-out in circuits of every style"
STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]


def cases(tier, rng):
    for dw in range(2, 9 if tier == "quick" else 13, 2):
        for dh in range(6, 19 if tier == "quick" else 31, 6):
            yield {"kind": "op", "dw": dw, "dh": dh}
    yield {"kind": "op", "dw": 2, "dh": 36}
    for dw, dh in ((20, 6), (30, 6), (44, 6), (2, 66), (26, 12)):
        yield {"kind": "op", "dw": dw, "dh": dh}
    for st in STYLES:
        for ob in "HV":
            for n in (range(1, 26) if st != "SI1000" else range(3, 27, 3)):
                yield {"kind": "read", "dw": rng.choice([2, 4]), "dh": 6, "style": st, "obs": ob, "n": n}


def run_case(c):
    if c.get("kind", "read") == "read":
        return read(c)
    lays = {o: lay_of(c, obs=o) for o in "HV"}
    n = c["dw"] * c["dh"]
    sz = f"{c['dw']} x {c['dh']}"
    L = lays["H"]
    q2i = L.q2i
    plaqs = [pauli("XYZ"[r], [q2i[q] for q in L.qubits_around_hex(h)], n) for r in range(3) for h in L.round_hex_centers(r)]
    edge = [{e: pauli("XYZ"[r], [q2i[e.left], q2i[e.right]], n) for e in L.round_edges(r)} for r in range(3)]
    pspan = Span(plaqs)
    isg = []
    for r in range(3):
        s = Span(pspan.piv.values())
        for v in edge[r].values():
            s.add(v)
        isg.append(s)
    require([L.sub_round_edge_basis(k) for k in (0, 1, 2, 3, 7, -1, 300)] == list("XYZXYZX"), f"{sz}: sub_round_edge_basis")
    for k in list(range(-7, 21)) + [3000, 3001, 10 ** 6 + 5]:
        ops = {}
        for o, lay in lays.items():
            b, qs = lay.obs_before_sub_round(k)
            direct = (lay.obs_h_before_sub_round if o == "H" else lay.obs_v_before_sub_round)(k)
            require((b, list(qs)) == (direct[0], list(direct[1])), f"{sz}: obs_before_sub_round({k}) of {o} is not the {o} operator")
            require(len(set(qs)) == len(qs) and len(qs) > 0, f"{sz}: the {o} operator before sub-round {k} repeats a qubit")
            op = ops[o] = pauli(b, [q2i[q] for q in qs], n)
            for e, v in edge[k % 3].items():
                require(not anticommute(op, v, n), f"{sz}: the {o} operator before sub-round {k} anticommutes with {e} measured in it")
            for e, v in edge[(k - 1) % 3].items():
                require(not anticommute(op, v, n), f"{sz}: the {o} operator before sub-round {k} anticommutes with {e} just measured")
            for v in plaqs:
                require(not anticommute(op, v, n), f"{sz}: the {o} operator before sub-round {k} anticommutes with a plaquette")
            require(op not in isg[(k - 1) % 3], f"{sz}: the {o} operator before sub-round {k} is a product of stabilisers")
            b2, qs2 = lay.obs_before_sub_round(k + 1)
            nxt = pauli(b2, [q2i[q] for q in qs2], n)
            prod = op
            path = set(lay.obs_edges) & set(lay.round_edges(k))
            for e in path:
                prod ^= edge[k % 3][e]
            require(prod == nxt, f"{sz}: the {o} operator before sub-round {k + 1} is not the one before {k} times the edges of its path")
            require(len(set(lay.obs_edges)) == len(lay.obs_edges) and set(lay.obs_edges) <= set(lay.all_edges), f"{sz}: {o} path")
            require(lay.obs_edges == (lay.obs_h_edges if o == "H" else lay.obs_v_edges) and lay.obs_qubits == (lay.obs_h_qubits if o == "H" else lay.obs_v_qubits), f"{sz}: the {o} path is not the {o} path")
            require(set(qs) <= set(lay.obs_qubits), f"{sz}: the {o} operator leaves its path")
        require(ops["H"] ^ ops["V"] not in isg[(k - 1) % 3], f"{sz}: H and V coincide up to stabilisers before sub-round {k}")
        require(len(bin(ops["H"])) and ops["H"] != ops["V"], f"{sz}")
    require(lays["H"].obs_index != lays["V"].obs_index, "H and V have the same observable index")
    for o, lay in lays.items():
        es, qs = lay.obs_edges, lay.obs_qubits
        deg = {}
        for e in es:
            for q in (e.left, e.right):
                deg[q] = deg.get(q, 0) + 1
        require(set(deg) == set(qs) and set(deg.values()) == {2}, f"{sz}: the {o} path is not a closed loop through its qubits")
    bad = lay_of(c, obs="Q")
    for f in (lambda: bad.obs_before_sub_round(0), lambda: bad.obs_edges, lambda: bad.obs_qubits, lambda: bad.obs_index):
        try:
            f()
        except Exception:
            continue
        require(False, "an unknown observable was accepted")


def read(c):
    from contracts import hc
    lay = lay_of(c)
    C = hc.Circuit(lay.make_circuit(), c["dw"], c["dh"], c["n"])
    want, qs = hc.expected_observable(C.g, c["obs"], c["n"])
    require(set(C.observables) == {lay.obs_index}, f"{c}: observables {sorted(C.observables)}")
    got = C.observables[lay.obs_index]
    gd, wd = sorted(k[1] for k in got if k[0] == "d"), sorted(k[1] for k in want if k[0] == "d")
    require(gd == wd, f"{c}: the final data measurement reads {gd}, the operator valid at the end is {wd}")
    require(got == want, f"{c}: the observable's value is not its final read-out times the edge parities along its path; difference {sorted(map(str, got ^ want))[:4]}")


def prove(P):
    from contracts import hcsym
    from contracts.laygeom import prove_c04
    prove_c04(P)
    P.parallel(hcsym.configurations(P.tier), readout)
    P.parallel(few(P.tier), small)


def readout(P, conf):
    """What the circuit reads as the observable, for every number of sub-rounds."""
    import sys
    from contracts import hc, hcsym
    from pyvc.core import Unsupported
    me = sys.modules[__name__]
    dw, dh, st, o, r = conf

    def go():
        F, m = hcsym.folded(P, conf)
        if max(F.lookback(F.B), F.lookback(F.S)) > F.window():
            raise Unsupported("observables reach back beyond the first repetition")
        hcsym.shape(P, F, conf, me)
        lay = lay_of({"dw": dw, "dh": dh, "n": 6, "style": st, "obs": o})
        for j in (0, 1):
            C = hc.Circuit(F.concrete(j), dw, dh)
            want, _ = hc.expected_observable(C.g, o, 6 * (hcsym.FIRST_M + j) + r)
            ok = set(C.observables) == {lay.obs_index} and C.observables[lay.obs_index] == want
            hcsym.decide(P, f"with {j} repetitions the read-out is the final operator times the edge parities along its path", ok, "the observable contains other measurements", conf, me)
        P.eng.assumptions.add("contract of NoiseModel.noisy_circuit (C07): without noise it returns the circuit itself")
    P.group(hcsym.name_of(*conf), go)


def small(P, item):
    """The numbers of sub-rounds below the symbolic ones, one by one."""
    from contracts.common import Broken
    dw, dh, st, o, n = item
    case = {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}
    try:
        run_case(case)
        P.evaluated("circuits with few sub-rounds read the operator", True)
    except Broken as ex:
        P.evaluated("circuits with few sub-rounds read the operator", False, str(ex)[:400], witness=case)
