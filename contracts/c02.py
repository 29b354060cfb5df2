"""C02: the circuit measures exactly the honeycomb parity schedule."""
import sys

from contracts import circ, hc, hcsym, stab
from contracts.c01 import few, rounds
from contracts.c05 import lay_of
from contracts.common import Broken, require
from pyvc.core import Unsupported

LEVEL = "other"
EXPLANATION = ("Proved for every number of sub-rounds (symbolic, no bound) on the 2 x 6 and 4 x 6 patches (quick) and three larger ones (thorough), every style "
               "and observable: the generator's source is executed with sub_rounds = 6 m + r, m arbitrary; with M the operations in flight at the end of a "
               "repetition, prefix = preparation; sub-rounds 0..s-1; M, and M; repetition = six sub-rounds; M, and M; suffix = the remaining sub-rounds; read-out, "
               "each as equality of the operations' complete sets of relations between inputs, outputs and records, signs included. Bounded: other patch sizes")
BUDGET = {"quick": 150, "thorough": 1200}
CHUNK = 1
BOUND = ("all styles x observables x sub-round counts 1..22 on the 2 x 6 and 4 x 6 patches, selected ones on larger patches: stabiliser flows of the real circuit "
         "against those of the reference schedule; measurement counts for large (folded) counts")


def cases(tier, rng):
    for st in hc.STYLES:
        for o in "HV":
            for n in rounds(st, range(1, 23)):
                yield {"dw": 2, "dh": 6, "style": st, "obs": o, "n": n}
            for n in rounds(st, [1, 2, 3, 4, 5, 6, 8, 9, 12, 13, 16, 18] if tier == "quick" else range(1, 31)):
                yield {"dw": 4, "dh": 6, "style": st, "obs": o, "n": n}
            for dw, dh in [(6, 6), (4, 12)] + ([(6, 12), (8, 6), (2, 18)] if tier == "thorough" else []):
                for n in rounds(st, [3, rng.choice([4, 5, 7]), rng.choice([6, 12, 15])]):
                    yield {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}
            for n in rounds(st, [99, 100, 101, 600, 3000, 3001, 3002, 30000]):
                yield {"dw": 4, "dh": 6, "style": st, "obs": o, "n": n, "count": 1}


def run_case(c):
    import stim
    circuit = lay_of(c).make_circuit()
    n, nd = c["n"], c["dw"] * c["dh"]
    require(circuit.num_measurements == n * (nd // 2) + nd, f"{c}: {circuit.num_measurements} measurements, expected {n * (nd // 2) + nd}")
    if "count" in c:
        return
    C = hc.Circuit(circuit, c["dw"], c["dh"], n)
    for ctr, (r, a, b) in C.g.edge_at.items():
        want = len([k for k in range(n) if k % 3 == r])
        require(C.count.get(ctr, 0) == want, f"{c}: the edge at {ctr} is measured {C.count.get(ctr, 0)} times in {n} sub-rounds, expected {want}")
    D, drec = hc.opened(C, c["obs"], n)
    R, rrec = hc.reference_circuit(C, c["obs"], n)
    # records of D as sums of abstract edge values -> express each abstract edge value in records of D
    where = {}
    for i, v in enumerate(drec):
        for prev in [j for j in range(i) if drec[j] < v and len(v - drec[j]) == 1][-1:] if len(v) > 1 else []:
            where[next(iter(v - drec[prev]))] = (prev, i)
        if len(v) == 1:
            where[next(iter(v))] = (i,)
    m = len(drec)
    flows = []
    nq = max(circuit.num_qubits, 1)
    for f in R.flow_generators():
        recs = []
        for t in f.measurements_copy():
            k = rrec[t if t >= 0 else t + len(rrec)]
            require(k in where, f"{c}: the parity {k} cannot be recovered from the records")
            for i in where[k]:
                recs = [x for x in recs if x != i] if i in recs else recs + [i]
        a, b = f.input_copy(), f.output_copy()
        if len(a) > nd and any(a[i] for i in range(nd, len(a))):
            continue
        flows.append(stim.Flow(input=a, output=b, measurements=sorted(recs)))
    if D.has_all_flows(flows, unsigned=False):
        return
    bad = [f for f in flows if not D.has_flow(f, unsigned=False)]
    require(not bad, f"{c}: {len(bad)} of {len(flows)} relations of the schedule fail, e.g. {str(bad[0])[:300]}")


# ------------------------------------------------------------------ obligations
def pieces(F, data):
    """The three parts as operations from data qubits to data qubits: preparation and read-out replaced by basis changes, annotations dropped,
    ancillas put back to 0 behind their measurements. A record then is the parity measured, see `transparent`."""
    import stim
    out = []
    for part, ats in (("P", F.P), ("B", F.B), ("S", F.S)):
        ats = [a for a in ats if a[0] not in circ.ANNOT]
        first, last = {}, {}
        for i, a in enumerate(ats):
            for t in a[2]:
                if t.value in data:
                    first.setdefault(t.value, i)
                    last[t.value] = i
        got = []
        for i, (name, args, ts) in enumerate(ats):
            q = ts[0].value
            if q in data and name in ("R", "RX", "RY"):
                if part != "P" or first[q] != i:
                    return None, f"data qubit {q} is reset in the middle"
                if name != "R":
                    got.append(("H" if name == "RX" else "H_YZ", (), ts))
            elif q in data and name in ("M", "MX", "MY"):
                if part != "S" or last[q] != i or ts[0].is_inverted_result_target:
                    return None, f"data qubit {q} is measured in the middle or inverted"
                if name != "M":
                    got.append(("H" if name == "MX" else "H_YZ", (), ts))
            else:
                got.append((name, args, ts))
                if name == "M":
                    got.append(("R", (), (stim.GateTarget(q),)))
        if part == "P" and any(q not in first or ats[first[q]][0] not in ("R", "RX", "RY") for q in data):
            return None, "a data qubit is not prepared"
        if part == "S" and any(q not in last or ats[last[q]][0] not in ("M", "MX", "MY") for q in data):
            return None, "a data qubit is not measured at the end"
        out.append(got)
    return out, ""


def transparent(ats, data):
    """Whether putting an ancilla back to 0 behind its measurement only takes the earlier result out of its later ones: from a measurement to the
    next reset every operation on the ancilla keeps its X; a gate on it afterwards must not see it (X of the ancilla is a fixed point)."""
    open_ = set()
    for name, args, ts in ats:
        if name in circ.ANNOT:
            continue
        if name in circ.MEAS and name != "M" and any(t.value in open_ for t in ts):
            return False
        if name == "M" and ts[0].value not in data:
            open_.add(ts[0].value)
        elif name in ("R", "RX", "RY"):
            open_.discard(ts[0].value)
        elif name not in circ.MEAS:
            im = stab.table(name)
            for k, t in enumerate(ts):
                if t.value in open_ and im[2 * k] != (1 << k, 0):
                    return False
    return True


def in_flight(ats, data):
    """(gates on single data qubits, operations) behind the last complete sub-round: what no measurement so far depends on."""
    live, past = set(), [False] * len(ats)
    for i in range(len(ats) - 1, -1, -1):
        name, args, ts = ats[i]
        qs = {t.value for t in ts}
        if name in circ.MEAS or qs & live:
            past[i] = True
            if name in ("R", "RX", "RY"):
                live -= qs
            else:
                live |= qs
    frame = [a for a, p in zip(ats, past) if p and len(a[2]) == 1 and a[2][0].value in data and a[0] not in circ.MEAS]
    return frame, [a for a, p in zip(ats, past) if not p]


def same_operation(P, name, left, lrec, right, rrec, nq, conf, me):
    """Both circuits have the same relations between inputs, outputs and records (signs included), records being matched by what they stand for."""
    import stim
    pad = stim.Circuit()
    pad.append("I", list(range(nq)))
    left, right = left + pad, right + pad
    if sorted(lrec) != sorted(rrec) or len(set(lrec)) != len(lrec):
        a, b = set(lrec), set(rrec)
        hcsym.decide(P, f"{name}: the same parities are measured", False, f"{len(a - b)} unexpected, {len(b - a)} missing", conf, me)
        return
    P.evaluated(f"{name}: the same parities are measured", True)
    at = {v: i for i, v in enumerate(lrec)}
    gens = right.flow_generators()
    flows = []
    for f in gens:
        recs = sorted(at[rrec[t]] for t in f.measurements_copy())
        flows.append(stim.Flow(input=f.input_copy(), output=f.output_copy(), measurements=recs))
    ok = len(left.flow_generators()) == len(gens) and left.has_all_flows(flows, unsigned=False)
    hcsym.decide(P, f"{name}: the same relations hold", ok, "the relations between input, output and records differ", conf, me)


def schedule(P, conf):
    import stim
    me = sys.modules[__name__]
    dw, dh, st, o, r = conf

    def go():
        F, m = hcsym.folded(P, conf)
        n0 = 6 * hcsym.FIRST_M + r
        data = set(hc.Circuit(list(F.P), dw, dh).data)
        hcsym.shape(P, F, conf, me)
        parts, why = pieces(F, data)
        hcsym.decide(P, "data qubits are prepared once at the start and measured once at the end", parts is not None, why, conf, me)
        if parts is None:
            return
        Po, Bo, So = parts
        ok = transparent(F.P + F.B + F.B + F.S, data) and transparent(F.P + F.S, data)
        hcsym.decide(P, "a record is the measured parity, up to earlier records of the same ancilla", ok, "an ancilla is used without a reset", conf, me)
        if not ok:
            return
        C = hc.Circuit(list(F.P), dw, dh)
        count = dict.fromkeys(C.g.edge_at, 0)

        def labels(ats):
            out = []
            for name, args, ts in ats:
                if name == "M":
                    ctr = C.pos[ts[0].value]
                elif name == "MPP":
                    b = "X" if ts[0].is_x_target else "Y" if ts[0].is_y_target else "Z"
                    cs = C.g.by_ends.get(("XYZ".index(b), frozenset(C.data.get(t.value) for t in ts)))
                    if not cs:
                        raise Unsupported("a parity that is not an edge")
                    ctr = min(cs, key=lambda c: count[c])
                else:
                    if name in circ.MEAS:
                        raise Unsupported(name)
                    continue
                out.append((C.g.edge_at[ctr][0] + 3 * count[ctr], ctr))
                count[ctr] += 1
            return out
        lp = labels(Po)
        s = 1 + max([k for k, _ in lp], default=-1)
        saved = dict(count)
        lb = labels(Bo)
        count.update(saved)
        ls = labels(So)
        anc = [q for q in range(F.nq) if q not in data]
        reset = stim.Circuit()
        if anc:
            reset.append("R", anc)
        frame, rest = in_flight(Po, data)
        # The preparation's basis change is part of the reference.
        frame = frame[:]
        init = hc.obs_basis(o, 0)
        for q in data if init != "Z" else ():
            k = next((k for k, a in enumerate(frame) if a[2][0].value == q), None)
            if k is None or frame[k][0] not in ("H", "H_YZ"):
                raise Unsupported("basis change of the preparation")
            del frame[k]
        M = circ.to_circuit(frame) + reset + circ.to_circuit(rest)

        def ref(lo, hi):
            c, rec = stim.Circuit(), []
            f = [stim.target_x, stim.target_y, stim.target_z]
            for k in range(lo, hi):
                for a, b, ctr in C.g.edges[k % 3]:
                    t = f[k % 3]
                    c.append("MPP", [t(C.q_at[a]), stim.target_combiner(), t(C.q_at[b])])
                    rec.append((k, ctr))
            return c, rec

        def change(b):
            c = stim.Circuit()
            if b != "Z":
                c.append("H" if b == "X" else "H_YZ", sorted(data))
            return c
        c1, r1 = ref(0, s)
        same_operation(P, "before the loop: preparation and the first sub-rounds", reset + circ.to_circuit(Po), lp, change(init) + c1 + M, r1, F.nq, conf, me)
        c2, r2 = ref(s, s + 6)
        same_operation(P, "every repetition: six sub-rounds", M + circ.to_circuit(Bo), lb, c2 + M, r2, F.nq, conf, me)
        P.eng.assumptions.add("contract of NoiseModel.noisy_circuit (C07): without noise it returns the circuit itself")
        P.eng.assumptions.add("stim.Circuit.flow_generators and has_all_flows are right (the signs are compared by stim with a randomised test of error 2^-256)")
        c3, r3 = ref(s, n0)
        same_operation(P, "behind the loop: the last sub-rounds and the read-out", M + circ.to_circuit(So) + reset, ls,
                       c3 + change(hc.obs_basis(o, n0)) + reset, r3, F.nq, conf, me)
    try:
        P.group(hcsym.name_of(*conf), go)
    except stab.Outside as ex:
        P.eng.undecided(hcsym.name_of(*conf), f"outside of the algebra: {ex}")


def small(P, item):
    """The numbers of sub-rounds below the symbolic ones, one by one."""
    dw, dh, st, o, n = item
    case = {"dw": dw, "dh": dh, "style": st, "obs": o, "n": n}
    try:
        run_case(case)
        P.evaluated("circuits with few sub-rounds perform the schedule", True)
    except Broken as ex:
        P.evaluated("circuits with few sub-rounds perform the schedule", False, str(ex)[:400], witness=case)


def prove(P):
    P.parallel(hcsym.configurations(P.tier), schedule)
    P.parallel(few(P.tier), small)
