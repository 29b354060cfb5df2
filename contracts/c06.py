"""C06: qubit indexing is a bijection, counts are exact."""
from contracts.common import require
from contracts.c05 import lay_of
from contracts.geom import Torus

LEVEL = "other"
BUDGET = {"quick": 90, "thorough": 600}
BOUND = "every grid size up to 8 x 18 (quick) or 14 x 36 (thorough) x every style; circuits for the smaller ones"
EXPLANATION = ("Proved for every size (symbolic number of tiles): index map, used qubits, counts, halves, exclusion. Bounded: that the made "
               "circuit declares and touches exactly those qubits.")
STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]


def cases(tier, rng):
    for dw in range(2, 9 if tier == "quick" else 15, 2):
        for dh in range(6, 19 if tier == "quick" else 37, 6):
            for st in STYLES:
                yield {"dw": dw, "dh": dh, "style": st, "obs": rng.choice("HV"), "n": rng.choice([3, 6, 12, 15, 18]), "noise": rng.choice([0.0, 0.001])}
    for dw, dh in ((44, 6), (2, 96), (14, 54)):
        for st in STYLES:
            yield {"dw": dw, "dh": dh, "style": st, "obs": "H", "n": 6, "noise": 0.0}


def run_case(c):
    lay = lay_of(c)
    T = Torus(c["dw"], c["dh"])
    nd = c["dw"] * c["dh"]
    what = f"{c['dw']} x {c['dh']} {c['style']}"
    q2i = lay.q2i
    edges = list(lay.all_edges)
    centers = {e.center for e in edges}
    data = set(lay.data_qubit_coords)
    require(len(edges) == len(centers) == nd * 3 // 2, f"{what}: {len(edges)} edges at {len(centers)} places")
    require(set(q2i) == data | centers and not data & centers, f"{what}: the index map does not cover data and measurement qubits exactly")
    require(sorted(q2i.values()) == list(range(len(q2i))), f"{what}: indices are not 0..{len(q2i) - 1}")
    require(sorted(q2i[q] for q in data) == list(range(nd)), f"{what}: data qubits do not come first")
    require({(q.real, q.imag) for q in data} == set(T.data), f"{what}: data qubits misplaced")
    require(len(lay.measure_qubit_coords) == len(centers) and set(lay.measure_qubit_coords) == centers, f"{what}: measure_qubit_coords")
    require(len(lay.data_qubit_coords) == nd, f"{what}: data_qubit_coords repeats")
    require([q2i[q] for q in lay.data_qubit_coords] == list(lay.data_qubit_indices), f"{what}: data_qubit_indices")
    require([q2i[q] for q in lay.measure_qubit_coords] == list(lay.measure_qubit_indices), f"{what}: measure_qubit_indices")
    em = c["style"].startswith("EM3")
    used = list(lay.used_qubit_coords)
    require(len(used) == len(set(used)) and set(used) == (data if em else data | centers), f"{what}: used_qubit_coords")
    require([q2i[q] for q in used] == list(lay.used_qubit_indices), f"{what}: used_qubit_indices")
    require(lay.num_qubits == len(used) and isinstance(lay.num_qubits, int), f"{what}: num_qubits = {lay.num_qubits!r}, {len(used)} are used")
    a, b = list(lay.data_qubit_indices_1st), list(lay.data_qubit_indices_2nd)
    require(len(set(a)) == len(a) == len(b) == len(set(b)) == nd // 2 and sorted(a + b) == list(range(nd)), f"{what}: halves {a} {b}")
    sa = set(a)
    for e in edges:
        require((q2i[e.left] in sa) != (q2i[e.right] in sa), f"{what}: {e} does not have one end in each half")
    some = [0, nd - 1, nd]
    require(list(lay.qubit_indices_except(some)) == [i for i in range(len(q2i)) if i not in some], f"{what}: qubit_indices_except")
    if nd > 64:
        return
    circ = lay.make_circuit()
    coords = circ.get_final_qubit_coordinates()
    require({i: tuple(v) for i, v in coords.items()} == {q2i[q]: (q.real, q.imag) for q in used}, f"{what}: the circuit's qubit coordinates differ from the index map")
    touched = set()
    for op in circ.without_noise().flattened():
        if op.name in ("QUBIT_COORDS", "DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "TICK"):
            continue
        touched |= {t.value for t in op.targets_copy() if not t.is_combiner and not t.is_measurement_record_target}
    extra = touched - set(lay.used_qubit_indices)
    gadget = c["style"] == "EM3_v2" and c["noise"] > 0
    require(len(extra) <= (1 if gadget else 0) and all(x >= nd for x in extra), f"{what}: the circuit touches qubits {sorted(extra)} that are not reported")
    require(set(lay.used_qubit_indices) <= touched, f"{what}: reported qubits {sorted(set(lay.used_qubit_indices) - touched)} are never used")


def prove(P):
    from contracts.laygeom import prove_c06
    prove_c06(P)
