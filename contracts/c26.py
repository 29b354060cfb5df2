"""C26: circuit diagrams."""
from contracts.common import require

EXPLANATION = ("every circuit: which operations are gone through (repeat blocks, only-repeat-block, by induction on the nesting), the label and layer of every "
               "target, the joined pairs, products of parity measurements, layers ended by ticks, the last layer, idle marks, what is refused (plot_circuit); any number of layers "
               "on any board: the cell of every label, lines and wrapped ends of pairs, marks never cover labels, lines never cover labels (diagram_3d); the text has "
               "the character of every cell in its row and column (diagram_2d)")
ASSUMPTIONS = ["fold principle: a for-loop meets every operation of the circuit once, in order; loops without carried variables are given by one arbitrary iteration",
               "induction on the nesting depth of repeat blocks", "stim's accessors (name, targets_copy, gate_args_copy, body_copy, repeat_count) describe the circuit",
               "two-qubit operations have an even number of targets; parity measurements are products of one or two Paulis",
               "layers are non-empty, on integer positions with at least two rows and two columns, pairs in a row or a column (the property's domain)"]
BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 5
BOUND = "random circuits on integer grids up to 5 x 4 with neighbouring and wrapped pairs, repeat blocks (nested), all drawable operations; generated memory circuits"
SYM = {"M": "M", "R": "R", "H": "H", "H_YZ": "G", "C_XYZ": "C", "C_ZYX": "C", "MR": "D", "MY": "m", "MX": "m"}
C2 = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]


def cases(tier, rng):
    for _ in range(500 if tier == "quick" else 6000):
        yield {"seed": rng.randint(0, 10 ** 9), "only": rng.random() < 0.4}
    for st in ("SD6", "EM3", "SI1000"):
        for o in (True, False):
            yield {"style": st, "only": o}


def rand(rng):
    import stim
    w, h = rng.randint(2, 5), rng.randint(2, 4)
    cells = [(x, y) for x in range(w) for y in range(h) if rng.random() < 0.9 or (x, y) in ((0, 0), (w - 1, h - 1))]
    rng.shuffle(cells)
    ids = rng.sample(range(len(cells) + 3), len(cells))
    at = dict(zip(cells, ids))
    c = stim.Circuit()
    for p, q in at.items():
        c.append("QUBIT_COORDS", [q], p)

    def layer():
        out = stim.Circuit()
        free = set(cells)
        for _ in range(rng.randint(0, 5)):
            if not free:
                break
            k = rng.choice(list(SYM) + ["2q", "2q", "MPP", "MPP1", "noise", "det"])
            a = rng.choice(sorted(free))
            nb = [b for b in sorted(free) if b != a and ((a[0] == b[0]) != (a[1] == b[1])) and (abs(a[0] - b[0]) + abs(a[1] - b[1]) <= 1 or rng.random() < 0.3)]
            if k in SYM:
                free.discard(a)
                inv = k in ("M", "MX", "MY", "MR") and rng.random() < 0.2
                out.append(k, [stim.target_inv(at[a]) if inv else at[a]])
            elif k == "2q" and nb:
                b = rng.choice(nb)
                free -= {a, b}
                out.append(rng.choice(C2), [at[a], at[b]])
            elif k == "MPP" and nb:
                b = rng.choice(nb)
                free -= {a, b}
                f = [stim.target_x, stim.target_y, stim.target_z]
                out.append("MPP", [rng.choice(f)(at[a]), stim.target_combiner(), rng.choice(f)(at[b])])
            elif k == "MPP1":
                free.discard(a)
                out.append("MPP", [rng.choice([stim.target_x, stim.target_y, stim.target_z])(at[a])])
            elif k == "noise":
                out.append(rng.choice(["X_ERROR", "DEPOLARIZE1"]), [at[a]], 0.1)
            elif k == "det":
                out.append("SHIFT_COORDS", [], [0, 0, 1])
        out.append("TICK", [])
        return out

    def block(depth):
        out = stim.Circuit()
        for _ in range(rng.randint(1, 3)):
            if depth < 2 and rng.random() < 0.35:
                out += block(depth + 1) * rng.choice([2, 3])
            else:
                out += layer()
        return out
    c += block(0)
    if rng.random() < 0.3:
        c += stim.Circuit(str(layer()).replace("TICK", ""))
    return c


def layers_of(circuit, only):
    """Independent reading: [({position: label}, [(position, position)])]."""
    import stim
    pos = {}
    out = []
    cur, con = {}, []

    def emit(c, inside, reps):
        nonlocal cur, con
        for _ in range(reps):
            for op in c:
                if isinstance(op, stim.CircuitRepeatBlock):
                    if only and not inside:
                        emit(op.body_copy(), True, 1)
                    else:
                        emit(op.body_copy(), inside, op.repeat_count)
                    continue
                if op.name == "QUBIT_COORDS":
                    for t in op.targets_copy():
                        pos[t.value] = tuple(op.gate_args_copy())
                    continue
                if only and not inside:
                    continue
                ts = op.targets_copy()
                if op.name == "TICK":
                    out.append((cur, con))
                    cur, con = {}, []
                elif op.name in SYM:
                    for t in ts:
                        cur[pos[t.value]] = SYM[op.name]
                elif op.name in C2:
                    for a, b in zip(ts[::2], ts[1::2]):
                        cur[pos[a.value]] = "@" if len(op.name) == 2 else op.name[0]
                        cur[pos[b.value]] = op.name[-1]
                        con.append((pos[a.value], pos[b.value]))
                elif op.name == "MPP":
                    i = 0
                    while i < len(ts):
                        g = [ts[i]]
                        while i + 1 < len(ts) and ts[i + 1].is_combiner:
                            i += 2
                            g.append(ts[i])
                        i += 1
                        for t in g:
                            cur[pos[t.value]] = "x" if t.is_x_target else "y" if t.is_y_target else "z"
                        if len(g) == 2:
                            con.append((pos[g[0].value], pos[g[1].value]))
    emit(circuit, False, 1)
    if cur:
        out.append((cur, con))
    for lv, _ in out:
        for p in pos.values():
            lv.setdefault(p, "\\")
    return pos, out


def run_case(c):
    import math
    import random
    import circuit_diagrams as cdg
    if "style" in c:
        from contracts.c05 import lay_of
        circuit = lay_of({"dw": 2, "dh": 6, "style": c["style"], "n": 15, "noise": 0.001 if c["style"] != "EM3" else 0.0}).make_circuit()
        import stim
        # half-integer positions are spread out: the drawing's columns are twice the row coordinate
    else:
        circuit = rand(random.Random(c["seed"]))
    pos, lv = layers_of(circuit, c["only"])
    if not lv:
        return
    text = cdg.plot_circuit(circuit, only_repeat_block=c["only"])
    rows = text.split("\n")

    def at(cell):
        r, k = cell
        return rows[r][k] if 0 <= r < len(rows) and 0 <= k < len(rows[r]) else " "
    L = len(lv)

    def cell(p, z):
        return math.ceil((p[0] + 1) * (L + 2)) + z, math.ceil((2 * p[1] + 2) * (L + 3)) + z
    # the drawing may be shifted as a whole (leading blanks are kept by the code, but do not rely on it)
    labels = {}
    for z, (l, _) in enumerate(lv):
        for p, s in l.items():
            require(cell(p, z) not in labels, "two labels in one place")
            labels[cell(p, z)] = s
    for k, s in labels.items():
        require(at(k) == s, f"{c}: expected {s!r} at row {k[0]} column {k[1]}, found {at(k)!r} in\n{text}\n{circuit}")
    xs = [p[0] for p in pos.values()]
    ys = [p[1] for p in pos.values()]
    allowed = {}
    for z, (_, con) in enumerate(lv):
        for a, b in con:
            if min(a[0], b[0]) == min(xs) and max(a[0], b[0]) == max(xs):
                lo, hi = sorted((a, b))
                segs = [(lo, (lo[0] - 0.5, lo[1])), (hi, (hi[0] + 0.5, hi[1]))]
                marks = [s[1] for s in segs]
            elif min(a[1], b[1]) == min(ys) and max(a[1], b[1]) == max(ys):
                lo, hi = sorted((a, b), key=lambda p: p[1])
                segs = [(lo, (lo[0], lo[1] - 0.25)), (hi, (hi[0], hi[1] + 0.25))]
                marks = [s[1] for s in segs]
            else:
                segs, marks = [(a, b)], []
            for s, t in segs:
                (r1, k1), (r2, k2) = cell(s, z), cell(t, z)
                if r1 != r2 and k1 != k2:
                    continue
                want = "-+=" if r1 == r2 else "|+"
                for r in range(min(r1, r2), max(r1, r2) + 1):
                    for k in range(min(k1, k2), max(k1, k2) + 1):
                        allowed.setdefault((r, k), set()).update(want)
                        if (r, k) not in labels and (r, k) not in {cell(m, zz) for m in marks for zz in [z]}:
                            require(at((r, k)) in want + "~|+-=", f"{c}: the connection of {a} and {b} in layer {z} is interrupted at row {r} column {k}: {at((r, k))!r} in\n{text}")
            for m in marks:
                allowed.setdefault(cell(m, z), set()).update("~")
                require(at(cell(m, z)) == "~" or cell(m, z) in labels, f"{c}: the wrapped connection of {a} and {b} in layer {z} is not marked in\n{text}")
    for r, line in enumerate(rows):
        for k, ch in enumerate(line):
            if ch != " " and (r, k) not in labels:
                require(ch in allowed.get((r, k), ()) or ((r, k) in allowed and ch in "+=-|~"), f"{c}: stray {ch!r} at row {r} column {k} in\n{text}\n{circuit}")


# ------------------------------------------------------------------ obligations
def prove(P):
    from contracts import diagram
    diagram.prove(P)
    from contracts import diagram3
    diagram3.prove(P)
