"""Reading a generated memory circuit in terms of the honeycomb: which record is which edge at which sub-round, independent of the layout code."""
import copy

from contracts import circ
from contracts.common import require
from contracts.geom import Torus

STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]
H_BASIS, V_BASIS = "XXZZYY", "ZYYXXZ"


def obs_basis(obs, k):
    return (H_BASIS if obs == "H" else V_BASIS)[k % 6]


class Geometry(Torus):
    def __init__(self, dw, dh):
        super().__init__(dw, dh)
        self.edges = [[], [], []]      # per class: (end, end, centre)
        self.edge_at = {}
        for (x, y), r in self.hexes.items():
            for (ax, ay), (bx, by) in (((1, -1), (1, -2)), ((1, 1), (1, 2)), ((1, 0), (3, 0))):
                a, b = self.w(x + ax, y + ay), self.w(x + bx, y + by)
                ctr = self.w(x + (ax + bx) / 2, y + (ay + by) / 2)
                self.edges[r].append((a, b, ctr))
                self.edge_at[ctr] = (r, a, b)
        self.by_ends = {}
        for ctr, (r, a, b) in self.edge_at.items():
            self.by_ends.setdefault((r, frozenset((a, b))), []).append(ctr)

    def boundary(self, h):
        """(first, second) halves of the boundary of a plaquette: centres of edges of the next and of the next but one class."""
        x, y = h
        r = self.hexes[h]
        out = {1: [], 2: []}
        for dx, dy in ((0, -1), (0, 1), (1, -0.5), (1, 0.5), (-1, -0.5), (-1, 0.5)):
            ctr = self.w(x + dx, y + dy)
            out[(self.edge_at[ctr][0] - r) % 3].append(ctr)
        return out[1], out[2]


class Circuit:
    """A noiseless memory circuit: abstract records of its measurements, detectors and observable.

    Made from a whole circuit, or from its first operations and then fed with the rest piece by piece."""

    def __init__(self, circuit, dw, dh, n=None):
        self.g = G = Geometry(dw, dh)
        self.ats = []
        self.pos, self.q_at, self.data = {}, {}, {}
        self.rec = []               # abstract value of each record: frozenset of ('e', k, centre) / ('d', position)
        self.count = {}             # centre -> number of measurements so far
        self.acc = {}               # ancilla -> accumulated abstract value since its last reset
        self.offset = []
        self.known, self.cut = set(), 0     # see fold_old
        self.detectors, self.observables = [], {}
        self.feed(circ.atoms(circuit) if not isinstance(circuit, list) else circuit)
        for d in G.data:
            require(d in self.q_at, f"no qubit at the data position {d}")

    def feed(self, ats):
        G = self.g
        self.ats += ats
        for name, args, ts in ats:
            if name == "QUBIT_COORDS":
                q = ts[0].value
                require(q not in self.pos, f"qubit {q} has two positions")
                self.pos[q] = (args[0], args[1])
                require(self.pos[q] not in self.q_at, f"two qubits have the position {self.pos[q]}")
                self.q_at[self.pos[q]] = q
                if self.pos[q] in G.data:
                    self.data[q] = self.pos[q]
            elif name == "SHIFT_COORDS":
                k = max(len(self.offset), len(args))
                self.offset = [a + b for a, b in zip(self.offset + [0] * (k - len(self.offset)), list(args) + [0] * (k - len(args)))]
            elif name in ("M", "MX", "MY"):
                q = ts[0].value
                if q in self.data:
                    self.rec.append(frozenset([("d", self.data[q])]))
                    continue
                require(q in self.pos and self.pos[q] in G.edge_at, f"qubit {q} is measured but is neither on a vertex nor on an edge")
                ctr = self.pos[q]
                j = self.count.get(ctr, 0)
                self.count[ctr] = j + 1
                self.acc[q] = self.acc.get(q, frozenset()) ^ {("e", G.edge_at[ctr][0] + 3 * j, ctr)}
                self.rec.append(self.acc[q])
            elif name == "MPP":
                require(len(ts) == 2, f"a product of {len(ts)} Paulis is measured")
                b = "X" if ts[0].is_x_target else "Y" if ts[0].is_y_target else "Z"
                r = "XYZ".index(b)
                ends = frozenset(self.data.get(t.value) for t in ts)
                cs = G.by_ends.get((r, ends))
                require(cs, f"the {b}{b} parity of {sorted(map(str, ends))} is measured, which is not an edge of that class")
                ctr = min(cs, key=lambda c: self.count.get(c, 0))
                j = self.count.get(ctr, 0)
                self.count[ctr] = j + 1
                self.rec.append(frozenset([("e", r + 3 * j, ctr)]))
            elif name in ("R", "RX", "RY"):
                self.acc[ts[0].value] = frozenset()
            elif name == "DETECTOR":
                v = frozenset()
                for t in ts:
                    v ^= self.rec[len(self.rec) + t.value]
                o = self.offset
                self.detectors.append((v, tuple(a + (o[i] if i < len(o) else 0) for i, a in enumerate(args))))
            elif name == "OBSERVABLE_INCLUDE":
                v = frozenset()
                for t in ts:
                    v ^= self.rec[len(self.rec) + t.value]
                k = int(args[0])
                self.observables[k] = self.observables.get(k, frozenset()) ^ v

    def fold_old(self, width):
        """Replaces what each ancilla has accumulated long ago by a symbol of its own; forgets all but the last records. Whether the symbols stand for
        every earlier measurement of their edges."""
        now = max((self.g.edge_at[c][0] + 3 * j for c, j in self.count.items()), default=0)
        cut = now - 18

        def old(v):
            return frozenset(x for x in v if x[0] == "e" and x[1] < cut)
        sym = {self.pos[q]: old(v) for q, v in self.acc.items() if old(v)}

        def fold(v):
            o, has = old(v), {x[1] for x in v if x[0] == "o"}
            if has and len(has) == 1:
                # The symbol takes in what has become old since: all of it, or it would stand for something else.
                c, = has
                return v - o if o == sym.get(c, frozenset()) else v | {("part", c)}
            if o and not has:
                c = next(iter(o))[2]
                if sym.get(c) == o and c not in self.known:
                    return (v - o) | {("o", c)}
            return v
        self.acc = {q: fold(v) for q, v in self.acc.items()}
        self.rec = [fold(v) for v in self.rec[len(self.rec) - width:]] if width else []
        self.known = {x[1] for v in self.acc.values() for x in v if x[0] == "o"}
        since, self.cut = self.cut, cut
        # Each symbol stands for every measurement of its edge so far, up to `cut`.
        return all(sym.get(c, frozenset()) == frozenset(("e", k, c) for k in range(max(0, since), max(0, cut)) if k % 3 == self.g.edge_at[c][0])
                   for c in self.known)

    def fork(self):
        c = copy.copy(self)
        c.ats, c.rec, c.count, c.acc = list(self.ats), list(self.rec), dict(self.count), dict(self.acc)
        c.detectors, c.observables, c.offset = list(self.detectors), dict(self.observables), list(self.offset)
        return c

    def state(self, back=0):
        """Everything the meaning of later operations depends on, with sub-rounds counted from `back` and that time taken off the coordinates."""
        def sh(v):
            return frozenset((x[0], x[1] - back, x[2]) if x[0] == "e" else x for x in v)
        o = (list(self.offset) + [0, 0, 0])[:max(3, len(self.offset))]
        o[2] -= back
        return ({c: self.g.edge_at[c][0] + 3 * j - back for c, j in self.count.items()}, {q: sh(v) for q, v in self.acc.items() if v},
                [sh(v) for v in self.rec], tuple(o))


def expected_detectors(G, obs, n):
    """[(records, (x, y, t))]: every plaquette is compared with its last known value each time it is completed."""
    b0 = obs_basis(obs, 0)
    known = "XYZ".index(b0)
    val = {h: (frozenset() if r == known else None) for h, r in G.hexes.items()}
    half = {h: (frozenset() if r == (known - 1) % 3 else None) for h, r in G.hexes.items()}
    out = []

    def xor(cs, k):
        return frozenset(("e", k, c) for c in cs)
    for k in range(n):
        if k == 0 and known == 0:
            for a, b, ctr in G.edges[0]:
                out.append((frozenset([("e", 0, ctr)]), (ctr[0], ctr[1], 0)))
        for h, r in G.hexes.items():
            first, second = G.boundary(h)
            if (k - 1) % 3 == r:
                half[h] = xor(first, k)
            if (k - 2) % 3 == r:
                new = None if half[h] is None else half[h] ^ xor(second, k)
                if new is not None and val[h] is not None:
                    out.append((new ^ val[h], (h[0], h[1], k)))
                val[h] = new
    b = obs_basis(obs, n)
    last = (n - 1) % 3
    c = "XYZ".index(b)

    def six(h):
        return frozenset(("d", q) for q in G.hex_qubits(h))
    if last == c:
        for x, y, ctr in G.edges[c]:
            out.append((frozenset([("d", x), ("d", y), ("e", n - 1, ctr)]), (ctr[0], ctr[1], n)))
    else:
        o = 3 - last - c
        for h, r in G.hexes.items():
            if r == o and half[h] is not None and val[h] is not None:
                out.append((six(h) ^ half[h] ^ val[h], (h[0], h[1], n)))
    for h, r in G.hexes.items():
        if r == c and val[h] is not None:
            out.append((six(h) ^ val[h], (h[0], h[1], n)))
    return out


def path_edges(G, obs):
    """Centres of the edges along the observable's loop."""
    if obs == "H":
        return [c for c, (r, a, b) in G.edge_at.items() if a[1] in (0, 1) and b[1] in (0, 1)]
    return [c for c, (r, a, b) in G.edge_at.items() if a[0] == 1 and b[0] == 1]


def expected_observable(G, obs, n):
    """Edges of the loop measured in each sub-round, and the data qubits of the operator valid at the end."""
    out = frozenset()
    cs = path_edges(G, obs)
    for k in range(n):
        out ^= frozenset(("e", k, c) for c in cs if G.edge_at[c][0] == k % 3)
    # operator at the end: start operator times all path edge parities so far
    op = {}
    if obs == "H":
        start = [(q, "X") for q in G.data if q[1] in (0, 1)]
    else:
        start = [(q, "Z") for q in G.data if q[0] == 1 and q[1] % 3 != 0]
    bits = {"X": 1, "Z": 2, "Y": 3}
    for q, p in start:
        op[q] = op.get(q, 0) ^ bits[p]
    for k in range(n):
        for c in cs:
            r, a, b = G.edge_at[c]
            if r == k % 3:
                for q in (a, b):
                    op[q] = op.get(q, 0) ^ bits["XYZ"[r]]
    op = {q: v for q, v in op.items() if v}
    b = obs_basis(obs, n)
    assert set(op.values()) == {bits[b]}, (obs, n, op)
    return out ^ frozenset(("d", q) for q in op), set(op)


def opened(C, obs, n):
    """The circuit with the preparation and the read-out of the data qubits removed (as an operation from data qubits to data qubits),
    and, per record, its abstract edge values; for comparing against the reference schedule."""
    import stim
    first, last = {}, {}
    for i, (name, args, ts) in enumerate(C.ats):
        if name in circ.ANNOT:
            continue
        for t in ts:
            if t.value in C.data and not t.is_measurement_record_target:
                first.setdefault(t.value, i)
                last[t.value] = i
    out = stim.Circuit()
    rec = []
    k = 0
    for i, a in enumerate(C.ats):
        name, args, ts = a
        if name in circ.ANNOT:
            continue
        q = ts[0].value
        if q in C.data and first.get(q) == i:
            require(name in ("R", "RX", "RY"), f"data qubit {q} is not prepared before it is used (first operation: {name})")
            if name != "R":
                out.append("H" if name == "RX" else "H_YZ", [q])
            continue
        if name in ("M", "MX", "MY") and q in C.data:
            require(last[q] == i, f"data qubit {q} is measured before the end")
            require(not ts[0].is_inverted_result_target, "an inverted data measurement")
            if name != "M":
                out.append("H" if name == "MX" else "H_YZ", [q])
            k += 1
            continue
        require(not (name in ("R", "RX", "RY") and q in C.data), f"data qubit {q} is reset in the middle")
        out += circ.to_circuit([a])
        if name in circ.MEAS:
            rec.append(C.rec[k])
            k += 1
    for q in C.data:
        i = last.get(q)
        require(i is not None and C.ats[i][0] in ("M", "MX", "MY"), f"data qubit {q} is not measured at the end")
    return out, rec


def reference_circuit(C, obs, n):
    """Basis change, n sub-rounds of parity measurements, basis change, as MPPs; and the abstract records in order."""
    import stim
    out = stim.Circuit()
    rec = []
    ds = sorted(C.data)

    def change(b):
        if b != "Z":
            out.append("H" if b == "X" else "H_YZ", ds)
    change(obs_basis(obs, 0))
    f = [stim.target_x, stim.target_y, stim.target_z]
    for k in range(n):
        for a, b, ctr in C.g.edges[k % 3]:
            t = f[k % 3]
            out.append("MPP", [t(C.q_at[a]), stim.target_combiner(), t(C.q_at[b])])
            rec.append(("e", k, ctr))
    change(obs_basis(obs, n))
    return out, rec
