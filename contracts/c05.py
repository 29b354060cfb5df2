"""C05: the layout is a 3-coloured honeycomb on a torus."""
from contracts.common import require
from contracts.geom import Torus

EXPLANATION = ("for every patch size (symbolic, even width and height a multiple of 6): plaquettes of each class, their corners and boundary edges, the edges of each "
               "class, the data qubits, wrap-around; that every qubit lies on one edge of each class, every edge borders two plaquettes of the other classes "
               "and joins two of its own, and sizes that are not multiples are refused")
BUDGET = {"quick": 60, "thorough": 600}
BOUND = "every grid size up to 10 x 24 (quick) or 16 x 48 (thorough), plus 2 x 60, 2 x 96, 30 x 6, 44 x 6, 26 x 42"


def cases(tier, rng):
    for dw in range(2, 11 if tier == "quick" else 17, 2):
        for dh in range(6, 25 if tier == "quick" else 49, 6):
            yield {"dw": dw, "dh": dh}
    yield {"dw": 2, "dh": 60}
    yield {"dw": 30, "dh": 6}
    yield {"dw": 12, "dh": 18}
    yield {"dw": 2, "dh": 96}
    yield {"dw": 44, "dh": 6}
    yield {"dw": 26, "dh": 42}
    yield {"bad": 1}


def lay_of(c, **kw):
    from honeycomb_layout import HoneycombLayout
    return HoneycombLayout(**{**dict(data_width=c["dw"], data_height=c["dh"], sub_rounds=c.get("n", 6), style=c.get("style", "SD6"), obs=c.get("obs", "H"), noise=c.get("noise", 0.0)), **kw})


def run_case(c):
    from honeycomb_layout import HoneycombLayout
    if "bad" in c:
        for dw, dh in ((3, 6), (5, 6), (4, 7), (4, 8), (4, 9), (4, 3), (1, 6), (7, 12), (4, 10), (6, 15)):
            try:
                HoneycombLayout(data_width=dw, data_height=dh, sub_rounds=3, style="SD6", obs="H", noise=0)
            except Exception:
                continue
            require(False, f"a {dw} x {dh} patch was accepted")
        return
    lay = lay_of(c)
    T = Torus(c["dw"], c["dh"])
    data = list(lay.data_qubit_coords)
    sz = f"{c['dw']} x {c['dh']}"
    require(len(data) == len(set(data)) == c["dw"] * c["dh"], f"{sz}: {len(data)} data qubits")
    ds = set(data)

    def inside(q, what):
        require(0 <= q.real < T.W and 0 <= q.imag < T.H, f"{sz}: {what} {q} is not wrapped into the torus")
    for q in data:
        inside(q, "data qubit")
    require({(q.real, q.imag) for q in ds} == set(T.data), f"{sz}: data qubits are not at the honeycomb's vertices")
    # wrapping
    for q in list(ds)[:8] + [0.5 + 1j, 0 + 0j, 3.5 + 5.5j]:
        for a in (-2, -1, 0, 1, 3):
            for b in (-1, 0, 2):
                w = lay.wrap(complex(q.real + a * T.W, q.imag + b * T.H))
                require(w == q, f"{sz}: wrap({q} + {a} widths + {b} heights) = {w}")
    hexes = [list(lay.round_hex_centers(r)) for r in range(3)]
    allh = [h for hs in hexes for h in hs]
    require(len(allh) == len(set(allh)) == c["dw"] * c["dh"] // 2, f"{sz}: {len(allh)} plaquettes")
    col = {h: r for r in range(3) for h in hexes[r]}
    for h in allh:
        inside(h, "plaquette")
    require({(h.real, h.imag) for h in allh} == set(T.hexes), f"{sz}: plaquettes are not at the honeycomb's faces")
    classes = [list(lay.round_edges(r)) for r in range(3)]
    for r in (-4, -1, 3, 4, 8, 301):
        require(list(lay.round_edges(r)) == classes[r % 3], f"{sz}: round_edges({r}) differs from class {r % 3}")
    require(sorted(map(repr, lay.all_edges)) == sorted(repr(e) for cl in classes for e in cl), f"{sz}: all_edges is not the union of the classes")
    on = {}
    seen = set()
    for r, cl in enumerate(classes):
        cnt = {}
        for e in cl:
            require(e.left in ds and e.right in ds and e.left != e.right, f"{sz}: {e} does not join two data qubits")
            inside(e.center, "edge centre")
            dx = (e.right.real - e.left.real + T.W / 2) % T.W - T.W / 2
            dy = (e.right.imag - e.left.imag + T.H / 2) % T.H - T.H / 2
            if T.W == 4 and abs(dx) == 2:
                # both ways round are equally long
                ok = any(lay.wrap(complex(e.left.real + s / 2, e.left.imag + dy / 2)) == e.center for s in (2, -2)) and dy == 0
            else:
                ok = lay.wrap(complex(e.left.real + dx / 2, e.left.imag + dy / 2)) == e.center and (abs(dx), abs(dy)) in ((0, 1), (2, 0))
            require(ok, f"{sz}: {e} is not an edge of the honeycomb with its centre in the middle")
            require(e.center not in seen, f"{sz}: two edges at {e.center}")
            seen.add(e.center)
            for q in (e.left, e.right):
                cnt[q] = cnt.get(q, 0) + 1
                on.setdefault(q, []).append((r, e))
        require(set(cnt) == ds and set(cnt.values()) == {1}, f"{sz}: class {r} does not pair up the data qubits")
    for q in ds:
        require(sorted(r for r, _ in on[q]) == [0, 1, 2], f"{sz}: data qubit {q} is on edges of classes {[r for r, _ in on[q]]}")
    index = [set(cl) for cl in classes]
    hexes_of = {}
    for h in allh:
        r = col[h]
        qs = lay.qubits_around_hex(h)
        require(len(qs) == 6 and set(qs) == {complex(*p) for p in T.hex_qubits((h.real, h.imag))}, f"{sz}: qubits around {h}: {qs}")
        require(len(set(qs)) == 6, f"{sz}: qubits around {h} repeat")
        f, s, a = lay.first_edges_around_hex(h), lay.second_edges_around_hex(h), lay.all_edges_around_hex(h)
        require(len(set(f)) == len(set(s)) == 3 and set(a) == set(f) | set(s) and len(a) == 6, f"{sz}: edges around {h}")
        for k, es in ((1, f), (2, s)):
            for e in es:
                require(e in index[(r + k) % 3], f"{sz}: {e} around plaquette {h} of class {r} is not an edge of class {(r + k) % 3}")
            require({q for e in es for q in (e.left, e.right)} == set(qs), f"{sz}: half of the boundary of {h} does not touch its six qubits")
            for e in es:
                d = e.center - h
                dx, dy = (d.real + T.W / 2) % T.W - T.W / 2, (d.imag + T.H / 2) % T.H - T.H / 2
                require((abs(dx), abs(dy)) in ((0, 1), (1, 0.5)), f"{sz}: {e} is not on the boundary of {h}")
        for q in qs:
            hexes_of.setdefault(q, []).append(h)
    for q in ds:
        require(sorted(col[h] for h in hexes_of[q]) == [0, 1, 2], f"{sz}: data qubit {q} is not on one plaquette of each class")
    # An edge of one class leads from a plaquette of that class to another of that class: the plaquette at each
    # end (the one of its class containing that end) does not have the edge on its boundary.
    for r, cl in enumerate(classes):
        for e in cl:
            for q in (e.left, e.right):
                h, = [h for h in hexes_of[q] if col[h] == r]
                require(e not in lay.all_edges_around_hex(h), f"{sz}: {e} of class {r} is on the boundary of plaquette {h} of its own class")


def prove(P):
    from contracts.laygeom import prove_c05
    prove_c05(P)
