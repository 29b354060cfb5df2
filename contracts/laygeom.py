"""The honeycomb torus for every size at once: specification families and the layout's contracts over them.

Sizes are symbolic: data_width = 2*tw, data_height = 6*th, tw, th >= 1. In coordinates (W = 4*tw, H = 6*th):
  data qubit   (2c+1, y)            0 <= c < 2*tw, 0 <= y < H
  plaquette    (2c, y), y = c mod 2 same ranges; class y mod 3
  edge         vertical   {(2c+1, y), (2c+1, y+1)}, centre in between, class (y+2) mod 3
               horizontal {(2c+1, y), (2c+3, y)}, y = c mod 2,  centre in between, class y mod 3
with all positions wrapped into [0, W) x [0, H). The contracts below say that the layout's functions compute exactly these sets;
a function under proof is interpreted from its source while its callees are replaced by their contracts.
"""
import z3

from pyvc import core
from pyvc.prover import mval
from pyvc.values import Fam, SBool, SComplex, SNum, as_num, implies, ite, land, lnot, lor, value_eq, zb

M = "honeycomb_layout.HoneycombLayout."
STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]


ORIENT = z3.Function("left_end_first", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Geo:
    def __init__(self, P, style="SD6", obs="H", n=6):
        """n: number of sub-rounds (may be symbolic)."""
        import honeycomb_layout as hl
        self.P, self.eng, self.hl = P, P.eng, hl
        self.tw, self.th = P.int("tw", 1), P.int("th", 1)
        self.cols = 2 * self.tw
        self.W, self.H = 4 * self.tw, 6 * self.th
        self.lay = P.call(hl.HoneycombLayout, data_width=2 * self.tw, data_height=6 * self.th, sub_rounds=n, style=style, obs=obs, noise=0.0)
        self.style, self.obs = style, obs

    def get(self, name):
        return self.P.interp.getattr(self.lay, name)

    def do(self, name, *args):
        return self.P.interp.call(self.P.interp.getattr(self.lay, name), args, {})

    def wit(self, m):
        tw, th = mval(m, self.tw), mval(m, self.th)
        if tw * th > 60:
            return None
        n = mval(m, self.lay.sub_rounds)
        return {"dw": 2 * tw, "dh": 6 * th, "style": self.style, "obs": self.obs, "kind": "op", "n": n, "noise": 0.0}

    # -- arithmetic on the torus
    def wrap1(self, v, L):
        return ite(zb(as_num(v) < 0), v + L, ite(zb(as_num(v) >= L), v - L, v))

    def at(self, x, y):
        return SComplex(self.wrap1(as_num(x), self.W), self.wrap1(as_num(y), self.H))

    def col(self, name="c"):
        c = SNum(self.eng.fresh(name, z3.IntSort()))
        self.eng.assume(land(c >= 0, c < self.cols))
        return c

    def row(self, name="y"):
        y = SNum(self.eng.fresh(name, z3.IntSort()))
        self.eng.assume(land(y >= 0, y < self.H))
        return y

    # -- specification families
    def data(self):
        return Fam(lambda: SComplex(2 * self.col() + 1, self.row()), kind=tuple, distinct=True)

    def is_data(self, q):
        x, y = as_num(q.real), as_num(q.imag)
        if not (x.is_int_sort and y.is_int_sort):
            return False
        return land(x >= 0, x < self.W, y >= 0, y < self.H, isint(x), isint(y), mod_is(x, 2, 1))

    def hexes(self, r):
        def pick():
            c, y = self.col(), self.row()
            self.eng.assume(land((y - c) % 2 == 0, y % 3 == as_num(r) % 3))
            return SComplex(2 * c, y)
        return Fam(pick, kind=tuple, distinct=True)

    def is_hex(self, h, r):
        x, y = as_num(h.real), as_num(h.imag)
        return land(x >= 0, x < self.W, y >= 0, y < self.H, isint(x), isint(y), mod_is(x, 2, 0), mod_is(x - 2 * y, 4, 0), mod_is(y, 3, as_num(r) % 3))

    def edge(self, kind, c, y):
        """(end, other end, centre, class) of the vertical edge centred at (2c+1, y+1/2) or the horizontal one centred at (2c, y)"""
        if kind == 0:
            return SComplex(2 * c + 1, y), self.at(2 * c + 1, y + 1), SComplex(2 * c + 1, y + half()), (y + 2) % 3
        return self.at(2 * c - 1, y), SComplex(2 * c + 1, y), SComplex(2 * c, y), y % 3

    def edges(self, r=None, oriented=False):
        """Edge objects of class r (of all classes for None); which end is `left` is left open."""
        def pick():
            kind = self.eng.choose(2)
            c, y = self.col(), self.row()
            a, b, m, cl = self.edge(kind, c, y)
            if kind == 1:
                self.eng.assume((y - c) % 2 == 1)
            if r is not None:
                self.eng.assume(cl == as_num(r) % 3)
            o = SBool(ORIENT(z3.IntVal(kind), c.e, y.e))
            return mk_edge(self.hl, ite(o, a, b), ite(o, b, a), m)
        return Fam(pick, kind=tuple, distinct=True)

    def is_edge(self, e, r=None):
        """e is an edge of class r: its centre is the centre of one, and its ends are the ends of that one."""
        x, y = as_num(e.center.real), as_num(e.center.imag)
        base = land(x >= 0, x < self.W, y >= 0, y < self.H)
        hor = land(mod_is(x, 2, 0), isint(y), mod_is(x - 2 - 2 * y, 4, 0), SBool(z3.BoolVal(True)) if r is None else mod_is(y, 3, as_num(r) % 3),
                   unordered(e.left, e.right, self.at(x - 1, y), self.at(x + 1, y)))
        ver = land(mod_is(x, 2, 1), isint(y - half()), SBool(z3.BoolVal(True)) if r is None else mod_is(y - half() + 2, 3, as_num(r) % 3),
                   unordered(e.left, e.right, self.at(x, y - half()), self.at(x, y + half())))
        return land(base, lor(hor, ver))

    # -- contracts of callees
    def assume_contracts(self, *names):
        cc = self.eng.callee_contracts = {}
        spec = {
            "round_hex_centers": lambda lay, r: self.hexes(r),
            "round_edges": lambda lay, r: self.edges(r),
            "all_edges": lambda lay: self.edges(),
            "data_qubit_coords": lambda lay: self.data(),
            "measure_qubit_coords": lambda lay: self.centers(),
        }
        for n in names:
            cc[M + n] = spec[n]
            self.eng.assumptions.add(f"contract of {n} (discharged by check C05{'' if n != 'measure_qubit_coords' else '/C06'})")

    def centers(self):
        f = self.edges()
        return Fam(lambda: f.pick().center, kind=tuple, distinct=True)

    def is_center(self, q):
        """Quantifier-free form of membership in centers() (proved equivalent by C06)."""
        x, y = as_num(q.real), as_num(q.imag)
        hor = land(mod_is(x, 2, 0), isint(y), mod_is(x - 2 - 2 * y, 4, 0))
        ver = land(mod_is(x, 2, 1), isint(y - half()))
        return land(x >= 0, x < self.W, y >= 0, y < self.H, lor(hor, ver))


def half():
    import fractions
    return fractions.Fraction(1, 2)


def isint(v):
    v = as_num(v)
    if v.den == 1:
        return SBool(z3.BoolVal(True))
    return SBool(v.e % v.den == 0)


def mod_is(v, m, r):
    """v is an integer congruent to r modulo m (no division involved: v may be a multiple of 1/den)."""
    v, r = as_num(v), as_num(r)
    if v.den == 1:
        return SBool((v.e - r.e) % m == 0)
    return SBool((v.e - r.e * v.den) % (m * v.den) == 0)


def unordered(a, b, c, d):
    return lor(land(value_eq(a, c), value_eq(b, d)), land(value_eq(a, d), value_eq(b, c)))


def mk_edge(hl, a, b, m):
    e = object.__new__(hl.Edge)
    e.left, e.right, e.center = a, b, m
    return e


def edge_eq(e, f):
    return land(value_eq(e.center, f.center), unordered(e.left, e.right, f.left, f.right))


def same_center(e, f):
    """For edges (is_edge holds): the centre determines the edge."""
    return value_eq(e.center, f.center)


def no_contracts(P):
    P.eng.callee_contracts = {}


# ------------------------------------------------------------------ obligations of C05
def prove_c05(P):
    eng = P.eng

    def sizes():
        import honeycomb_layout as hl
        dw, dh = P.int("dw", 1), P.int("dh", 1)
        legal = land(dw % 2 == 0, dh % 6 == 0)
        try:
            P.call(hl.HoneycombLayout, data_width=dw, data_height=dh, sub_rounds=6, style="SD6", obs="H", noise=0.0)
        except core.PyExc as pe:
            P.prove("only illegal sizes are refused", lnot(legal))
            return
        P.prove("illegal sizes are refused", legal, lambda m: {"bad": 1})
    P.group("sizes", sizes)

    def wrapping():
        g = Geo(P)
        x, y = SNum(z3.Int("x"), 2), SNum(z3.Int("y"), 2)
        eng.assume(land(x >= -1 * g.W, x < 2 * g.W, y >= -1 * g.H, y < 2 * g.H))
        w = g.do("wrap", SComplex(x, y))
        P.prove("wrapped into the torus", land(as_num(w.real) >= 0, as_num(w.real) < g.W, as_num(w.imag) >= 0, as_num(w.imag) < g.H), g.wit)
        P.prove("wrapping moves by multiples of the size", land(value_eq(w.real, g.wrap1(x, g.W)), value_eq(w.imag, g.wrap1(y, g.H))), g.wit)
    P.group("wrap", wrapping)

    for r in range(3):
        def hexes():
            g = Geo(P)
            f = g.do("round_hex_centers", r)
            P.every_element("every plaquette is a face of the class", f, lambda h: g.is_hex(h, r), g.wit)
            P.contains_all("every face of the class is a plaquette", f, g.hexes(r), witness=g.wit)
            P.no_duplicates("no plaquette twice", f, witness=g.wit)
        P.group(f"plaquettes of class {r}", hexes)

    def edges():
        g = Geo(P)
        g.assume_contracts("round_hex_centers")
        r = P.int("r")
        f = g.do("round_edges", r)
        P.every_element("every edge is an edge of the class, centred between its ends", f, lambda e: g.is_edge(e, r), g.wit)
        P.every_element("every edge joins a data qubit of either checkerboard colour", f,
                        lambda e: land(g.is_data(e.left), g.is_data(e.right), lnot(value_eq(e.left, e.right))), g.wit)
        P.contains_all("every edge of the class is there", f, g.edges(r), same_center, witness=g.wit)
        P.no_duplicates("no edge twice", f, lambda e: e.center, witness=g.wit)
    P.group("edges of a class", edges, max_paths=20000)

    def all_edges():
        g = Geo(P)
        g.assume_contracts("round_edges")
        f = g.get("all_edges")
        P.every_element("every edge is an edge", f, lambda e: g.is_edge(e), g.wit)
        P.contains_all("every edge is there", f, g.edges(), same_center, witness=g.wit)
        P.no_duplicates("no edge in two classes", f, lambda e: (e.center, e.left), witness=g.wit)
    P.group("all edges", all_edges)

    def data():
        g = Geo(P)
        g.assume_contracts("all_edges")
        f = g.get("data_qubit_coords")
        P.prove("data qubits are listed once", bool(f.distinct))
        P.every_element("every data qubit is a vertex", f, g.is_data, g.wit)
        P.contains_all("every vertex is a data qubit", f, g.data(), witness=g.wit)
    P.group("data qubits", data)

    def boundary():
        g = Geo(P)
        r = P.int("r")
        h = g.hexes(r).pick()
        x, y = h.real, h.imag
        hor = lambda dy: (g.at(x - 1, y + dy), g.at(x + 1, y + dy), g.at(x, y + dy))
        ver = lambda dx, dy: (g.at(x + dx, y + dy), g.at(x + dx, y + dy + 1), g.at(x + dx, y + dy + half()))
        spec = {1: [hor(1), ver(1, -1), ver(-1, -1)], 2: [hor(-1), ver(1, 0), ver(-1, 0)]}
        six = [g.at(x + a, y + b) for a in (-1, 1) for b in (-1, 0, 1)]
        fe = {1: list(g.do("first_edges_around_hex", h)), 2: list(g.do("second_edges_around_hex", h))}
        al = list(g.do("all_edges_around_hex", h))
        same = lambda e, s: land(value_eq(e.center, s[2]), unordered(e.left, e.right, s[0], s[1]))
        for k in (1, 2):
            P.prove(f"three edges of class +{k} around a plaquette", len(fe[k]) == 3)
            for s in spec[k]:
                P.prove(f"the edges of class +{k} on the boundary are listed", lor(*[same(e, s) for e in fe[k]]), g.wit)
            for e in fe[k]:
                P.prove(f"only edges of class +{k} on the boundary are listed", land(g.is_edge(e, r + k), lor(*[same(e, s) for s in spec[k]])), g.wit)
            ends = [q for e in fe[k] for q in (e.left, e.right)]
            for i in range(len(ends)):
                P.prove(f"the class +{k} edges cover six different qubits", land(*[lnot(value_eq(ends[i], q)) for q in ends[:i]]) if i else True, g.wit)
        P.prove("six boundary edges", len(al) == 6)
        for s in spec[1] + spec[2]:
            P.prove("all boundary edges are listed", lor(*[same(e, s) for e in al]), g.wit)
    P.group("plaquette boundary", boundary)

    def corners():
        g = Geo(P)
        r = P.int("r")
        h = g.hexes(r).pick()
        six = [g.at(h.real + a, h.imag + b) for a in (-1, 1) for b in (-1, 0, 1)]
        qs = list(g.do("qubits_around_hex", h))
        P.prove("six qubits around a plaquette", len(qs) == 6)
        for i, s in enumerate(six):
            P.prove("each corner is a data qubit and is listed", land(g.is_data(s), lor(*[value_eq(s, q) for q in qs])), g.wit)
            P.prove("the corners are different", land(*[lnot(value_eq(s, q)) for q in six[:i]]) if i else True, g.wit)
    P.group("plaquette corners", corners, max_paths=20000)

    def lemmas():
        """Over the specified sets only (they hold for the layout by the contracts above)."""
        g = Geo(P)
        r = P.int("r")

        def unique():
            e, f = g.edges(r).pick(), g.edges(r).pick()
            eng.assume(lor(value_eq(e.left, f.left), value_eq(e.left, f.right), value_eq(e.right, f.left), value_eq(e.right, f.right)))
            P.prove("lemma: two edges of one class that touch are the same edge", edge_eq(e, f))
        eng.sub_explore(unique)

        def exists():
            q = g.data().pick()
            P.prove("lemma: every data qubit is on an edge of every class", SBool(g.edges(r).member(q, lambda e, z: lor(value_eq(e.left, z), value_eq(e.right, z)))))
            around = lambda h, z: lor(*[value_eq(g.at(h.real + a, h.imag + b), z) for a in (-1, 1) for b in (-1, 0, 1)])
            P.prove("lemma: every data qubit is on a plaquette of every class", SBool(g.hexes(r).member(q, around)))
        eng.sub_explore(exists)

        def one_hex():
            h, i = g.hexes(r).pick(), g.hexes(r).pick()
            around = lambda h: [g.at(h.real + a, h.imag + b) for a in (-1, 1) for b in (-1, 0, 1)]
            eng.assume(lor(*[value_eq(a, b) for a in around(h) for b in around(i)]))
            P.prove("lemma: two plaquettes of one class that share a qubit are the same plaquette", value_eq(h, i))
        eng.sub_explore(one_hex)

        def classes():
            e = g.edges(r).pick()
            P.prove("lemma: an edge of a class is in no other class, hence on the boundary of no plaquette of its own class", lnot(lor(g.is_edge(e, r + 1), g.is_edge(e, r + 2))))
        eng.sub_explore(classes)
    P.group("honeycomb", lemmas)
    no_contracts(P)


# ------------------------------------------------------------------ obligations of C04
BITS = {"X": (1, 0), "Y": (1, 1), "Z": (0, 1)}


def indexers(P, g):
    """Certificates for the order of the two observable paths' qubits."""
    import honeycomb_layout  # noqa

    def h_path(f):
        # columns left to right, two qubits per column, the first one in row (column + 1) mod 2
        at = lambda i: SComplex(1 + 2 * (as_num(i) // 2), (as_num(i) % 2 + 1 + as_num(i) // 2) % 2)
        inv = lambda q: 2 * ((as_num(q.real) - 1) // 2) + (1 + as_num(q.imag) + (as_num(q.real) - 1) // 2) % 2
        return g.W, at, inv, "the horizontal path"

    def h_path2(f):
        at = lambda i: SComplex(1 + 2 * (as_num(i) // 2), as_num(i) % 2)
        inv = lambda q: as_num(q.real) - 1 + as_num(q.imag)
        return g.W, at, inv, "the horizontal path"

    def v_path(f):
        return g.H, lambda i: SComplex(1, as_num(i)), lambda q: as_num(q.imag), "the vertical path"
    P.interp.indexers = [h_path, v_path, h_path2]
    return [f(None)[2] for f in P.interp.indexers]


def prove_c04(P):
    eng = P.eng

    class Op:
        def __init__(self, g, lay, k):
            self.g = g
            self.basis, self.fam = P.interp.call(P.interp.getattr(lay, "obs_before_sub_round"), (k,), {})
            f = self.fam
            self.fam = f.fam if hasattr(f, "fam") and f.fam is not None else f
            self.alts = []

        def solve(self, inv):
            """Membership without quantifiers: obligations that each element determines the variables it was built from."""
            for conds, consts, val in self.fam.alternatives():
                hints = [h for h in inv if len(consts) == 1]
                ok = False
                for h in hints:
                    goal = implies(land(*conds), as_num(h(val)) == SNum(consts[0]))
                    if eng.quick_valid(goal):
                        P.prove("an element of the operator determines its index", goal)
                        ok = True
                        break
                self.alts.append((conds, consts, val, h if ok else None))
            return self

        def has(self, q):
            if not self.alts:
                return SBool(self.fam.member(q))
            ds = []
            for conds, consts, val, h in self.alts:
                body = z3.And(*conds, zb(value_eq(val, q)))
                ds.append(z3.Exists(consts, body) if h is None else z3.substitute(body, (consts[0], as_num(h(q)).e)))
            return SBool(z3.Or(*ds))

        def commutes(self, basis, qs):
            if basis == self.basis:
                return True
            par = z3.BoolVal(False)
            for q in qs:
                par = z3.Xor(par, zb(self.has(q)))
            return SBool(z3.Not(par))

        def anti(self, o, points):
            """Symplectic product with another operator whose common support lies within points."""
            if o.basis == self.basis:
                return False
            par = z3.BoolVal(False)
            for q in points:
                par = z3.Xor(par, z3.And(zb(self.has(q)), zb(o.has(q))))
            return SBool(par)

    def setup():
        g = Geo(P)
        g.assume_contracts("round_edges", "all_edges", "data_qubit_coords", "round_hex_centers")
        lays = {o: P.call(g.hl.HoneycombLayout, data_width=2 * g.tw, data_height=6 * g.th, sub_rounds=6, style="SD6", obs=o, noise=0.0) for o in "HV"}
        inv = indexers(P, g)
        m = P.int("m")
        return g, lays, m, inv

    for o in "HV":
        for case in range(6):
            def one():
                g, lays, m, inv = setup()
                wit = lambda md: {**(g.wit(md) or {}), "kind": "op"} if g.wit(md) else None
                lay = lays[o]
                k = 6 * m + case
                op, nxt = Op(g, lay, k).solve(inv), Op(g, lay, k + 1).solve(inv)
                b, b0 = "XYZ"[case % 3], "XYZ"[(case - 1) % 3]
                P.prove("the basis of a sub-round is X, Y, Z in turn", P.interp.call(P.interp.getattr(lay, "sub_round_edge_basis"), (k,), {}) == b, wit)
                P.every_element("the operator acts on data qubits", op.fam, g.is_data, wit)
                P.no_duplicates("the operator names no qubit twice", op.fam, witness=wit)
                q0 = SComplex(1, 0), SComplex(1, 1)
                path = g.P.interp.getattr(lay, "obs_edges")

                def commute():
                    e = g.edges(k).pick()
                    P.prove("commutes with the edges measured next", op.commutes(b, (e.left, e.right)), wit)
                    flip = SBool(path.member(e, same_center))
                    for q in (e.left, e.right):
                        for i in (0, 1):
                            now = land(op.has(q), bool(BITS[op.basis][i]))
                            then = land(nxt.has(q), bool(BITS[nxt.basis][i]))
                            par = land(flip, bool(BITS[b][i]))
                            P.prove("the next operator is this one times the path's edges measured in between", SBool(zb(then) == z3.Xor(zb(now), zb(par))), wit)
                eng.sub_explore(commute)

                def commute_prev():
                    e = g.edges(k - 1).pick()
                    P.prove("commutes with the edges measured last", op.commutes(b0, (e.left, e.right)), wit)
                eng.sub_explore(commute_prev)
                for r in range(3):
                    def plaq():
                        h = g.hexes(r).pick()
                        P.prove("commutes with every plaquette", op.commutes("XYZ"[r], [g.at(h.real + a, h.imag + c) for a in (-1, 1) for c in (-1, 0, 1)]), wit)
                    eng.sub_explore(plaq)
                P.every_element("the path consists of edges", path, lambda e: g.is_edge(e), wit)
                P.no_duplicates("the path names no edge twice", path, lambda e: e.center, witness=wit)
            P.group(f"{o} before sub-round 6m+{case}", one)
    for case in range(6):
        def independent():
            g, lays, m, inv = setup()
            wit = lambda md: {**(g.wit(md) or {}), "kind": "op"} if g.wit(md) else None
            k = 6 * m + case
            pts = [SComplex(1, 0), SComplex(1, 1)]
            ops = {(o, d): Op(g, lays[o], k + d).solve(inv) for o in "HV" for d in (0, 3)}

            def overlap():
                q = g.data().pick()
                for a, c in ((0, 0), (0, 3), (3, 0)):
                    P.prove("the two paths share at most two qubits", implies(land(ops["H", a].has(q), ops["V", c].has(q)), lor(*[value_eq(q, p) for p in pts])), wit)
            eng.sub_explore(overlap)
            c1 = ops["H", 0].anti(ops["V", 0], pts)
            c2 = ops["H", 0].anti(ops["V", 3], pts)
            c3 = ops["V", 0].anti(ops["H", 3], pts)
            P.prove("H anticommutes with an operator that commutes with everything stabilised", lor(c1, c2), wit)
            P.prove("V anticommutes with an operator that commutes with everything stabilised", lor(c1, c3), wit)
        P.group(f"independence before sub-round 6m+{case}", independent)

    def dispatch():
        import honeycomb_layout as hl
        idx = {}
        for o in "HV":
            lay = P.call(hl.HoneycombLayout, data_width=4, data_height=6, sub_rounds=6, style="SD6", obs=o, noise=0.0)
            idx[o] = P.interp.getattr(lay, "obs_index")
        P.prove("H and V have different observable indices", idx["H"] != idx["V"])
    P.group("indices", dispatch)
    no_contracts(P)


# ------------------------------------------------------------------ obligations of C06
def prove_c06(P):
    eng = P.eng
    I = z3.IntSort()
    COUNT = [SNum(z3.Int("number_of_data_qubits")), SNum(z3.Int("number_of_edges"))]
    RANK = [z3.Function(f"rank{j}", I, I, I) for j in range(2)]
    INV = [[z3.Function(f"rank{j}_inverse_{c}", I, I) for c in "xy"] for j in range(2)]

    def twice(v):
        v = as_num(v)
        return v.e * (2 // v.den)

    def rank(j, q):
        """Position of q in a duplicate-free list: within its length, and different for different elements."""
        x, y = twice(q.real), twice(q.imag)
        t = RANK[j](x, y)
        eng.assume_fact(z3.And(t >= 0, t < COUNT[j].e, INV[j][0](t) == x, INV[j][1](t) == y))
        return SNum(t)

    def enumerate_fam(src, start):
        parts = getattr(src, "parts", (src,))
        if len(parts) != 2:
            raise core.Unsupported("enumerate of a collection")
        for j, p in enumerate(parts):
            if not p.distinct:
                P.no_duplicates("the enumerated qubits are listed once", p)

        def pick():
            j = eng.choose(2)
            q = parts[j].pick()
            return (start + (COUNT[0] if j else 0) + rank(j, q), q)
        return Fam(pick)

    class QMap(core_sym()):
        """Contract of q2i: data qubits get their positions in the list of data qubits, measurement qubits follow."""
        def __init__(self, g):
            self.g = g

        def __getitem__(self, q):
            d = self.g.is_data(q)
            if d:
                return rank(0, q)
            P.prove("only qubits of the layout are looked up", self.g.is_center(q), self.g.wit)
            return COUNT[0] + rank(1, q)

        def keys(self):
            g = self.g
            return Fam(lambda: (g.data(), g.centers())[eng.choose(2)].pick(), kind=set, distinct=True)

        sym_source = keys

        def values(self):
            k = self.keys()
            return Fam(lambda: self[k.pick()], kind=list, distinct=True)

        def items(self):
            k = self.keys()

            def pick():
                q = k.pick()
                return q, self[q]
            return Fam(pick, kind=list, distinct=True)

    def setup(style="SD6", q2i=True):
        g = Geo(P, style=style)
        g.assume_contracts("round_edges", "all_edges", "data_qubit_coords", "round_hex_centers", "measure_qubit_coords")
        eng.assume(COUNT[0] == 12 * g.tw * g.th)
        eng.assume(2 * COUNT[1] == 3 * COUNT[0])
        eng.assumptions.add("counting: there are columns x rows data qubits (C05: one per vertex of the grid), and 3/2 as many edges "
                            "(C05: every class pairs up the data qubits)")
        if q2i:
            eng.callee_contracts[M + "q2i"] = lambda lay: QMap(g)
        P.interp.enumerate_fam = enumerate_fam
        return g

    def measure():
        g = setup(q2i=False)
        del eng.callee_contracts[M + "measure_qubit_coords"]
        f = g.get("measure_qubit_coords")
        P.prove("measurement qubits are listed once", bool(f.distinct))
        P.contains_all("every edge has its measurement qubit", f, g.centers(), witness=g.wit)
        P.every_element("lemma: the centres are the edge positions", g.centers(), g.is_center)
        x, y = SNum(z3.Int("x"), 2), SNum(z3.Int("y"), 2)

        def conv():
            eng.assume(g.is_center(SComplex(x, y)))
            hor = eng.choose(2)          # the witness (column, row) of the edge, per kind
            eng.assume(mod_is(x, 2, 1 - hor))
            c = SNum((x.e - 2 * (1 - hor)) / 4)
            r = SNum((y.e - (1 - hor)) / 2)
            m = g.edge(hor, c, r)[2]
            P.prove("lemma: the edge positions are centres",
                    land(c >= 0, c < g.cols, r >= 0, r < g.H, (r - c) % 2 == 1 if hor else True, value_eq(m, SComplex(x, y))))
        eng.sub_explore(conv)
        P.every_element("every measurement qubit is in the middle of an edge", f, lambda m: g.is_center(m), g.wit)
    P.group("measurement qubits", measure)

    def q2i():
        g = setup(q2i=False)
        f = g.get("q2i").fam

        def one():
            q, i = f.pick()
            d = g.is_data(q)
            c = g.is_center(q)
            P.prove("every key is a data qubit or a measurement qubit, not both", lor(land(d, lnot(c)), land(lnot(d), c)), g.wit)
            P.prove("indices run from 0 to the number of qubits", land(i >= 0, i < COUNT[0] + COUNT[1]), g.wit)
            P.prove("data qubits come first", SBool(zb(d) == zb(i < COUNT[0])), g.wit)
        eng.sub_explore(one)

        def two():
            (q1, i1), (q2, i2) = f.pick(), f.pick()
            P.prove("different qubits have different indices", implies(i1 == i2, value_eq(q1, q2)), g.wit)
        eng.sub_explore(two)
        P.no_duplicates("no qubit is enumerated twice, so no index is skipped", f, lambda kv: kv[0], witness=g.wit)
        keys = Fam(lambda: f.pick()[0])
        P.contains_all("every data qubit has an index", keys, g.data(), witness=g.wit)
        P.contains_all("every measurement qubit has an index", keys, g.centers(), witness=g.wit)
    P.group("index map", q2i)

    for style in STYLES:
        def used():
            g = setup(style)
            em = style.startswith("EM3")
            d, m = g.data(), g.centers()
            coords, idx = g.get("used_qubit_coords"), g.get("used_qubit_indices")
            P.every_element("only used qubits are listed", coords, (lambda q: g.is_data(q)) if em else (lambda q: lor(g.is_data(q), g.is_center(q))), g.wit)
            P.contains_all("every used qubit is listed (data)", coords, d, witness=g.wit)
            qm = QMap(g)
            P.contains_all("every used index is listed (data)", idx, Fam(lambda: qm[d.pick()]), witness=g.wit)
            if not em:
                P.contains_all("every used qubit is listed (measurement)", coords, m, witness=g.wit)
                P.contains_all("every used index is listed (measurement)", idx, Fam(lambda: qm[m.pick()]), witness=g.wit)
            P.every_element("only used indices are listed", idx, lambda i: land(as_num(i) >= 0, as_num(i) < (COUNT[0] if em else COUNT[0] + COUNT[1])), g.wit)
            P.prove("the number of qubits is the number of used ones", as_num(g.get("num_qubits")) == (COUNT[0] if em else COUNT[0] + COUNT[1]), g.wit)
        P.group(f"used qubits of {style}", used)

    def indices():
        g = setup()
        d, m, qm = g.data(), g.centers(), QMap(g)
        for name, src, lo, hi in (("data_qubit_indices", d, 0, COUNT[0]), ("measure_qubit_indices", m, COUNT[0], COUNT[0] + COUNT[1])):
            f = g.get(name)
            P.every_element(f"{name} are within their block", f, lambda i: land(as_num(i) >= lo, as_num(i) < hi), g.wit)
            P.contains_all(f"{name} are complete", f, Fam(lambda: qm[src.pick()]), witness=g.wit)
        a, b = g.get("data_qubit_indices_1st"), g.get("data_qubit_indices_2nd")

        sample = g.hl.HoneycombLayout(data_width=2, data_height=6, sub_rounds=6, style="SD6", obs="H", noise=0.0)
        first = next(q for q, i in sample.q2i.items() if i in sample.data_qubit_indices_1st)
        k = int(first.real // 2 + first.imag) % 2          # which colour of the checkerboard is called the first half

        def half():
            c, y = g.col(), g.row()
            i = qm[SComplex(2 * c + 1, y)]
            first_half = bool((c + y) % 2 == k)
            P.prove("every data qubit is in the half of its colour", SBool((a if first_half else b).member(i)), g.wit)
        eng.sub_explore(half)

        def colour(i):
            i = as_num(i).e
            x, y = SNum(INV[0][0](i)), SNum(INV[0][1](i))
            return SNum(((x.e - 2) / 4 + y.e / 2) % 2)
        P.every_element("the first half is of one colour", a, lambda i: colour(i) == k, g.wit)
        P.every_element("the second half is of the other colour", b, lambda i: colour(i) == 1 - k, g.wit)
        for f in (a, b):
            P.every_element("the halves hold data qubits only", f, lambda i: land(as_num(i) >= 0, as_num(i) < COUNT[0]), g.wit)

        def ends():
            kind, c, y = eng.choose(2), g.col(), g.row()
            l, r, _, _ = g.edge(kind, c, y)
            if kind == 1:
                eng.assume((y - c) % 2 == 1)
            if kind == 0:
                r = SComplex(2 * c + 1, y + 1 if y + 1 < g.H else 0)
            else:
                l = SComplex(2 * c - 1 if c >= 1 else g.W - 1, y)
            P.prove("every edge has one end of each colour", SBool(z3.Xor(zb(((l.real - 1) / 2 + l.imag) % 2 == 0), zb(((r.real - 1) / 2 + r.imag) % 2 == 0))), g.wit)
        eng.sub_explore(ends)
        EXC = z3.Function("excluded", I, z3.BoolSort())

        def some():
            i = SNum(eng.fresh("i", I))
            eng.assume(SBool(EXC(i.e)))
            return i
        rest = g.do("qubit_indices_except", Fam(some, kind=list))
        P.every_element("excluded indices are left out", rest, lambda i: land(lnot(SBool(EXC(as_num(i).e))), as_num(i) >= 0, as_num(i) < COUNT[0] + COUNT[1]), g.wit)

        def other():
            i = qm[qm.keys().pick()]
            eng.assume(lnot(SBool(EXC(i.e))))
            P.prove("every other index is there", SBool(rest.member(i)), g.wit)
        eng.sub_explore(other)
    P.group("index lists", indices)
    P.interp.enumerate_fam = None
    no_contracts(P)


def core_sym():
    from pyvc.values import Sym
    return Sym
