"""C12: the matching graph represents the error model."""
import math

from contracts.common import require

BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 10
EXPLANATION = ("the error and coordinate handlers from an arbitrary state of the graph, for 0, 1, 2 and any larger number of symptoms, any probability and any "
               "frame changes; the start state; the sequence of reports by the contract of iter_flatten_model (C11)")
ASSUMPTIONS = ["networkx.Graph behaves as documented (undirected edges with attribute dicts)", "the two symptoms of a component are different detectors, probabilities are below one",
               "real arithmetic for floats"]
BOUND = "random graph-like error models (up to 40 errors over 6 detectors, nested repeats, merged and conflicting symptoms) and models of generated circuits"


def rand_model(rng, depth=0, hyper=False):
    import stim
    m = stim.DetectorErrorModel()
    for _ in range(rng.randint(1, 10)):
        op = rng.choice(["e"] * 6 + ["s", "d", "r", "l"])
        if op == "e":
            parts = []
            for g in range(rng.choice([1, 1, 1, 2])):
                if g:
                    parts.append("^")
                ts = [f"D{k}" for k in rng.sample(range(5), rng.choice([0, 1, 1, 2, 2, 2, 3 if hyper else 2]))] + [f"L{k}" for k in rng.sample(range(3), rng.choice([0, 0, 1, 2]))]
                rng.shuffle(ts)
                parts += ts or ["D0"]
            m += stim.DetectorErrorModel(f"error({rng.choice([0, 0.25, 0.125, 0.001, 0.01, 0.3, 0.45, 0.5, 0.75, 1e-7, 1e-10, 1e-15, 3e-300])}) " + " ".join(parts))
        elif op == "s":
            m += stim.DetectorErrorModel(f"shift_detectors({rng.choice([0, 1, 2])},0,{rng.choice([1, 0.5])}) {rng.randint(0, 3)}")
        elif op == "d":
            m += stim.DetectorErrorModel(f"detector({rng.randint(0, 4)},{rng.randint(0, 4)},0) D{rng.randint(0, 5)}")
        elif op == "l":
            m += stim.DetectorErrorModel(f"logical_observable L{rng.randint(0, 3)}")
        elif depth < 2:
            m += rand_model(rng, depth + 1, hyper) * rng.choice([2, 3])
    return m


def cases(tier, rng):
    for _ in range(700 if tier == "quick" else 10000):
        yield {"kind": "rand", "seed": rng.randint(0, 10 ** 9), "hyper": rng.random() < 0.15}
    for st in ("SD6", "EM3_v2", "SI1000", "PC3"):
        yield {"kind": "circ", "style": st, "n": 6}


def model_of(c):
    import random
    import stim
    if c["kind"] == "rand":
        return rand_model(random.Random(c["seed"]), 0, c["hyper"])
    if c["kind"] == "text":
        return stim.DetectorErrorModel(c["text"])
    from contracts import c11
    return c11.model_of(c)


def reference(m):
    from contracts import c11
    edges, coords, bad = {}, {}, False
    B = m.num_detectors
    for ev in c11.reference(m):
        if ev[0] == "d":
            coords[ev[1]] = ev[2]
            continue
        _, p, dets, obs = ev
        if p == 0 or not dets:
            continue
        if len(dets) > 2:
            return None, None, B
        a = frozenset(dets if len(dets) == 2 else [dets[0], B])
        if a in edges:
            if set(edges[a][1]) == set(obs):
                q = edges[a][0]
                edges[a][0] = p * (1 - q) + q * (1 - p)
        else:
            edges[a] = [p, obs]
    return edges, coords, B


def run_case(c):
    import decoding
    m = model_of(c)
    text = str(m)
    edges, coords, B = reference(m)
    if edges is None:
        try:
            decoding.detector_error_model_to_nx_graph(m)
        except NotImplementedError:
            return
        require(False, f"a component with more than two symptoms was accepted in\n{text[:600]}")
    g = decoding.detector_error_model_to_nx_graph(m)
    got = {frozenset((a, b)): d for a, b, d in g.edges(data=True)}
    require(set(got) == set(edges), f"edges {sorted(map(sorted, got))}, expected {sorted(map(sorted, edges))} in\n{text[:600]}")
    for e, (p, obs) in edges.items():
        d = got[e]
        require(math.isclose(d["error_probability"], p, rel_tol=1e-9), f"edge {sorted(e)} has probability {d['error_probability']}, expected {p} in\n{text[:600]}")
        require(math.isclose(d["weight"], math.log((1 - p) / p), rel_tol=1e-9, abs_tol=1e-9), f"edge {sorted(e)} has weight {d['weight']}, expected {math.log((1 - p) / p)}")
        require(sorted(d["qubit_id"]) == sorted(obs), f"edge {sorted(e)} flips {d['qubit_id']}, expected {obs} in\n{text[:600]}")
    require(B in g.nodes and g.nodes[B].get("is_boundary"), "the boundary node is missing or not marked")
    require(not any(g.nodes[n].get("is_boundary") for n in g.nodes if n != B), "a detector node is marked as boundary")
    for n, a in coords.items():
        require(n in g.nodes and list(map(float, g.nodes[n]["coords"])) == a, f"detector {n} has coordinates {g.nodes[n].get('coords') if n in g.nodes else None}, expected {a}")
    for n in g.nodes:
        require(0 <= n <= B and (n == B or n in coords or any(n in e for e in edges)), f"unexpected node {n}")
        require(n in coords or n == B or "coords" not in g.nodes[n], f"node {n} got coordinates of another detector")


# ------------------------------------------------------------------ obligations
class Gone:
    """A removed edge."""


GONE = Gone()


def make_classes():
    from pyvc.core import PyExc, Unsupported, engine
    from pyvc.folds import AMap
    from pyvc.interp import MDict, bool_of
    from pyvc.values import SAtom, SNum, Sym, as_num, smax, smin, value_eq

    class Frames(Sym):
        """An arbitrary list of observables, known by the set of its elements."""
        py_type = list

        def __init__(self, atom):
            self.atom = atom

        def as_set(self):
            return self.atom

        def as_list(self):
            return self

        def copy(self):
            return self

        def __bool__(self):
            raise Unsupported("emptiness of an arbitrary list")

        def __hash__(self):
            return id(self)

    class Graph(Sym):
        """networkx.Graph in an arbitrary state (its documented methods)."""
        def __init__(self, present, data):
            self.edges_ = AMap(None, present, data)
            self.token = object()

        def key(self, u, v):
            u, v = as_num(u), as_num(v)
            if bool_of(u <= v):
                return (u, v)
            return (v, u)

        def find(self, u, v):
            ok, d = self.edges_.lookup(self.key(u, v))
            return (None if not ok or d is GONE else d)

        def has_edge(self, u, v):
            return self.find(u, v) is not None

        def get_edge_data(self, u, v, default=None):
            d = self.find(u, v)
            return default if d is None else d

        def remove_edge(self, u, v):
            if self.find(u, v) is None:
                raise PyExc(RuntimeError("no such edge"))
            self.edges_[self.key(u, v)] = GONE

        def add_edge(self, u, v, **attrs):
            d = self.find(u, v)
            new = MDict()
            if d is not None:
                for k, x in dict.items(d):
                    dict.__setitem__(new, k, x)
            for k, x in attrs.items():
                dict.__setitem__(new, k, x)
            self.edges_[self.key(u, v)] = new

        nodes_ = property(lambda self: engine().local.get((self.token, "nodes"), ()))

        def add_node(self, n, **attrs):
            engine().local[(self.token, "nodes")] = self.nodes_ + ((n, attrs),)

        def __bool__(self):
            raise Unsupported("truth value of a graph")

        def __hash__(self):
            return id(self)
    return Frames, Graph


def prove_all(P):
    import networkx as nx
    import z3
    import decoding
    from pyvc import core
    from pyvc.interp import MDict, MList
    from pyvc.models import log_argument
    from pyvc.values import SAtom, SBool, SNum, SSeq, as_num, ite, land, lor, value_eq, zb
    eng = P.eng
    Frames, Graph = make_classes()
    I, R = z3.IntSort(), z3.RealSort()
    FS = z3.DeclareSort("ObservableSet")
    pres, prob, fr, wt = (z3.Function("edge", I, I, z3.BoolSort()), z3.Function("edge_probability", I, I, R), z3.Function("edge_frames", I, I, FS),
                          z3.Function("edge_weight", I, I, R))

    def data(k):
        a, b = k[0].e, k[1].e
        d = MDict()
        q = SNum(prob(a, b))
        eng.assume_fact(z3.And(q.e > 0, q.e < 1))
        for name, v in (("weight", SNum(wt(a, b))), ("qubit_id", Frames(SAtom(fr(a, b)))), ("error_probability", q)):
            dict.__setitem__(d, name, v)
        return d
    N = SNum(z3.Int("detectors"))
    eng.assume(N >= 0)

    class Model:
        num_detectors = N
    model = Model()
    made, handlers = [], []

    def graph(*a, **k):
        if a or k:
            raise core.Unsupported("graph built from data")
        made.append(Graph(lambda k: SBool(z3.BoolVal(False)), data))
        return made[-1]
    graph._pyvc_model = True
    P.interp.override(nx.Graph, graph)
    phase = eng.choose(3)

    def contract(m, handle_error, handle_detector_coords):
        """iter_flatten_model (C11): calls the handlers, any number of times, in any state."""
        P.prove("the model is flattened, into one graph", m is model and len(made) == 1 and not handlers)
        g = made[0]
        handlers.append((handle_error, handle_detector_coords))
        P.prove("the graph starts without edges", not g.edges_.writes)
        P.prove("the graph starts with the boundary node alone", len(g.nodes_) == 1 and value_eq(g.nodes_[0][0], N))
        P.prove("the boundary node is marked", len(g.nodes_) == 1 and g.nodes_[0][1].get("is_boundary") is True)
        if phase == 0:
            return
        # From an arbitrary state of the graph.
        eng.local[(g.edges_.token, "writes")] = ()
        eng.local[(g.token, "nodes")] = ()
        g.edges_.present = lambda k: SBool(pres(k[0].e, k[1].e))
        if phase == 1:
            self_coords(handle_detector_coords, g)
        else:
            self_error(handle_error, g)
        raise core.PathEnd("done")

    def self_coords(h, g):
        d = SNum(eng.fresh("detector", I))
        eng.assume(land(d >= 0, d < N))
        c = object()
        P.interp.call(h, (d, c), {})
        P.prove("coordinates: nothing but the node of the detector is touched", not g.edges_.writes and len(g.nodes_) == 1)
        if len(g.nodes_) == 1:
            P.prove("coordinates: go to the node of the detector", value_eq(g.nodes_[0][0], d))
            P.prove("coordinates: are attached as they are", g.nodes_[0][1].get("coords") is c and not g.nodes_[0][1].get("is_boundary"))

    def self_error(h, g):
        k = eng.choose(4)
        p = SNum(eng.fresh("p", R))
        eng.assume(land(p >= 0, p < 1))
        f = Frames(SAtom(eng.fresh("frames", FS)))
        a, b = SNum(eng.fresh("a", I)), SNum(eng.fresh("b", I))
        eng.assume(land(a >= 0, a < N, b >= 0, b < N, SBool(a.e != b.e)))
        if k == 3:
            n = SNum(eng.fresh("symptoms", I))
            eng.assume(n > 2)
            fn = z3.Function("symptom", I, I)
            dets = SSeq(n, lambda i: SNum(fn(as_num(i).e)), list)
        else:
            dets = MList([a, b][:k])
        u, v = (a, b) if k == 2 else (a, N)
        lo, hi = ite(zb(u <= v), u, v), ite(zb(u <= v), v, u)
        was = SBool(pres(lo.e, hi.e))
        q, qf = SNum(prob(lo.e, hi.e)), SAtom(fr(lo.e, hi.e))
        eng.assume(SBool(z3.And(q.e > 0, q.e < 1)))
        try:
            P.interp.call(h, (p, dets, f), {})
        except core.PyExc as pe:
            P.prove("error: refused only with more than two symptoms", k == 3 and type(pe.exc) is NotImplementedError)
            P.prove("error: nothing is done before refusing", not g.edges_.writes and not g.nodes_)
            return
        untouched = not g.edges_.writes and not g.nodes_
        for key, d in g.edges_.seen:
            o = data(key)
            P.prove("error: edge data is not changed in place", set(d) == set(o) and all(d[n] is o[n] or n != "qubit_id" and value_eq(d[n], o[n]) or n == "qubit_id" and value_eq(d[n].atom, o[n].atom) for n in o))
        if k == 0:
            P.prove("error: without symptoms nothing is added", untouched)
            return
        if bool(p == 0):
            P.prove("error: with probability zero nothing is added", untouched)
            return
        P.prove("error: with more than two symptoms it is refused", k != 3)
        if k == 3:
            return
        P.prove("error: no node data is touched", not g.nodes_)
        for key, _ in g.edges_.writes:
            P.prove("error: only the edge of its symptoms is touched", land(value_eq(key[0], lo), value_eq(key[1], hi)))
        d = g.find(u, v)
        P.prove("error: the edge of its symptoms exists", d is not None)
        if d is None:
            return
        got, w, gf = d.get("error_probability"), d.get("weight"), d.get("qubit_id")
        P.prove("error: the edge is complete", got is not None and w is not None and isinstance(gf, Frames))
        if got is None or w is None or not isinstance(gf, Frames):
            return
        if bool(was) and not bool(value_eq(qf, f.atom)):
            P.prove("error: with other frame changes than the first, the edge stays", land(value_eq(got, q), value_eq(w, SNum(wt(lo.e, hi.e))), value_eq(gf.atom, qf)))
            return
        new = p * (1 - q) + q * (1 - p) if bool(was) else p
        P.prove("error: the probability is that of an odd number of the errors", value_eq(got, new))
        P.prove("error: the frame changes are those of the first error", value_eq(gf.atom, f.atom))
        r = log_argument(w)
        if r is None:
            raise core.Unsupported(f"weight is not a logarithm: {w}")
        P.prove("error: the weight is the log-odds", value_eq(r[0] * new, r[1] * (1 - new)))

    eng.callee_contracts = {"decoding.iter_flatten_model": contract}
    eng.assumptions.add("contract of iter_flatten_model (C11)")
    r = P.call(decoding.detector_error_model_to_nx_graph, model)
    P.prove("the graph is returned", len(made) == 1 and r is made[0] and len(handlers) == 1)
    P.prove("nothing is added behind the flattening", not made[0].edges_.writes and len(made[0].nodes_) == 1)


def prove(P):
    P.group("detector_error_model_to_nx_graph", lambda: prove_all(P))
    P.eng.callee_contracts = {}
    P.interp.reset()
