"""C11: flattening a detector error model."""
from contracts.common import require

BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 10
EXPLANATION = ("iter_flatten_model for every model: one step over an arbitrary instruction from an arbitrary state of the offsets, with every kind of "
               "instruction, any targets and up to 100 coordinates; repeat blocks by the contract of the recursion (n passes), discharged for all n")
ASSUMPTIONS = ["fold principle: a for-loop meets every element of its collection once, in order",
               "induction on the nesting depth of repeat blocks", "at most 100 coordinates per instruction; float additions are exact in the statement",
               "stim's accessors (type, args_copy, targets_copy, body_copy, repeat_count) describe the model"]
BOUND = "random detector error models with up to 3 levels of repeat blocks, shifts with and without coordinates, separators, observables; models of generated circuits"


def rand_dem(rng, depth, budget):
    import stim
    m = stim.DetectorErrorModel()
    for _ in range(rng.randint(0 if depth < 3 else 1, 6)):
        op = rng.choice(["e", "e", "e", "s", "d", "l", "r", "r"])
        if op == "e":
            parts = []
            for g in range(rng.choice([1, 1, 1, 2, 3])):
                if g:
                    parts.append("^")
                ts = [f"D{k}" for k in rng.sample(range(8), rng.randint(0, 3))] + [f"L{k}" for k in rng.sample(range(4), rng.randint(0, 2))]
                rng.shuffle(ts)
                if not ts and (g or rng.random() < 0.9):
                    ts = [f"D{rng.randint(0, 5)}"]
                parts += ts
            if parts and parts[-1] != "^" and parts[0] != "^":
                m += stim.DetectorErrorModel(f"error({rng.choice([0, 0.25, 0.125, 0.001, 0.5])}) " + " ".join(parts))
        elif op == "s":
            a = [rng.choice([0, 1, -2, 0.5]) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 17]))]
            m += stim.DetectorErrorModel("shift_detectors" + (f"({','.join(map(str, a))})" if a else "") + f" {rng.randint(0, 5)}")
        elif op == "d":
            a = [rng.choice([0, 1, 2, 0.5, -1]) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 18]))]
            ks = [rng.randint(0, 7)]
            m += stim.DetectorErrorModel("detector" + (f"({','.join(map(str, a))})" if a else "") + " " + " ".join(f"D{k}" for k in ks))
        elif op == "l":
            m += stim.DetectorErrorModel(f"logical_observable L{rng.randint(0, 3)}")
        elif depth < 3:
            b = rand_dem(rng, depth + 1, budget)
            if len(b):
                m += b * rng.choice([2, 3, 2, 5, 1])
    return m


LARGE = [
    "repeat 7000 {\n error(0.25) D0 L0\n shift_detectors(0,0,1) 1\n detector(1,2,0) D0\n}\nerror(0.125) D0 D1",
    "repeat 40 {\n repeat 300 {\n  error(0.25) D0 D1\n  shift_detectors(0,0,0.5) 2\n }\n detector(1,2,0) D3\n}",
    "error(0.25) D5000000 D7 L300 L64 L3\nshift_detectors(100000,3) 5000000\ndetector(0.25,1,7) D71\nerror(1e-9) D1 ^ D2 L1000",
    "error(0.1) " + " ".join(f"D{k}" for k in range(200)) + " " + " ".join(f"L{k}" for k in range(150)),
    "error(0.1) " + " ^ ".join(f"D{k}" for k in range(200)),
]


def cases(tier, rng):
    for t in LARGE:
        yield {"kind": "text", "text": t}
    for _ in range(600 if tier == "quick" else 10000):
        yield {"kind": "rand", "seed": rng.randint(0, 10 ** 9)}
    for st in ("SD6", "EM3_v2", "SI1000", "PC3"):
        for n in (6, 24):
            yield {"kind": "circ", "style": st, "n": n}


def model_of(c):
    import random
    import stim
    if c["kind"] == "rand":
        return rand_dem(random.Random(c["seed"]), 0, 0)
    if c["kind"] == "text":
        return stim.DetectorErrorModel(c["text"])
    from honeycomb_layout import HoneycombLayout
    circ = HoneycombLayout(data_width=4, data_height=6, sub_rounds=c["n"], style=c["style"], obs="H", noise=0.001).make_circuit()
    return circ.detector_error_model(decompose_errors=True)


def reference(model):
    """Independent unrolling: Python recursion over stim's own nested structure."""
    out = []
    st = [0, [0.0] * 20]

    def rec(m):
        for i in m:
            if i.type == "repeat":
                b = i.body_copy()
                for _ in range(i.repeat_count):
                    rec(b)
            elif i.type == "error":
                groups = [[]]
                for t in i.targets_copy():
                    if t.is_separator():
                        groups.append([])
                    else:
                        groups[-1].append(t)
                for g in groups:
                    out.append(("e", i.args_copy()[0], [t.val + st[0] for t in g if t.is_relative_detector_id()], [t.val for t in g if t.is_logical_observable_id()]))
            elif i.type == "shift_detectors":
                for k, v in enumerate(i.args_copy()):
                    st[1][k] += v
                t = i.targets_copy()[0]
                st[0] += t if isinstance(t, int) else t.val
            elif i.type == "detector":
                a = i.args_copy()
                for t in i.targets_copy():
                    out.append(("d", t.val + st[0], [x + y for x, y in zip(a, st[1])]))
    rec(model)
    return out


def run_case(c):
    import numpy as np
    import decoding
    m = model_of(c)
    got = []
    text = str(m)
    decoding.iter_flatten_model(m, handle_error=lambda p, d, f: got.append(("e", p, list(d), list(f))),
                                handle_detector_coords=lambda d, a: got.append(("d", d, [float(x) for x in a])))
    want = reference(m)
    require(str(m) == text, "the model was modified")
    ge, we = [g for g in got if g[0] == "e"], [w for w in want if w[0] == "e"]
    for k, (g, w) in enumerate(zip(ge, we)):
        require(g[1] == w[1] and g[2] == w[2] and g[3] == w[3], f"error component {k} reported as {g[1:]}, expected {w[1:]} in\n{text[:600]}")
    require(len(ge) == len(we), f"{len(ge)} error components reported, expected {len(we)} in\n{text[:600]}")
    gd, wd = [g for g in got if g[0] == "d"], [w for w in want if w[0] == "d"]
    require([(g[1], g[2]) for g in gd] == [(w[1], w[2]) for w in wd], f"detector coordinates {gd[:8]}, expected {wd[:8]} in\n{text[:600]}")
    # coordinates handed out are not aliased
    keep = []
    decoding.iter_flatten_model(m, handle_error=lambda p, d, f: keep.append((d, list(d), f, list(f))), handle_detector_coords=lambda d, a: keep.append((a, a.copy(), [], [])))
    for a, b, f, g in keep:
        require(list(a) == list(b) and list(f) == list(g), "a reported list changed after it was reported")


# ------------------------------------------------------------------ obligations
def make_classes():
    import stim
    from pyvc.core import Unsupported
    from pyvc.folds import Stream
    from pyvc.values import Sym

    class AList(Sym):
        """A list in an arbitrary state, followed by what was appended since."""
        py_type = list

        def __init__(self, extra=()):
            self.extra = list(extra)

        def append(self, v):
            self.extra.append(v)

        def __iadd__(self, o):
            self.extra.extend(o)
            return self

        def __bool__(self):
            raise Unsupported("truth value of a list in an arbitrary state")

        def __hash__(self):
            return id(self)

    class Model(Stream):
        py_type = stim.DetectorErrorModel

        def copy(self):
            return self

        flattened = None

    class Body(Sym):
        """The body of a repeat block: only handed on."""
        py_type = stim.DetectorErrorModel

        def copy(self):
            return self

        def __hash__(self):
            return id(self)

    class Instr(Sym):
        def __init__(self, kind, **kw):
            self.py_type = stim.DemRepeatBlock if kind == "repeat" else stim.DemInstruction
            self.type = kind
            self.kw = kw

        def args_copy(self):
            return self.kw["args"]

        def targets_copy(self):
            return self.kw["targets"]

        def body_copy(self):
            return self.kw["body"]

        @property
        def repeat_count(self):
            return self.kw["count"]

        def __hash__(self):
            return id(self)

    class Target(Sym):
        py_type = stim.DemTarget

        def __init__(self, kind, val):
            self.kind, self.val = kind, val

        def is_relative_detector_id(self):
            return self.kind == "detector"

        def is_logical_observable_id(self):
            return self.kind == "observable"

        def is_separator(self):
            return self.kind == "separator"

        def __hash__(self):
            return id(self)
    return AList, Model, Body, Instr, Target


class Flatten:
    """The flattening helper, one step at a time, from arbitrary states."""
    def __init__(self, P):
        import numpy as np
        from pyvc.folds import Vec
        from pyvc.values import SSeq
        self.P, self.eng = P, P.eng
        self.AList, self.Model, self.Body, self.Instr, self.Target = make_classes()
        self.roles = {}
        self.helper = None
        self.np = np
        np_array = np.array

        def array(x, *a, **k):
            if isinstance(x, SSeq):
                return Vec(x.n, x.at)
            return np_array(x, *a, **k)
        array._pyvc_model = True
        P.interp.override(np.array, array)
        P.interp.override(np.asarray, array)
        P.interp.call_hook = self.hook
        P.interp.range_loop = self.range_loop

    # ---- what was reported so far on this path
    def events(self):
        return self.eng.local.get("events", ())

    def event(self, *e):
        self.eng.local["events"] = self.events() + (e,)

    def since(self):
        return self.events()[self.eng.local.get("mark", 0):]

    def mark(self):
        self.eng.local["mark"] = len(self.events())

    # ---- the state carried from instruction to instruction
    def fresh_state(self):
        import z3
        from pyvc.folds import Vec
        from pyvc.values import SNum
        D = SNum(self.eng.fresh("detectors_so_far", z3.IntSort()))
        self.eng.fresh_n += 1
        f = z3.Function(f"shift_so_far_{self.eng.fresh_n}", z3.IntSort(), z3.RealSort())
        from pyvc.values import as_num
        at = lambda j: SNum(f(as_num(j).e))
        return D, at, Vec(100, at)

    def state_vars(self, env, written):
        from pyvc.core import Unsupported
        from pyvc.folds import Vec
        from pyvc.values import SNum
        nums = [k for k in written if k in env and not isinstance(env[k], bool) and isinstance(env[k], (int, SNum))]
        vecs = [k for k, v in env.items() if isinstance(v, (Vec, self.np.ndarray))]
        vecs = [k for k in vecs if not any(env[k] is env[j] for j in vecs if j < k)]
        if len(nums) != 1 or len(vecs) != 1:
            raise Unsupported(f"the state of the flattening is not a detector offset and a coordinate offset: {nums} {vecs}")
        return nums[0], vecs[0]

    def new_state(self, d, c):
        D, at, vec = self.fresh_state()
        self.eng.local["state"] = (D, at, vec)
        return {d: D, c: vec}

    def at_state(self, env, d, c):
        """Conditions for the variables to hold the state of eng.local["state"]."""
        D, at, vec = self.eng.local["state"]
        return self.same_state(env, d, c, D, at)

    def same_state(self, env, d, c, D, at):
        import z3
        from pyvc.folds import Vec
        from pyvc.values import SNum, land, implies, value_eq
        if not isinstance(env[c], Vec) or not isinstance(env[d], (int, SNum)):
            return False
        j = SNum(self.eng.fresh("j", z3.IntSort()))
        return land(value_eq(env[d], D), value_eq(env[c].n, 100), implies(land(j >= 0, j < 100), value_eq(env[c].at(j), at(j))))

    # ---- handlers
    def handle_error(self, p, dets, frames):
        self.event("error", p, dets, frames)

    def handle_coords(self, d, a):
        self.event("coords", d, a)

    # ---- an arbitrary model
    def model(self, name):
        from pyvc.core import Unsupported
        from pyvc.folds import Fold, Vec
        from pyvc.values import SNum, land, value_eq
        P, eng = self.P, self.eng
        who = {}

        def state(env, phase):
            d, c = self.state_vars(env, fold.written)
            if phase == "names":
                return {d, c}
            who["d"], who["c"] = d, c
            new = self.new_state(d, c)
            if phase == "step":
                self.mark()
            else:
                self.event("passes", m, 1)
            return new

        def check(pre, env, x):
            d, c = who["d"], who["c"]
            D, at, vec = (pre[d], x.pre_at, None) if x.type != "repeat" else eng.local["state"]
            ev = self.since()
            k = x.type
            if k == "repeat":
                P.prove(f"{name}: a repeat block runs its body repeat_count times", len(ev) == 1 and ev[0][0] == "passes" and ev[0][1] is x.body_copy()
                        and value_eq(ev[0][2], x.repeat_count))
                P.prove(f"{name}: nothing else changes at a repeat block", self.same_state(env, d, c, D, at))
            elif k == "error":
                ok = len(ev) == 2 and ev[0] == ("targets", x) and ev[1][0] == "error"
                P.prove(f"{name}: the last component of an error is reported", ok)
                if ok:
                    lists = eng.local["lists"]
                    P.prove(f"{name}: the last component has the probability of the error", value_eq(ev[1][1], x.args_copy()[0]))
                    self.role(name, ev[1], lists)
                    P.prove(f"{name}: the last component is complete", not any(a.extra for a in lists.values()))
                P.prove(f"{name}: an error shifts nothing", self.same_state(env, d, c, D, at))
            elif k == "shift_detectors":
                P.prove(f"{name}: a shift reports nothing", not ev)
                a = x.args_copy()
                from pyvc.values import as_num, ite, zb
                P.prove(f"{name}: a shift adds to the offsets", self.same_state(env, d, c, D + x.targets_copy()[0],
                                                                               lambda j: ite(zb(as_num(j) < a.n), at(j) + a.at(j), at(j))))
            elif k == "detector":
                P.prove(f"{name}: a detector is reported through its targets", ev == (("targets", x),))
                P.prove(f"{name}: a detector shifts nothing", self.same_state(env, d, c, D, at))
            else:
                P.prove(f"{name}: other instructions report nothing", not ev)
                P.prove(f"{name}: other instructions shift nothing", self.same_state(env, d, c, D, at))

        fold = Fold(name, state, check)

        def element():
            x = self.instruction(name)
            D, at, vec = eng.local["state"]
            x.pre_at = at
            return x
        m = self.Model(element, fold)
        m.fold_ = fold
        return m

    def role(self, name, ev, lists):
        """Which of the two lists is reported as detectors, which as observables: the same everywhere."""
        a = [k for k, l in lists.items() if l is ev[2]]
        b = [k for k, l in lists.items() if l is ev[3]]
        self.P.prove(f"{name}: a component is reported with the targets collected", len(a) == 1 and len(b) == 1 and a != b)
        if len(a) == 1 and len(b) == 1:
            self.set_role(name, "detector", a[0])
            self.set_role(name, "observable", b[0])

    def set_role(self, name, kind, var):
        if self.eng.muted:
            return
        self.roles.setdefault(kind, var)
        self.P.prove(f"{name}: {kind}s are collected and reported in the same list", self.roles[kind] == var)

    def instruction(self, name):
        import z3
        from pyvc.folds import Fold, Stream
        from pyvc.values import SNum, SSeq, as_num, land, value_eq
        from pyvc.interp import MList
        P, eng = self.P, self.eng
        kind = ["error", "shift_detectors", "detector", "logical_observable", "repeat"][eng.choose(5)]
        if kind == "repeat":
            n = SNum(eng.fresh("repeat_count", z3.IntSort()))
            eng.assume(n >= 1)
            return self.Instr("repeat", body=self.Body(), count=n)
        if kind == "error":
            x = self.Instr("error", args=[SNum(eng.fresh("p", z3.RealSort()))])

            def state(env, phase):
                from pyvc.core import Unsupported
                vs = [k for k, v in env.items() if isinstance(v, self.AList) or (isinstance(v, list) and len(v) == 0)]
                if len(vs) != 2 or env[vs[0]] is env[vs[1]]:
                    raise Unsupported(f"the targets of an error are not collected in two lists: {vs}")
                if phase == "names":
                    return set(vs)
                new = {v: self.AList() for v in vs}
                eng.local["lists"] = dict(new)
                if phase == "step":
                    self.mark()
                else:
                    self.event("targets", x)
                return new

            def check(pre, env, t):
                lists = eng.local["lists"]
                ev = self.since()
                D = eng.local["state"][0]
                if t.kind == "separator":
                    P.prove(f"{name}: a separator ends a component", len(ev) == 1 and ev[0][0] == "error")
                    if len(ev) == 1:
                        P.prove(f"{name}: a component has the probability of the error", value_eq(ev[0][1], x.args_copy()[0]))
                        self.role(name, ev[0], lists)
                    P.prove(f"{name}: a component is complete", not any(a.extra for a in lists.values()))
                    P.prove(f"{name}: the next component starts empty, in lists of its own",
                            all(isinstance(env[v], list) and len(env[v]) == 0 for v in lists) and len({id(env[v]) for v in lists}) == 2)
                    return
                P.prove(f"{name}: within a component nothing is reported", not ev)
                P.prove(f"{name}: the lists are kept within a component", all(env[v] is lists[v] for v in lists))
                grown = [v for v in lists if lists[v].extra]
                P.prove(f"{name}: a {t.kind} is collected once", len(grown) == 1 and len(lists[grown[0]].extra) == 1)
                if len(grown) == 1:
                    self.set_role(name, t.kind, grown[0])
                    got = lists[grown[0]].extra[0]
                    P.prove(f"{name}: a {t.kind} keeps its number" + (", moved by the offset" if t.kind == "detector" else ""),
                            value_eq(got, t.val + D if t.kind == "detector" else t.val))

            def entry(env):
                P.prove(f"{name}: the first component starts empty", True)
            x.kw["targets"] = Stream(lambda: self.target(["detector", "observable", "separator"][eng.choose(3)]), Fold(f"{name} targets", state, check, entry), distinct=False)
            return x
        n = SNum(eng.fresh("coordinates", z3.IntSort()))
        eng.assume(land(n >= 0, n <= 100))
        eng.fresh_n += 1
        f = z3.Function(f"coordinate_{eng.fresh_n}", z3.IntSort(), z3.RealSort())
        args = SSeq(n, lambda j: SNum(f(as_num(j).e)), list)
        if kind == "shift_detectors":
            by = SNum(eng.fresh("shift", z3.IntSort()))
            return self.Instr(kind, args=args, targets=[by])
        if kind == "logical_observable":
            return self.Instr(kind, args=[], targets=[self.target("observable")])
        x = self.Instr(kind, args=args)

        def state2(env, phase):
            if phase == "names":
                return set()
            if phase == "step":
                self.mark()
            else:
                self.event("targets", x)
            return {}

        def check2(pre, env, t):
            from pyvc.folds import Vec
            from pyvc.values import implies
            ev = self.since()
            P.prove(f"{name}: each detector is reported once", len(ev) == 1 and ev[0][0] == "coords")
            if len(ev) == 1:
                D, at, vec = eng.local["state"]
                P.prove(f"{name}: detectors are moved by the offset", value_eq(ev[0][1], t.val + D))
                v = ev[0][2]
                P.prove(f"{name}: coordinates are handed out in a vector of their own", isinstance(v, Vec) and v is not vec and not v.view)
                if isinstance(v, Vec):
                    j = SNum(eng.fresh("j", z3.IntSort()))
                    P.prove(f"{name}: all coordinates are reported", value_eq(v.n, n))
                    P.prove(f"{name}: coordinates are moved by the coordinate offset", implies(land(j >= 0, j < n), value_eq(v.at(j), args.at(j) + at(j))))
                    P.prove(f"{name}: the offset stays", implies(land(j >= 0, j < 100), value_eq(vec.at(j), at(j))))
        x.kw["targets"] = Stream(lambda: self.target("detector"), Fold(f"{name} coordinates", state2, check2), distinct=False)
        return x

    def target(self, kind):
        import z3
        from pyvc.values import SNum
        return self.Target(kind, SNum(self.eng.fresh("target", z3.IntSort())))

    # ---- recursion and repetition
    def hook(self, f, args, kwargs):
        """A call with the body of a repeat block: by contract, so many passes over it from the current state."""
        from pyvc.core import Unsupported
        from pyvc.values import SNum
        allargs = list(args) + list(kwargs.values())
        bodies = [a for a in allargs if isinstance(a, self.Body)]
        if not bodies:
            return None
        counts = [a for a in allargs if isinstance(a, (int, SNum))]
        if len(bodies) != 1 or len(counts) > 1 or len(allargs) != 1 + len(counts):
            raise Unsupported("recursion with other arguments than a body and a count")
        names = (args, kwargs, [i for i, a in enumerate(args) if isinstance(a, self.Body)], [k for k, a in kwargs.items() if isinstance(a, self.Body)])
        self.helper = (f, [i for i, a in enumerate(args) if a is bodies[0]], [k for k, a in kwargs.items() if a is bodies[0]], len(args), list(kwargs), bool(counts))
        self.event("passes", bodies[0], counts[0] if counts else 1)
        self.havoc(f.closure)
        return (None,)

    def havoc(self, scope):
        env, s = {}, scope
        while s is not None:
            for k, v in s.vars.items():
                env.setdefault(k, v)
            s = s.parent
        import ast
        written = set()
        for v in env.values():
            n = getattr(v, "node", None)
            if isinstance(n, ast.FunctionDef):
                for m in ast.walk(n):
                    if isinstance(m, ast.Nonlocal):
                        written |= set(m.names)
        d, c = self.state_vars(env, written)
        for k, v in self.new_state(d, c).items():
            s = scope
            while k not in s.vars:
                s = s.parent
            s.vars[k] = v

    def range_loop(self, interp, node, scope, src):
        """for i in range(n): exactly one run over one model, whatever the state."""
        from pyvc.core import Unsupported
        from pyvc.interp import assigned_names
        P, eng = self.P, self.eng
        n = src.length() if hasattr(src, "length") else src.n
        chain, s = [], scope
        while s is not None:
            chain.append((s, dict(s.vars)))
            s = s.parent

        def restore():
            for sc, vs in chain:
                sc.vars = dict(vs)
        outer = assigned_names(node.body) & {k for sc, vs in chain[:1] for k in vs}
        box = []

        def step():
            restore()
            self.havoc(scope)
            self.mark()
            try:
                interp.assign(node.target, src.pick(), scope)
                interp.exec_block(node.body, scope)
                ev = self.since()
                P.prove("repetition: every round is one pass over the model", len(ev) == 1 and ev[0][0] == "passes" and ev[0][2] == 1)
                if len(ev) == 1:
                    box.append(ev[0][1])
                env, s = {}, scope
                while s is not None:
                    for k, v in s.vars.items():
                        env.setdefault(k, v)
                    s = s.parent
                D, at, vec = eng.local["state"]
                d = [k for k, v in env.items() if v is D]
                c = [k for k, v in env.items() if v is vec]
                P.prove("repetition: the state is carried from round to round", bool(d) and bool(c) and self.same_state(env, d[0], c[0], D, at))
            finally:
                restore()
        eng.sub_explore(step)
        if not box or any(b is not box[0] for b in box):
            raise Unsupported("rounds over different models")
        self.havoc(scope)
        self.event("passes", box[0], n)
        return True


def prove_all(P):
    import z3
    import decoding
    from pyvc.values import SNum, value_eq
    F = Flatten(P)
    eng = P.eng
    m = F.model("flattening")
    # The state a run starts from is checked where the first loop over the model is reached.
    first = []

    def entry(env):
        d, c = F.state_vars(env, m.fold_.written)
        first.append(1)
        v = env[c]
        P.prove("flattening starts at detector 0", value_eq(env[d], 0))
        P.prove("flattening starts with no coordinate shift", isinstance(v, F.np.ndarray) and v.ndim == 1 and len(v) == 100 and not v.any() and v.dtype == F.np.float64)
    m.fold_.entry = entry
    P.call(decoding.iter_flatten_model, m, F.handle_error, F.handle_coords)
    ev = F.events()
    P.prove("flattening makes exactly one pass over the model", len(ev) == 1 and ev[0][0] == "passes" and ev[0][1] is m and ev[0][2] == 1)
    P.prove("flattening: reached", len(first) == 1 and F.helper is not None)
    if F.helper is None:
        return
    # The contract of the recursion.
    f, pos, kw, na, ks, counted = F.helper
    m2 = F.model("recursion")
    n = SNum(z3.Int("n"))
    eng.assume(n >= 1)
    F.mark()
    args = [m2 if i in pos else n for i in range(na)]
    kwargs = {k: m2 if k in kw else n for k in ks}
    P.interp.call(f, tuple(args), kwargs)
    ev = F.since()
    P.prove("recursion: runs so many passes over the model given", len(ev) == 1 and ev[0][0] == "passes" and ev[0][1] is m2 and value_eq(ev[0][2], n if counted else 1))


def prove(P):
    P.group("iter_flatten_model", lambda: prove_all(P))
    P.interp.reset()
