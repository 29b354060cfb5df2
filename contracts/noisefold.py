"""Obligations of NoiseModel.noisy_circuit / noisy_op, shared by C07 (any model) and C08 (the named models).

The loop over the operations of the circuit is a fold: one arbitrary operation from an arbitrary state (emitted circuit, the
parts of the current time step, the touched and the measured qubits). Circuits are sequences of atoms; what a part held before
is one opaque atom. The roles of the variables are found by running the loop body on probe operations.
"""
import z3

ONE = ["C_XYZ", "C_ZYX", "H", "H_YZ", "I"]
TWO = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
RESETS = ["R", "RX", "RY"]
MEASURES = ["M", "MX", "MY"]
ANNOTATIONS = ["OBSERVABLE_INCLUDE", "DETECTOR", "SHIFT_COORDS", "QUBIT_COORDS"]
NOISE = {"DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR", "E", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2", "ELSE_CORRELATED_ERROR"}
FLIP = {"R": "X_ERROR", "RY": "X_ERROR", "RX": "Z_ERROR", "M": "X_ERROR", "MY": "X_ERROR", "MX": "Z_ERROR"}


def all_gates():
    import stim
    return sorted(n for n, d in stim.gate_data().items() if not (d.is_noisy_gate and not d.produces_measurements) and n not in ("TICK", "REPEAT"))


def make_classes():
    import stim
    from pyvc.core import Unsupported, engine
    from pyvc.folds import SSet
    from pyvc.interp import LSet, _as_source
    from pyvc.values import Fam, SBool, SNum, SSeq, Sym, as_num, land, value_eq

    class SCirc(Sym):
        """A circuit as a sequence of atoms."""
        py_type = stim.Circuit

        def __init__(self, atoms=()):
            self.atoms = list(atoms)

        def append_operation(self, name, targets=(), arg=None, *, tag=""):
            if isinstance(name, Block):
                self.atoms.append(("repeat", name.body.atoms, name.n))
                return
            if isinstance(name, Instr):
                targets, arg, name = name.targets_copy(), name.gate_args_copy(), name.name
            if isinstance(targets, SNum) or isinstance(targets, int):
                targets = [targets]
            self.atoms.append(("op", name, targets, arg))

        append = append_operation

        def __iadd__(self, o):
            if not isinstance(o, SCirc):
                return NotImplemented
            self.atoms.extend(list(o.atoms))
            return self

        def __add__(self, o):
            if not isinstance(o, SCirc):
                return NotImplemented
            return SCirc(self.atoms + o.atoms)

        def __mul__(self, n):
            return SCirc([("repeat", list(self.atoms), n)])

        __rmul__ = __mul__

        def copy(self):
            return SCirc(self.atoms)

        def clear(self):
            self.atoms = []

        def empty(self):
            conds = []
            for a in self.atoms:
                if a[0] != "base":
                    return False
                conds.append(SBool(z3.Not(a[2])))
            return land(*conds) if conds else True

        def __bool__(self):
            return not bool(self.empty())

        def sym_len(self):
            if self.empty():
                return 0
            n = SNum(engine().fresh("length", z3.IntSort()))
            engine().assume(n >= 1)
            return n

        def __hash__(self):
            return id(self)

        def __eq__(self, o):
            if isinstance(o, SCirc) and not o.atoms:
                return self.empty()
            raise Unsupported("comparison of circuits")

    class Block(Sym):
        py_type = stim.CircuitRepeatBlock

        def __init__(self, n, body):
            self.n, self.body = n, body

        def __hash__(self):
            return id(self)

    class Body(Sym):
        """The body of a repeat block: only handed on."""
        py_type = stim.Circuit

        def copy(self):
            return self

        def __hash__(self):
            return id(self)

    class Target(Sym):
        py_type = stim.GateTarget

        def __init__(self, src, i):
            self.src, self.i = src, as_num(i)
            s, e = src, self.i.e
            self.value = SNum(s.value(e))
            engine().assume_fact(s.value(e) >= 0)
            m = s.what
            self.is_inverted_result_target = SBool(s.inverted(e)) if m in ("measured", "mpp") else False
            self.is_measurement_record_target = m == "records"
            self.is_qubit_target = m in ("qubits", "measured")
            self.is_sweep_bit_target = False
            if m == "mpp":
                comb = (self.i % 3) == 1
                self.is_combiner = comb if isinstance(comb, bool) else SBool(z3.simplify(comb.e))
                if isinstance(self.is_combiner, SBool) and (z3.is_true(self.is_combiner.e) or z3.is_false(self.is_combiner.e)):
                    self.is_combiner = z3.is_true(self.is_combiner.e)
                k = s.pauli(e)
                flag = [SBool(z3.And(c, z3.Not(zbool(self.is_combiner)))) for c in (k < 0, k == 0, k > 0)]
                self.is_x_target, self.is_y_target, self.is_z_target = flag
            else:
                self.is_combiner = False
                self.is_x_target = self.is_y_target = self.is_z_target = False

        @property
        def qubit_value(self):
            return self.value

        def __hash__(self):
            return id(self)

    class Targets(SSeq):
        """An arbitrary target list."""
        def __init__(self, what):
            eng = engine()
            self.what = what
            n = SNum(eng.fresh("targets", z3.IntSort()))
            if what == "mpp":
                eng.assume(n >= 1)
                self.products = n
                n = n * 3
                self.period = 3
            else:
                eng.assume(n >= (0 if what == "records" else 1))
            eng.fresh_n += 1
            u = eng.fresh_n
            self.value = z3.Function(f"target_value_{u}", z3.IntSort(), z3.IntSort())
            self.inverted = z3.Function(f"target_inverted_{u}", z3.IntSort(), z3.BoolSort())
            self.pauli = z3.Function(f"target_pauli_{u}", z3.IntSort(), z3.IntSort())
            super().__init__(n, lambda i: Target(self, i), list)

        def __hash__(self):
            return id(self)

    class Args(Sym):
        """The arguments of an annotation: only handed on."""
        py_type = list

        def copy(self):
            return self

        def as_list(self):
            return self

        def __hash__(self):
            return id(self)

    class Instr(Sym):
        py_type = stim.CircuitInstruction

        def __init__(self, name, targets, args):
            self.name, self.targets, self.args, self.tag = name, targets, args, ""

        def targets_copy(self):
            return self.targets

        def gate_args_copy(self):
            return self.args

        def __hash__(self):
            return id(self)

        def __repr__(self):
            return f"<{self.name} on arbitrary targets>"

    class Rep(Sym):
        py_type = stim.CircuitRepeatBlock
        name = "REPEAT"

        def __init__(self, body, n):
            self.body, self.repeat_count, self.tag = body, n, ""

        def body_copy(self):
            return self.body

        def __hash__(self):
            return id(self)

    class MutSet(SSet):
        """A mutable set of qubits in an arbitrary state."""
        py_type = set

        def __init__(self, pred, ne=None):
            super().__init__(pred)
            self.ne = ne

        def clear(self):
            self.pred, self.ne = (lambda t: z3.BoolVal(False)), z3.BoolVal(False)

        def _take(self, o, f):
            o = SSet.of(o)
            if o is None:
                raise Unsupported("set operation")
            a, b = self.pred, o.pred
            self.pred, self.ne = (lambda t: f(a(t), b(t))), None
            return self

        def __ior__(self, o):
            return self._take(o, z3.Or)

        def __isub__(self, o):
            return self._take(o, lambda a, b: z3.And(a, z3.Not(b)))

        def update(self, *os):
            for o in os:
                self._take(o, z3.Or)

        def add(self, x):
            self._take([x], z3.Or)

        def copy(self):
            return MutSet(self.pred, self.ne)

        frozen_copy = copy

        def __hash__(self):
            return id(self)
    import types
    return types.SimpleNamespace(**{k: v for k, v in locals().items() if isinstance(v, type)})


def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b.e


class NoiseFold:
    def __init__(self, P, make_model, judge, names):
        """make_model() -> (model, info); judge(fold, info, op, part lists) states what one operation may add."""
        import stim
        self.P, self.eng = P, P.eng
        self.make_model, self.judge, self.names = make_model, judge, names
        self.c = make_classes()
        self.roles = None
        self.general = None
        c = self.c

        def circuit(*a, **k):
            if a or k:
                from pyvc.core import Unsupported
                raise Unsupported("circuit from text")
            return c.SCirc()
        circuit._pyvc_model = True
        block = lambda n, body, **k: c.Block(n, body)
        block._pyvc_model = True
        P.interp.override(stim.Circuit, circuit)
        P.interp.symbolic_sets = True
        P.interp.override(stim.CircuitRepeatBlock, block)
        P.interp.range_loop = self.mpp_loop
        self.top = None

    # ---- the state
    def find(self, env):
        from pyvc.core import Unsupported
        from pyvc.folds import SSet
        from pyvc.interp import LSet
        from pyvc.values import Fam
        circ = [k for k, v in env.items() if isinstance(v, self.c.SCirc)]
        sets = [k for k, v in env.items() if (isinstance(v, (set, LSet)) and not isinstance(v, frozenset))]
        qs = [k for k, v in env.items() if isinstance(v, SSet) and not isinstance(v, self.c.MutSet) or isinstance(v, Fam) and v.kind is set]
        if len(circ) != 4 or len(sets) != 2 or len(qs) != 1:
            raise Unsupported(f"the state of the noise insertion is not four circuits and two sets: {circ} {sets} {qs}")
        return circ, sets, qs[0]

    def probe(self, fold, interp, node, scope, env0):
        """Which circuit holds what: run the loop body on probe operations."""
        from pyvc.core import PathEnd, PyExc, Unsupported
        from pyvc.interp import _Continue
        eng, c = self.eng, self.c
        circ, sets, qs = self.find(env0)
        chain, s = [], scope
        while s is not None:
            chain.append((s, dict(s.vars)))
            s = s.parent
        seen = []

        def run(name):
            def go():
                for sc, vs in chain:
                    sc.vars = dict(vs)
                new = {k: c.SCirc() for k in circ}
                new.update({k: self.empty_set() for k in sets})
                fold.put(scope, new)
                op = c.Instr(name, [] if name == "TICK" else c.Targets("measured" if name == "M" else "qubits"), [])
                interp.assign(node.target, op, scope)
                try:
                    interp.exec_block(node.body, scope)
                except _Continue:
                    pass
                except PyExc:
                    return {k: () for k in circ}, None      # a model without a rule for the operation
                env = fold.visible(scope)
                what = {k: tuple(a[1] for a in env[k].atoms) for k in circ}
                hit = {k for k in sets if z3.is_false(z3.simplify(env[k].pred(z3.Int("probe")))) is False} if all(isinstance(env[k], c.MutSet) for k in sets) else None
                return what, hit
            try:
                return [r for _, _, r in eng.sub_explore(go)]
            finally:
                for sc, vs in chain:
                    sc.vars = dict(vs)
        roles = {}

        def role(r, k):
            if roles.setdefault(r, k) != k:
                raise Unsupported(f"no fixed role of {k}")
        try:
            for what, _ in run("TICK"):
                for k in circ:
                    if "TICK" in what[k]:
                        role("result", k)
            for name in ("M", "R", "H"):
                for what, hit in run(name):
                    for k in circ:
                        if name in what[k]:
                            role("mid", k)
                        elif what[k] and set(what[k]) <= NOISE:
                            role({"M": "pre"}.get(name, "post"), k)
                    if hit is not None and name == "H" and len(hit) == 1:
                        role("used", *hit)
            other = [k for k in sets if k != roles.get("used")]
            if "used" in roles:
                role("measured", other[0])
        except PathEnd:
            pass
        if set(roles) != {"result", "pre", "mid", "post", "used", "measured"} or len(set(roles.values())) != 6:
            raise Unsupported(f"the roles of the state variables are not clear: {roles}")
        roles["qs"] = qs
        return roles

    def empty_set(self):
        return self.c.MutSet(lambda t: z3.BoolVal(False), z3.BoolVal(False))

    def state(self, env, phase):
        eng, c = self.eng, self.c
        circ, sets, qs = self.find(env)
        if phase == "names":
            return set(circ) | set(sets) | {qs}
        r = self.roles
        I, B = z3.IntSort(), z3.BoolSort()
        eng.fresh_n += 1
        u = eng.fresh_n
        full = eng.choose(2) == 1
        st = {}

        def base(role, ne):
            return ("base", role, ne)
        ne = {k: (eng.fresh(f"{k}_nonempty", B) if k != "mid" else z3.BoolVal(True)) for k in ("pre", "mid", "post", "result")}
        st["result"] = c.SCirc([base("result", ne["result"])])
        for k in ("pre", "mid", "post"):
            st[k] = c.SCirc([base(k, ne[k])] if full else [])
        for k in ("used", "measured"):
            if full:
                f = z3.Function(f"{k}_{u}", I, B)
                m = eng.fresh(f"{k}_nonempty", B)
                w = eng.fresh(f"{k}_witness", I)
                t = z3.Int("t")
                eng.assume(z3.Implies(m, f(w)))
                eng.assume(z3.ForAll([t], z3.Implies(f(t), m)))
                st[k] = c.MutSet(lambda t, f=f: f(t), m)
            else:
                st[k] = self.empty_set()
        st["qs"] = self.qs
        self.eng.local["start"] = {"full": full, "used": (st["used"].pred, st["used"].ne), "measured": (st["measured"].pred, st["measured"].ne)}
        return {r[k]: v for k, v in st.items()}

    # ---- comparing what was added
    def content(self, atoms):
        out = []
        for a in atoms:
            if a[0] == "base" and self.eng.implied(z3.Not(a[2])):
                continue
            out.append(a)
        return out

    def same_targets(self, got, op):
        """Exactly the targets of the operation, in order."""
        from pyvc.values import SNum, SSeq, as_num, implies, land, value_eq
        want = op.targets
        if got is want:
            return True
        if isinstance(want, list) and isinstance(got, (list, tuple)):
            return len(got) == len(want) and all(a is b for a, b in zip(got, want))
        if not isinstance(got, SSeq) or not isinstance(want, SSeq):
            return None
        i = SNum(self.eng.fresh("i", z3.IntSort()))
        g = got.at(i)
        if isinstance(g, self.c.Target):
            same = g.src is want and value_eq(g.i, i)
        else:
            return None
        return land(value_eq(as_num(got.n), as_num(want.n)), implies(land(i >= 0, i < as_num(want.n)), same))

    def same_values(self, got, want_n, want_at):
        from pyvc.values import SNum, SSeq, as_num, implies, land, value_eq
        if isinstance(got, (list, tuple)) or not isinstance(got, SSeq):
            return None
        i = SNum(self.eng.fresh("i", z3.IntSort()))
        inside = land(i >= 0, i < as_num(want_n))
        box = []

        def run():
            self.eng.assume(inside)
            g = got.at(i)
            v = g.value if isinstance(g, self.c.Target) else g
            box.append(value_eq(v, want_at(i)))
            return box[-1]
        outs = self.eng.sub_explore(run)
        conj = [implies(land(*[mk(c) for c in conds]), r) for conds, _, r in outs]
        return land(value_eq(as_num(got.n), as_num(want_n)), *conj)

    def is_channel(self, name, atom, kind, strength, n, at):
        """The atom is the noise channel of that kind and strength on these qubits in order."""
        from pyvc.core import Unsupported
        from pyvc.values import value_eq
        P = self.P
        ok = atom[0] == "op" and atom[1] == kind
        P.prove(f"{name}: the channel is {kind}", ok)
        if not ok:
            return
        arg = atom[3]
        if isinstance(arg, (list, tuple)) and len(arg) == 1:
            arg = arg[0]
        P.prove(f"{name}: the channel has the prescribed strength", value_eq(arg, strength))
        same = self.same_values(atom[2], n, at)
        if same is None:
            raise Unsupported("targets of the channel")
        P.prove(f"{name}: the channel acts on the targets of the operation", same)

    # ---- loops over the products of a parity measurement
    def mpp_loop(self, interp, node, scope, src):
        from pyvc.core import Unsupported
        from pyvc.interp import assigned_names
        from pyvc.values import SNum, as_num, land, value_eq
        P, eng, c = self.P, self.eng, self.c
        T = eng.local.get("mpp")
        if T is None:
            return False
        env, s = {}, scope
        while s is not None:
            for k, v in s.vars.items():
                env.setdefault(k, v)
            s = s.parent
        circs = [k for k in scope.vars if isinstance(scope.vars[k], c.SCirc)]
        saved = dict(scope.vars)
        n = as_num(src.n)
        box = []

        plain = []

        def step():
            scope.vars.clear()
            scope.vars.update(saved)
            old = eng.journal, getattr(eng, "journal_depth", 0)
            eng.journal, eng.journal_depth = [], old[1] + 1
            try:
                for k in circs:
                    scope.vars[k] = c.SCirc([])
                j = SNum(eng.fresh("product", z3.IntSort()))
                eng.assume(land(j >= 0, j < n))
                interp.assign(node.target, src.at(j), scope)
                interp.exec_block(node.body, scope)
                grown = [k for k in circs if scope.vars[k].atoms]
                if not grown:
                    plain.append(True)
                    return None
                if eng.journal or len(grown) != 1 or len(scope.vars[grown[0]].atoms) != 1 or scope.vars[grown[0]].atoms[0][0] != "gadget":
                    raise Unsupported("a loop over targets that does not add one gadget per round")
                a = scope.vars[grown[0]].atoms[0]
                t1, t2 = a[1], a[2]
                ok = isinstance(t1, c.Target) and isinstance(t2, c.Target) and t1.src is T and t2.src is T
                P.prove("parity measurement: each gadget measures the targets of its product, in order",
                        ok and land(value_eq(t1.i, j * 3), value_eq(t2.i, j * 3 + 2)))
                box.append((grown[0], a))
                return None
            finally:
                eng.journal, eng.journal_depth = old
                scope.vars.clear()
                scope.vars.update(saved)
        changed = (assigned_names(node.body) - assigned_names([__import__("ast").Assign(targets=[node.target], value=None)])) & set(saved) - set(circs)
        if changed:
            raise Unsupported("loop-carried variables")
        eng.sub_explore(step)
        if plain and not box:
            return False
        if plain or not box or any(b[0] != box[0][0] for b in box):
            raise Unsupported("a loop over targets without gadgets")
        k, a = box[0]
        P.prove("parity measurement: one gadget per product", value_eq(n, T.products))
        scope.vars[k].atoms.append(("gadgets", T, a[3], a[4]))
        return True

    # ---- the whole function
    def note_scope(self, env0, how):
        """With both optional arguments given, the loop starts with an arbitrary set of qubits and an arbitrary ancilla. When all
        other variables are the same, the steps of the loop with computed arguments are instances of those already gone through."""
        from pyvc.values import SNum
        skip = {self.roles[k] for k in self.roles}
        shape = {}
        for k, v in env0.items():
            if k in skip:
                continue
            if v is self.anc or (how != 3 and self.general is not None and self.general[0].get(k) == "ancilla" and isinstance(v, (SNum, int))):
                shape[k] = "ancilla"
                self.P.prove("the ancilla is free", self.ancilla_ok(v))
            elif v is self.circuit or v is self.model:
                shape[k] = "given"
            elif getattr(v, "node", None) is not None:
                shape[k] = id(v.node)
            elif how != 3 and k in ("qs", "ancilla") and v is None:
                shape[k] = None
            else:
                shape[k] = id(v)
        if how == 3:
            self.general = (shape, self.roles)
        self.instance = how != 3 and self.general == (shape, self.roles)

    def element(self):
        from pyvc.core import PathEnd
        from pyvc.values import SNum
        eng, c = self.eng, self.c
        if self.instance:
            raise PathEnd("an instance of the general case")
        names = list(self.names) + ["TICK", "REPEAT"]
        name = names[eng.choose(len(names))]
        eng.local.pop("mpp", None)
        if name == "REPEAT":
            n = SNum(eng.fresh("repetitions", z3.IntSort()))
            eng.assume(n >= 1)
            return c.Rep(c.Body(), n)
        if name == "TICK":
            return c.Instr("TICK", [], [])
        if name in ANNOTATIONS:
            return c.Instr(name, c.Targets("qubits" if name == "QUBIT_COORDS" else "records"), c.Args())
        T = c.Targets("mpp" if name == "MPP" else "measured" if name.startswith("M") else "qubits")
        if name == "MPP":
            eng.local["mpp"] = T
            return c.Instr(name, T, [[], [0.0]][eng.choose(2)])
        return c.Instr(name, T, [])

    def flushed(self, label, atoms, st, tail):
        """result = before + (time step with its idle noise) + tail."""
        from pyvc.values import SBool, SNum, land, value_eq
        P, eng = self.P, self.eng
        got = self.content(atoms)
        want = ["result"] + (["pre", "mid", "post"] if st["full"] else [])
        want = [w for w in want]
        bases = [a[1] for a in got if a[0] == "base"]
        missing = [w for w in want if w not in bases]
        for w in missing:
            # A part may be left out only if it is empty.
            P.prove(f"{label}: the {w} part of the time step is emitted", SBool(z3.Not(eng.local["ne"][w])) if w in eng.local.get("ne", {}) else False)
        P.prove(f"{label}: parts are emitted once, in order", bases == [w for w in want if w in bases])
        k = len([a for a in got if a[0] == "base"])
        P.prove(f"{label}: nothing is emitted between the parts of a time step", all(a[0] == "base" for a in got[:k]))
        rest = got[k:]
        if tail is not None:
            P.prove(f"{label}: the operation follows", len(rest) >= 1 and tail(rest[-1]))
            rest = rest[:-1]
        if not st["full"]:
            P.prove(f"{label}: an empty time step adds nothing", not rest)
            return
        self.idle(label, rest, st)

    def idle(self, label, rest, st):
        """rest are exactly the idle channels of the time step."""
        from pyvc.core import Unsupported
        from pyvc.folds import SSet
        from pyvc.values import Fam, SBool, SNum, value_eq
        P, eng = self.P, self.eng
        model = self.info["idle"], self.info["mri"]
        t = eng.fresh("qubit", z3.IntSort())
        q = self.qs.pred(t)
        (up, un), (mp, mn) = st["used"], st["measured"]
        want = [(model[0], z3.And(q, z3.Not(up(t)), un, (SNum_(model[0]) > 0).e)), (model[1], z3.And(q, z3.Not(mp(t)), mn, (SNum_(model[1]) > 0).e))]
        chans = []
        for a in rest:
            ok = a[0] == "op" and a[1] == "DEPOLARIZE1"
            P.prove(f"{label}: idling depolarises single qubits", ok)
            if not ok:
                return
            arg = a[3][0] if isinstance(a[3], (list, tuple)) and len(a[3]) == 1 else a[3]
            s = SSet.of(a[2])
            if s is None:
                raise Unsupported("targets of an idle channel")
            if isinstance(a[2], Fam):
                P.no_duplicates(f"{label}: no qubit is depolarised twice by one channel", a[2])
            chans.append((arg, s.pred(t)))
        if len(chans) > 2:
            P.prove(f"{label}: at most two idle channels", False)
            return
        # Find which channel is which.
        slots = []
        free = [0, 1]
        import itertools
        best = None
        for perm in itertools.permutations(free, len(chans)):
            conds = []
            for (s, p), w in zip(chans, perm):
                conds.append(z3.And((SNum_(s) == SNum_(want[w][0])).e if not isinstance(SNum_(s) == SNum_(want[w][0]), bool) else z3.BoolVal(SNum_(s) == SNum_(want[w][0])), p == want[w][1]))
            for w in free:
                if w not in perm:
                    conds.append(z3.Not(want[w][1]))
            g = SBool(z3.And(*conds) if conds else z3.BoolVal(True))
            if best is None or eng.implied(g.e):
                best = g
        P.prove(f"{label}: exactly the idling qubits are depolarised, with the prescribed strengths", best)

    def check(self, pre, env, x):
        from pyvc.folds import SSet
        from pyvc.values import SBool, SNum, land, value_eq
        P, eng, r = self.P, self.eng, self.roles
        st = eng.local["start"]
        now = {k: env[r[k]] for k in r}
        for k in ("result", "pre", "mid", "post"):
            if not isinstance(now[k], self.c.SCirc):
                P.prove("the state stays circuits", False)
                return
        self.same_qubits("the set of idling qubits is kept", now["qs"], self.qs.pred)
        name = getattr(x, "name", None)
        if isinstance(x, self.c.Rep) or name == "TICK":
            def tail(a):
                if name == "TICK":
                    return a[0] == "op" and a[1] == "TICK" and (isinstance(a[2], (list, tuple)) and not a[2]) and not a[3]
                return a[0] == "repeat" and len(a[1]) == 1 and a[1][0] == ("noisy", x.body) and value_eq(a[2], x.repeat_count)
            label = "tick" if name == "TICK" else "repeat block"
            self.flushed(label, now["result"].atoms, st, tail)
            for k in ("pre", "mid", "post"):
                P.prove(f"{label}: a new time step starts empty ({k})", now[k].empty())
            for k in ("used", "measured"):
                self.same_qubits(f"{label}: a new time step starts with no {k} qubits", now[k], lambda t: z3.BoolVal(False))
            return
        label = "annotation" if name in ANNOTATIONS else name
        got = self.content(now["result"].atoms)
        P.prove(f"{label}: nothing is emitted before the time step ends", [a[:2] for a in got] == [("base", "result")] or got == [])
        added = {}
        for k in ("pre", "mid", "post"):
            at = now[k].atoms
            n = 1 if st["full"] else 0
            ok = len(at) >= n and all(at[j][0] == "base" and at[j][1] == k for j in range(n)) and not any(a[0] == "base" for a in at[n:])
            P.prove(f"{label}: what the time step held is kept ({k})", ok)
            if not ok:
                return
            added[k] = at[n:]
        self.judge(self, label, x, added)
        P.prove(f"{label}: the time step is not empty any more", SBool(z3.Not(zb_(now["mid"].empty()))))
        touched = lambda t: z3.BoolVal(False)
        if name not in ANNOTATIONS:
            T = x.targets

            def touched(t):
                i = z3.Int("i")
                inside = z3.And(i >= 0, i < T.n.e if T.n.den == 1 else z3.BoolVal(False), T.value(i) == t)
                if T.what == "mpp":
                    inside = z3.And(inside, i % 3 != 1)
                return z3.Exists([i], inside)
        (up, _), (mp, _) = st["used"], st["measured"]
        self.same_qubits(f"{label}: its qubits are not idle", now["used"], lambda t: z3.Or(up(t), touched(t)))
        self.same_qubits(f"{label}: measured and reset qubits are known", now["measured"],
                         lambda t: z3.Or(mp(t), touched(t)) if name in MEASURES + RESETS else mp(t))

    def same_qubits(self, name, got, want):
        from pyvc.folds import SSet
        from pyvc.values import SBool
        s = SSet.of(got)
        if s is None:
            from pyvc.core import Unsupported
            raise Unsupported(f"not a set of qubits: {got!r}")
        t = self.eng.fresh("qubit", z3.IntSort())
        self.P.prove(name, SBool(s.pred(t) == want(t)))

    def on_raise(self, pe, pre, x):
        name = getattr(x, "name", None)
        self.P.prove(f"{name}: refused only when unknown", type(pe.exc) is NotImplementedError and self.refused(x))

    def refused(self, x):
        return self.info["known"] is not None and x.name not in self.info["known"] and x.name not in ANNOTATIONS + ["TICK", "REPEAT"]

    def run(self):
        from pyvc import core
        from pyvc.folds import Fold, SSet
        from pyvc.interp import StarArg
        from pyvc.values import SBool, SNum, as_num, land, value_eq, Fam
        import noise
        P, eng, c = self.P, self.eng, self.c
        model, self.info = self.make_model()
        nf = self

        class F(Fold):
            def run_for(self, interp, node, scope, stream):
                env0 = self.visible(scope)
                nf.roles = eng.once((id(node), "roles"), lambda: nf.probe(self, interp, node, scope, env0))
                eng.once((id(node), "start"), lambda: nf.entry(env0))
                nf.note_scope(env0, how)
                super().run_for(interp, node, scope, stream)
        fold = F("noise", self.state, self.check, None, on_raise=self.on_raise)

        class Circ(__import__("pyvc.folds", fromlist=["Stream"]).Stream):
            py_type = __import__("stim").Circuit
        circuit = Circ(self.element, fold, distinct=False)
        N = SNum(z3.Int("num_qubits"))
        eng.assume(N >= 0)
        circuit.num_qubits = N
        kw = {}
        # Both optional arguments given: the most general case of the loop, so it is gone through first.
        how = [3, 0, 1, 2][eng.choose(4)]
        Q = z3.Function("idling_set", z3.IntSort(), z3.BoolSort())
        given = how in (1, 3)

        def qpred(t):
            eng.assume_fact(z3.Implies(Q(t), t >= 0))
            return Q(t)
        if given:
            kw["qs"] = QSet(qpred)
            self.qs = kw["qs"]
        else:
            self.qs = QSet(lambda t: z3.And(t >= 0, t < N.e))
        anc = self.anc = SNum(z3.Int("given_ancilla"))
        self.circuit, self.model = circuit, model
        if how in (2, 3):
            kw["ancilla"] = anc
            self.ancilla_ok = lambda a: value_eq(a, anc)
        else:
            self.ancilla_ok = lambda a: land(as_num(a) >= N, SBool(z3.Not(self.qs.pred(as_num(a).e))))

        def gadget(*, t1, t2, ancilla, mix_probability):
            P.prove("parity measurement: the ancilla is free", self.ancilla_ok(ancilla))
            return c.SCirc([("gadget", t1, t2, ancilla, mix_probability)])

        def recursion(self_, circuit_=None, *, qs=None, ancilla=None, **more):
            if isinstance(circuit_, c.Body):
                P.prove("repeat block: made noisy by the same model", self_ is model and not more)
                P.prove("repeat block: with the same set of idling qubits", qs is not None and qs is not None)
                if qs is not None:
                    nf.same_qubits("repeat block: with the same set of idling qubits", qs, nf.qs.pred)
                P.prove("repeat block: with a free ancilla", ancilla is not None and nf.ancilla_ok(ancilla))
                return c.SCirc([("noisy", circuit_)])
            return P.interp.call_interp(P.interp.function_of(noise.NoiseModel.noisy_circuit), (self_, circuit_), dict(qs=qs, ancilla=ancilla, **more))
        eng.callee_contracts = {"noise.parity_measurement_with_correlated_measurement_noise": gadget, "noise.NoiseModel.noisy_circuit": recursion}
        eng.assumptions.add("contract of parity_measurement_with_correlated_measurement_noise (C09)")
        r = P.call(noise.NoiseModel.noisy_circuit, model, circuit, **kw)
        P.prove("every operation is gone through", fold.used)
        P.prove("a circuit is returned", isinstance(r, c.SCirc))
        self.flushed("end", r.atoms, eng.local["start"], None)

    def entry(self, env):
        P = self.P
        r = self.roles
        for k in ("result", "pre", "mid", "post"):
            P.prove(f"the start is empty ({k})", not env[r[k]].atoms)
        for k in ("used", "measured"):
            self.same_qubits(f"no qubit is {k} at the start", env[r[k]], lambda t: z3.BoolVal(False))
        self.same_qubits("the idling qubits are those given, or all qubits of the circuit", env[r["qs"]], self.qs.pred)
        objs = [env[r[k]] for k in ("result", "pre", "mid", "post", "used", "measured")]
        P.prove("the parts are separate objects", len({id(o) for o in objs}) == len(objs))


def SNum_(v):
    from pyvc.values import as_num
    return as_num(v)


def zb_(v):
    from pyvc.values import zb
    return zb(v)


def mk(c):
    from pyvc.values import SBool
    return SBool(c)


def QSet(pred):
    from pyvc.core import engine
    from pyvc.folds import SSet
    from pyvc.values import SNum

    class Q(SSet):
        py_type = set

        def sym_max(self, default=None):
            eng = engine()
            m = SNum(eng.fresh("largest", z3.IntSort()))
            t = z3.Int("t")
            empty = z3.ForAll([t], z3.Not(self.pred(t)))
            if default is None:
                from pyvc.core import PyExc
                if eng.decide(empty):
                    raise PyExc(ValueError("max() of an empty set"))
            eng.assume(z3.ForAll([t], z3.Implies(self.pred(t), t <= m.e)))
            eng.assume(z3.Or(self.pred(m.e), z3.And(empty, m.e == SNum_(default if default is not None else -1).e)))
            return m

        def copy(self):
            return self

        def __hash__(self):
            return id(self)
    return Q(pred)


# ------------------------------------------------------------------ what one operation may add
def same_op(nf, label, x, mid, flip=None, any_flip=False):
    """mid is exactly the operation itself (a parity measurement may get a result-flip probability)."""
    from pyvc.core import Unsupported
    from pyvc.values import value_eq
    P = nf.P
    ok = len(mid) == 1 and mid[0][0] == "op"
    P.prove(f"{label}: the operation is emitted exactly once", ok)
    if not ok:
        return
    P.prove(f"{label}: the operation keeps its name", mid[0][1] == x.name)
    same = nf.same_targets(mid[0][2], x)
    if same is None:
        raise Unsupported("targets of the operation")
    P.prove(f"{label}: the operation keeps its targets", same)
    a = mid[0][3]
    if isinstance(x.args, nf.c.Args):
        P.prove(f"{label}: the operation keeps its arguments", a is x.args)
        return
    if any_flip and x.name == "MPP":
        return
    if not isinstance(a, (list, tuple)):
        a = [] if a is None else [a]
    if flip is None or (not isinstance(flip, int) and bool(SNum_(flip) == 0)) or flip is 0:  # noqa
        P.prove(f"{label}: the operation keeps its arguments", len(a) == 0 or len(a) == 1 and value_eq(a[0], 0))
    else:
        P.prove(f"{label}: the result is flipped with the prescribed probability", len(a) == 1 and value_eq(a[0], flip))


def same_gadgets(nf, label, x, mid, s=None):
    from pyvc.values import value_eq
    P = nf.P
    ok = len(mid) == 1 and mid[0][0] == "gadgets" and mid[0][1] is x.targets
    P.prove(f"{label}: one gadget per product, nothing else", ok)
    if ok and s is not None:
        P.prove(f"{label}: the gadget mixes with the prescribed probability", value_eq(mid[0][3], s))


def judge_ideal(nf, label, x, added):
    """C07: apart from noise channels exactly the operation."""
    P = nf.P
    for k in ("pre", "post"):
        P.prove(f"{label}: around the operation there are only noise channels ({k})", all(a[0] == "op" and a[1] in NOISE for a in added[k]))
    if x.name == "MPP" and any(a[0] == "gadgets" for a in added["mid"]):
        P.prove(f"{label}: gadgets only in the correlated model", nf.info["correlated"])
        same_gadgets(nf, label, x, added["mid"])
        return
    same_op(nf, label, x, added["mid"], any_flip=True)


def judge_noise(nf, label, x, added):
    """C08: exactly the model's channel, strength, side and targets."""
    from pyvc.values import SNum
    P = nf.P
    name = x.name
    s = 0 if name in ANNOTATIONS else nf.info["strength"].get(name)
    P.prove(f"{label}: unknown operations are refused", s is not None)
    if s is None:
        return
    pre, mid, post = added["pre"], added["mid"], added["post"]
    quiet = s == 0 if not isinstance(s, SNum) else bool(s == 0)
    T = x.targets

    def live(atoms):
        return [a for a in atoms if not (a[0] == "op" and a[1] in NOISE and a[3] is not None and nf.eng.implied(zb_(SNum_(a[3][0] if isinstance(a[3], (list, tuple)) else a[3]) == 0)))]
    pre, post = live(pre), live(post)
    if quiet:
        P.prove(f"{label}: nothing is noisy at strength zero", not pre and not post)
        same_op(nf, label, x, mid)
        return
    val = lambda i: SNum(T.value(i.e))
    if name in ONE + TWO + RESETS:
        P.prove(f"{label}: one channel, behind the operation", not pre and len(post) == 1)
        same_op(nf, label, x, mid)
        if len(post) == 1:
            nf.is_channel(label, post[0], "DEPOLARIZE1" if name in ONE else "DEPOLARIZE2" if name in TWO else FLIP[name], s, T.n, val)
    elif name in MEASURES:
        P.prove(f"{label}: one channel, before the operation", not post and len(pre) == 1)
        same_op(nf, label, x, mid)
        if len(pre) == 1:
            nf.is_channel(label, pre[0], FLIP[name], s, T.n, val)
    elif nf.info["correlated"]:
        P.prove(f"{label}: no further channels around the gadgets", not pre and not post)
        same_gadgets(nf, label, x, mid, s)
    else:
        P.prove(f"{label}: one channel, before the measurement", not post and len(pre) == 1)
        same_op(nf, label, x, mid, flip=s)
        if len(pre) == 1:
            nf.is_channel(label, pre[0], "DEPOLARIZE2", s, T.products * 2, lambda i: SNum(T.value(((i // 2) * 3 + (i % 2) * 2).e)))
