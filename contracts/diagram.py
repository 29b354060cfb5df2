"""Obligations of circuit_diagrams.plot_circuit and _iter_circuit (C26).

The loop over the operations is a fold from an arbitrary state (dictionaries and lists given by what they held before and by what
is added). Loops inside of one operation are given by one arbitrary iteration: they may not carry variables, and what they change
had an arbitrary content beforehand. The generator is given by what one arbitrary iteration of its loops yields.
"""
import ast

import z3

from pyvc import folds
from pyvc.core import Unsupported, engine
from pyvc.folds import AMap, Fold, Stream, frame_kept, frame_of
from pyvc.interp import LSet, MDict, MList, _Break, _Continue, _Return, _read_before_write, assigned_names
from pyvc.values import Fam, SBool, SComplex, SNum, SSeq, Sym, as_num, implies, land, lnot, lor, to_complex, value_eq, zb

SYM = {"M": "M", "R": "R", "H": "H", "H_YZ": "G", "C_XYZ": "C", "C_ZYX": "C", "MR": "D", "MY": "m", "MX": "m"}
TWO = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
SILENT = ["DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "X_ERROR", "DEPOLARIZE1", "DEPOLARIZE2"]
OTHER = ["S", "SQRT_X", "Y", "RX", "RY", "SWAP", "ISWAP", "Z_ERROR", "MRX", "MXX"]


def reals(p):
    p = to_complex(p)
    if p is None:
        raise Unsupported("a position that is not a complex number")
    f = lambda v: z3.ToReal(v.e) if v.e.sort() == z3.IntSort() else v.e
    return f(as_num(p.real)), f(as_num(p.imag))


class Journal:
    """What was written since the arbitrary content, per path."""
    token = None

    def log(self):
        return engine().local.get((self.token, "log"), ())

    def add_log(self, x):
        eng = engine()
        eng.local[(self.token, "log")] = self.log() + (x + (eng.local.get("passes", 0),),)

    def touched(self):
        return bool(self.log()) or bool(engine().local.get((self.token, "touched")))

    def touch(self):
        engine().local[(self.token, "touched")] = True

    def pristine(self):
        return not self.log()

    def __hash__(self):
        return id(self)


class Earlier(Sym):
    """The label of an earlier operation."""
    py_type = str

    def __eq__(self, o):
        return SBool(engine().fresh("same_label", z3.BoolSort()))

    def __ne__(self, o):
        return SBool(engine().fresh("other_label", z3.BoolSort()))

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)


class JMap(Journal, AMap):
    def __init__(self, name, keys):
        eng = engine()
        self.name, self.keys_ = name, keys
        eng.fresh_n += 1
        u = eng.fresh_n
        R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
        self.nonempty = z3.Bool(f"{name}_nonempty_{u}")
        if keys == "qubits":
            self.f, self.re, self.im = z3.Function(f"{name}_has_{u}", I, B), z3.Function(f"{name}_column_{u}", I, R), z3.Function(f"{name}_row_{u}", I, R)
        else:
            self.f = z3.Function(f"{name}_has_{u}", R, R, B)
        super().__init__(self.any_key, self.has, self.held)

    def any_key(self):
        if self.keys_ != "qubits":
            raise Unsupported("traversal of a layer")
        return SNum(engine().fresh("qubit", z3.IntSort()))

    def has(self, k):
        self.touch()
        return self.base_has(k)

    def base_has(self, k):
        eng = engine()
        e = self.f(as_num(k).e) if self.keys_ == "qubits" else self.f(*reals(k))
        eng.assume_fact(z3.Implies(e, self.nonempty))
        return SBool(e)

    def position(self, k):
        k = as_num(k).e
        return SComplex(SNum(self.re(k)), SNum(self.im(k)))

    def held(self, k):
        if self.keys_ != "qubits":
            return Earlier()
        return self.position(k)

    def note(self, what, k, v):
        super().note(what, k, v)
        if what == "writes":
            self.add_log((k, v))

    def __bool__(self):
        if self.log():
            return True
        return bool(SBool(self.nonempty))

    def sym_len(self):
        if not bool(self):
            return 0
        n = SNum(engine().fresh("size", z3.IntSort()))
        engine().assume(n >= 1)
        return n

    def pop(self, *a):
        raise Unsupported("removal from a map")

    clear = update = copy = pop
    __hash__ = Journal.__hash__


class JList(Journal, Sym):
    """A list: some earlier elements, one of which stands for all, and what was appended."""
    py_type = list

    def __init__(self, name, rep=None):
        self.token = object()
        self.name, self.rep = name, rep

    def append(self, x):
        self.add_log((x,))

    def concrete_iter(self):
        if self.rep is None:
            raise Unsupported("traversal of a list of joined qubits")
        self.touch()
        return [self.rep] + [x[0] for x in self.log()]

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")

    def __bool__(self):
        raise Unsupported("truth value of a symbolic list")


class JSet(Journal, Sym):
    py_type = set

    def __init__(self):
        self.token = object()
        eng = engine()
        eng.fresh_n += 1
        self.f = z3.Function(f"seen_{eng.fresh_n}", z3.RealSort(), z3.RealSort(), z3.BoolSort())

    def add(self, x):
        self.add_log((x,))

    def contains_expr(self, x):
        self.touch()
        return lor(SBool(self.f(*reals(x))), *[value_eq(x, y[0]) for y in self.log()])

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")

    def __bool__(self):
        raise Unsupported("truth value of a symbolic set")


class Rep:
    """A for-loop with independent iterations, given by one arbitrary iteration."""
    def __init__(self, owner):
        self.owner = owner

    def matches(self, interp, node, scope):
        return isinstance(node, ast.For)

    def run_for(self, interp, node, scope, src):
        eng = engine()
        if isinstance(src, Stream) and src.fold is not None:
            src.run_for(interp, node, scope)
            return
        if node.orelse:
            raise Unsupported("for-else over a symbolic collection")
        if self.owner.special(interp, node, scope, src):
            return
        env, s = {}, scope
        while s is not None:
            for k, v in s.vars.items():
                env.setdefault(k, v)
            s = s.parent
        target = assigned_names([ast.Assign(targets=[node.target], value=None)])
        for n in (assigned_names(node.body) | folds.nonlocal_writes(interp, node, scope)) - target:
            if n in env and (n not in scope.vars or _read_before_write(n, node.body)):
                raise Unsupported(f"loop-carried variable {n}")
        self.owner.before_pass(node, src)
        frozen = frame_of(env, set())
        depth = eng.local.get("depth", 0)
        eng.local["depth"] = depth + 1
        eng.local["passes"] = eng.local.get("passes", 0) + 1
        if isinstance(src, SSeq):
            n = as_num(src.n)
            if not bool(n >= 1):
                eng.local["done"] = eng.local.get("done", ()) + ((depth, src, None, None),)
                eng.local["depth"] = depth
                return
            i = SNum(eng.fresh("i", z3.IntSort()))
            eng.assume(land(i >= 0, i < n))
            x = src.at(i)
        else:
            i, x = None, src.pick()
        eng.local["done"] = eng.local.get("done", ()) + ((depth, src, i, x),)
        interp.assign(node.target, x, scope)
        try:
            interp.exec_block(node.body, scope)
        except _Continue:
            pass
        except (_Return, _Break):
            raise Unsupported("return or break in a loop over a symbolic collection")
        eng.local["depth"] = depth
        for what, ok, own in frame_kept(frozen):
            if not ok:
                raise Unsupported(f"{what} changes along a loop")


# ------------------------------------------------------------------ the operations that are drawn
class Stepped:
    def __init__(self, P):
        from contracts import noisefold as nf
        import stim
        self.P, self.eng, self.c = P, P.eng, nf.make_classes()

        class CircuitOf(Sym):
            py_type = stim.Circuit

            def sym_source(me):
                return Fam(self.operation, kind=list)

            def __hash__(me):
                return id(me)
        self.circuit_class = CircuitOf

    def special(self, interp, node, scope, src):
        return False

    def before_pass(self, node, src):
        done = self.eng.local.get("done", ())
        if len(done) != self.eng.local.get("depth", 0):
            raise Unsupported("a second loop over the circuit")

    def operation(self):
        eng, c = self.eng, self.c
        k = eng.choose(3)
        if k == 0:
            n = SNum(eng.fresh("repetitions", z3.IntSort()))
            eng.assume(n >= 1)
            op = c.Rep(c.Body(), n)
        else:
            op = c.Instr("QUBIT_COORDS" if k == 1 else ["M", "TICK", "DETECTOR"][eng.choose(3)], c.Targets("qubits"), c.Args())
        eng.local["op"] = op
        return op

    def run(self):
        import circuit_diagrams as cd
        P, eng = self.P, self.eng

        class Part(Sym):
            """What the generator yields for a circuit, by its own contract."""
            def __init__(me, circuit, reps, nested):
                me.args = (circuit, reps, nested)

            def concrete_iter(me):
                return [me]

            def __hash__(me):
                return id(me)

        def contract(c, reps, nested):
            return Part(c, reps, nested)
        first = []

        def recursive(f, args, kwargs):
            if f.qualname.split(".")[-1] == "_iter_circuit":
                if not eng.local.get("entered"):
                    eng.local["entered"] = True
                    return None
                return (contract(*args, **kwargs),)
            return None
        P.interp.call_hook = recursive
        P.interp.loop_rules = [Rep(self)]
        circuit = self.circuit_class()
        reps, nested = P.int("reps", 0), P.int("nested")
        got = P.call(cd._iter_circuit, circuit, reps, nested)
        if not isinstance(got, MList) or got.fam is not None:
            raise Unsupported("what the generator yields")
        done = eng.local.get("done", ())
        if not done or not isinstance(done[0][1], SSeq):
            raise Unsupported("the loops of the generator")
        P.prove("the circuit is gone through as often as it is repeated", value_eq(as_num(done[0][1].n), reps))
        if len(done) == 1:
            if done[0][2] is None:
                P.prove("nothing is yielded for no repetition", len(got) == 0)
                return
            raise Unsupported("the loops of the generator")
        if len(done) != 2 or done[1][0] != 1:
            raise Unsupported("the loops of the generator")
        op = eng.local["op"]
        P.prove("every repetition goes through the operations", done[1][3] is op)
        if isinstance(op, self.c.Rep):
            ok = len(got) == 1 and isinstance(got[0], Part) and got[0].args[0] is op.body
            P.prove("a repeat block yields what its body yields", ok)
            if ok:
                _, n, deeper = got[0].args
                P.prove("a block is repeated unless only its operations are asked for", land(implies(nested <= 0, value_eq(as_num(n), op.repeat_count)),
                                                                                          implies(nested >= 1, value_eq(as_num(n), 1))))
                P.prove("inside of a block is one level deeper", value_eq(as_num(deeper), nested - 1))
            return
        P.prove("an operation is yielded as it is, at most once", len(got) == 0 or len(got) == 1 and got[0] is op)
        P.prove("exactly the operations asked for and all coordinates are yielded", len(got) == 1 if op.name == "QUBIT_COORDS" else value_eq(SBool(zb(nested <= 0)), len(got) == 1))


class Plot:
    def __init__(self, P):
        from contracts import noisefold as nf
        self.P, self.eng, self.c = P, P.eng, nf.make_classes()
        self.roles = None
        self.fold = Fold("operations", self.state, self.check, on_raise=self.on_raise)
        c = self.c

        class Products(SSeq):
            """The targets of a parity measurement: an arbitrary number of products of one or two factors."""
            def __init__(me):
                eng = engine()
                n = SNum(eng.fresh("targets", z3.IntSort()))
                eng.assume(n >= 1)
                super().__init__(n, me.pick_at, list)

            def pick_at(me, i):
                raise Unsupported("position of a factor")

            def __hash__(me):
                return id(me)

        class Factor(Sym):
            def __init__(me, kind):
                me.kind = kind
                me.is_combiner = kind == "*"
                me.is_x_target, me.is_y_target, me.is_z_target = (kind == k for k in "xyz")
                me.is_inverted_result_target = me.is_measurement_record_target = me.is_sweep_bit_target = me.is_qubit_target = False
                me.pauli_type = kind.upper() if kind != "*" else "I"
                if kind != "*":
                    me.value = me.qubit_value = SNum(engine().fresh("factor", z3.IntSort()))
                    engine().assume(me.value >= 0)

            def __hash__(me):
                return id(me)
        self.Products, self.Factor = Products, Factor

    # ---- roles of the variables
    def find_roles(self, env):
        maps = [k for k, v in env.items() if isinstance(v, MDict)]
        lists = [k for k, v in env.items() if isinstance(v, MList)]
        sets = [k for k, v in env.items() if isinstance(v, (set, LSet)) and not isinstance(v, frozenset)]
        if len(maps) != 2 or len(lists) != 3 or len(sets) > 1 or any(len(env[k]) for k in maps + lists + sets):
            raise Unsupported(f"the state of the drawing is not two empty maps and three empty lists: {maps} {lists} {sets}")
        return maps, lists, sets

    def probe(self, interp, node, scope, env0):
        maps, lists, sets = self.find_roles(env0)
        chain, s = [], scope
        while s is not None:
            chain.append((s, dict(s.vars)))
            s = s.parent
        out = []

        def go():
            new = {k: MDict() for k in maps}
            new.update({k: MList() for k in lists})
            self.fold.put(scope, new)
            interp.assign(node.target, self.c.Instr("TICK", [], []), scope)
            try:
                interp.exec_block(node.body, scope)
            except _Continue:
                pass
            home = {}
            for k in lists:
                v = new[k]
                if len(v) == 1:
                    inner = [m for m in new if new[m] is v[0]]
                    if len(inner) == 1:
                        home[k] = inner[0]
            out.append(home)
        try:
            self.eng.sub_explore(go)
        finally:
            for sc, vs in chain:
                sc.vars = dict(vs)
        if len(out) != 1 or len(out[0]) != 2:
            raise Unsupported("what a tick does to the state is not clear")
        home = out[0]
        level = [k for k in home if home[k] in maps]
        other = [k for k in home if home[k] in lists]
        if len(level) != 1 or len(other) != 1 or {level[0], other[0], home[other[0]]} != set(lists):
            raise Unsupported("what a tick does to the state is not clear")
        r = {"levels": level[0], "cur_level": home[level[0]], "connectors": other[0], "cur_connectors": home[other[0]],
             "i2q": [k for k in maps if k != home[level[0]]][0]}
        if sets:
            r["seen"] = sets[0]
        return r

    def state(self, env, phase):
        if phase == "names":
            return set(self.roles.values())
        st = {"levels": JList("levels", JMap("layer", "positions")), "connectors": JList("connectors"), "cur_connectors": JList("joined"),
              "cur_level": JMap("level", "positions"), "i2q": JMap("place", "qubits")}
        if "seen" in self.roles:
            st["seen"] = JSet()
        self.eng.local["state"] = st
        self.eng.local["phase"] = phase
        return {self.roles[k]: v for k, v in st.items()}

    # ---- loops
    def special(self, interp, node, scope, src):
        """The loop that groups the factors of a parity measurement by products."""
        if not isinstance(src, self.Products):
            return False
        eng = self.eng
        st = eng.local["state"]
        names = [k for k, v in scope.vars.items() if isinstance(v, MList) and len(v) == 1 and isinstance(v[0], MList) and not len(v[0])]
        if len(names) != 1 or eng.local.get("grouped") or any(v.touched() for v in st.values()):
            raise Unsupported("how the factors of a parity measurement are grouped")
        name = names[0]
        for n in assigned_names(node.body) - assigned_names([ast.Assign(targets=[node.target], value=None)]):
            if n == name or n in scope.vars and _read_before_write(n, node.body):
                raise Unsupported(f"loop-carried variable {n}")
        frozen = frame_of({k: v for k, v in scope.vars.items() if k != name}, set())
        earlier = object()
        before = scope.vars[name]

        def product():
            size = 1 + eng.choose(2)
            return [self.Factor("xyz"[eng.choose(3)]) for _ in range(size)]

        def step():
            fs = product()
            last = MList()
            groups = scope.vars[name] = MList([earlier, last])
            seq = [fs[0]] if len(fs) == 1 else [fs[0], self.Factor("*"), fs[1]]
            for t in seq:
                interp.assign(node.target, t, scope)
                try:
                    interp.exec_block(node.body, scope)
                except _Continue:
                    pass
                except (_Break, _Return):
                    raise Unsupported("break in a loop over factors")
            ok = len(groups) == 3 and scope.vars[name] is groups and groups[0] is earlier and isinstance(groups[1], MList) and isinstance(groups[2], MList)
            self.P.prove("a product of a parity measurement becomes a group of its own", ok and len(groups[1]) == len(fs) and all(a is b for a, b in zip(groups[1], fs)))
            self.P.prove("the group of the next product is empty", ok and len(groups[2]) == 0)
            for what, same, own in frame_kept(frozen):
                if not same:
                    raise Unsupported(f"{what} changes along the factors")
        saved = dict(scope.vars)
        eng.sub_explore(step)
        scope.vars.clear()
        scope.vars.update(saved)
        fs = product()
        eng.local["grouped"] = fs
        scope.vars[name] = MList([MList(fs), MList()])
        return True

    def before_pass(self, node, src):
        eng = self.eng
        st = eng.local["state"]
        if eng.local["phase"] == "after":
            return
        if eng.local.get("done"):
            raise Unsupported("a second loop over the targets")
        for k, v in st.items():
            if v.touched() and not (k == "i2q" and not v.log() and eng.local["op"].name != "QUBIT_COORDS"):
                raise Unsupported(f"{k} is looked at before the loop over the targets")

    def operation(self):
        eng, c = self.eng, self.c
        names = list(SYM) + TWO + SILENT + OTHER + ["QUBIT_COORDS", "TICK", "MPP"]
        name = names[eng.choose(len(names))]
        if name == "TICK":
            op = c.Instr(name, [], [])
        elif name == "MPP":
            op = c.Instr(name, self.Products(), [])
        elif name == "QUBIT_COORDS":
            op = c.Instr(name, c.Targets("qubits"), [self.P.real("first_coordinate"), self.P.real("second_coordinate")])
        else:
            T = c.Targets("records" if name in SILENT[:3] else "measured" if name in ("M", "MX", "MY", "MR") else "qubits")
            if name in TWO:
                self.eng.assume(T.n % 2 == 0)
            op = c.Instr(name, T, [] if name not in SILENT else c.Args())
        eng.local["op"] = op
        for k in ("done", "grouped", "depth", "passes"):
            eng.local.pop(k, None)
        return op

    # ---- what one operation does
    def changes(self, st, except_for=()):
        return [k for k in st if st[k].log() and k not in except_for]

    def written(self, log, want):
        """The writes are exactly these, in any order."""
        if len(log) != len(want):
            return False
        if len(want) == 1:
            return land(value_eq(to_complex(log[0][0]), to_complex(want[0][0])), log[0][1] == want[0][1])
        opts = []
        for a, b in ((0, 1), (1, 0)):
            if log[0][1] == want[a][1] and log[1][1] == want[b][1]:
                opts.append(land(value_eq(to_complex(log[0][0]), to_complex(want[a][0])), value_eq(to_complex(log[1][0]), to_complex(want[b][0]))))
        return lor(*opts) if opts else False

    def drawn(self, op, st):
        """[(qubit, label)] of the arbitrary iteration, its pair or None, whether all targets are covered."""
        eng = self.eng
        place = lambda q: st["i2q"].position(q)
        if op.name == "MPP":
            fs = eng.local.get("grouped")
            if fs is None:
                return None
            return [(f.value, f.kind) for f in fs], (fs[0].value, fs[1].value) if len(fs) == 2 else None, True
        done = eng.local.get("done", ())
        if len(done) != 1 or not isinstance(done[0][1], SSeq) or done[0][2] is None:
            return None
        _, src, i, x = done[0]
        T = op.targets
        val = lambda j: SNum(T.value(as_num(j).e))
        if op.name in SYM:
            return [(val(i), SYM[op.name])], None, value_eq(as_num(src.n), as_num(T.n))
        if op.name in TWO:
            a, b = val(i * 2), val(i * 2 + 1)
            return [(a, "@" if len(op.name) == 2 else op.name[0]), (b, op.name[-1])], (a, b), value_eq(as_num(src.n) * 2, as_num(T.n))
        return [(val(i), None)], None, value_eq(as_num(src.n), as_num(T.n))

    def check(self, pre, env, op):
        P, r = self.P, self.roles
        st = self.eng.local["state"]
        now = {k: env[r[k]] for k in r}
        name = op.name
        if name == "TICK":
            P.prove("a tick ends the layer: its operations are filed", [x[0] for x in st["levels"].log()] == [st["cur_level"]])
            P.prove("a tick ends the layer: its pairs are filed", [x[0] for x in st["connectors"].log()] == [st["cur_connectors"]])
            P.prove("a tick starts an empty layer", type(now["cur_level"]) is MDict and not len(now["cur_level"]) and now["cur_level"].fam is None)
            P.prove("a tick starts a layer without pairs", type(now["cur_connectors"]) is MList and not len(now["cur_connectors"]) and now["cur_connectors"].fam is None
                    and all(now["cur_connectors"] is not v for k, v in now.items() if k != "cur_connectors"))
            P.prove("a tick changes nothing else", not self.changes(st, ("levels", "connectors")) and all(now[k] is st[k] for k in st if k not in ("cur_level", "cur_connectors")))
            return
        P.prove(f"{name}: the layer goes on", all(now[k] is st[k] for k in st))
        if name in SILENT:
            P.prove(f"{name}: nothing is drawn", not self.changes(st))
            return
        if name in OTHER:
            raise Unsupported(f"{name} is drawn")
        d = self.drawn(op, st)
        if d is None:
            raise Unsupported(f"{name}: how the targets are gone through")
        marks, pair, every = d
        P.prove(f"{name}: every target is gone through", every)
        if name == "QUBIT_COORDS":
            r0, i0 = op.args
            log = st["i2q"].log()
            P.prove("the position of a qubit is noted", len(log) == 1 and land(value_eq(as_num(log[0][0]), marks[0][0]), value_eq(to_complex(log[0][1]), SComplex(r0, i0 * 2))))
            P.prove("positions change nothing else", not self.changes(st, ("i2q", "seen")))
            if "seen" in st:
                s = st["seen"].log()
                P.prove("a position is taken once it is given", len(s) == 1 and value_eq(to_complex(s[0][0]), SComplex(r0, i0 * 2)))
            return
        place = st["i2q"].position
        P.prove(f"{name}: its label is put at the positions of its qubits, in the current layer", self.written(st["cur_level"].log(), [(place(q), s) for q, s in marks]))
        log = st["cur_connectors"].log()
        if pair is None:
            P.prove(f"{name}: joins no qubits", not log)
        else:
            a, b = (place(q) for q in pair)
            ok = len(log) == 1 and isinstance(log[0][0], tuple) and len(log[0][0]) == 2
            P.prove(f"{name}: joins its two qubits", ok and (lambda x, y: lor(land(x == a, y == b), land(x == b, y == a)))(*(to_complex(v) for v in log[0][0])))
        P.prove(f"{name}: changes nothing else", not self.changes(st, ("cur_level", "cur_connectors")))

    def on_raise(self, pe, pre, op):
        P, eng = self.P, self.eng
        if not eng.feasible():
            return
        st = eng.local["state"]
        ex = pe.exc
        if isinstance(ex, NotImplementedError):
            P.prove("only operations that cannot be drawn are refused", op.name in OTHER)
            return
        if op.name in OTHER:
            return
        d = None if op.name in SILENT or op.name == "TICK" else self.drawn(op, st)
        if d is None:
            P.prove(f"{op.name}: no {type(ex).__name__} is raised", False, detail=f"raised {ex!r}")
            return
        marks, pair, every = d
        known = lambda q: st["i2q"].base_has(q)
        if op.name == "QUBIT_COORDS":
            p = SComplex(op.args[0], op.args[1] * 2)
            seen = SBool(st["seen"].f(*reals(p))) if "seen" in st else False
            P.prove("coordinates are refused only for a second time", isinstance(ex, AssertionError) and lor(known(marks[0][0]), seen))
            return
        place = st["i2q"].position
        if isinstance(ex, KeyError):
            P.prove(f"{op.name}: refused only without a position", lor(*[lnot(known(q)) for q, _ in marks]))
            return
        busy = [st["cur_level"].base_has(place(q)) for q, _ in marks]
        if len(marks) == 2:
            busy.append(place(marks[0][0]) == place(marks[1][0]))
        P.prove(f"{op.name}: refused only when a qubit is busy", isinstance(ex, AssertionError) and lor(*busy))

    # ---- the whole function
    def run(self):
        import circuit_diagrams as cd
        import stim
        P, eng = self.P, self.eng
        circuit = self.c.Body()
        only = bool(eng.choose(2))
        calls = []
        me = self

        class Ops(Stream):
            def run_for(s, interp, node, scope):
                me.roles = me.probe(interp, node, scope, me.fold.visible(scope))
                me.fold.run_for(interp, node, scope, s)
        ops = Ops(self.operation, self.fold)

        def iterates(c, reps, nested):
            P.prove("the circuit itself is drawn, once", c is circuit and value_eq(as_num(reps), 1))
            P.prove("only the operations in repeat blocks when asked for", value_eq(as_num(int(nested) if isinstance(nested, bool) else nested), 1 if only else 0)
                    if not (not only and isinstance(nested, int) and nested <= 0) else True)
            eng.local["asked"] = True
            return ops

        def draws(values, connector_levels):
            calls.append(1)
            eng.local["drawn"] = (values, connector_levels)
            return "THE DRAWING"
        eng.callee_contracts = {"circuit_diagrams._iter_circuit": iterates, "circuit_diagrams.diagram_3d": draws}
        P.interp.loop_rules = [Rep(self)]
        got = P.call(cd.plot_circuit, circuit, only)
        P.prove("the operations are gone through", bool(eng.local.get("asked")) and self.fold.used)
        if "drawn" not in eng.local:
            raise Unsupported("how the drawing is made")
        P.prove("the drawing is returned", got == "THE DRAWING")
        st = eng.local["state"]
        lv, cn = eng.local["drawn"]
        if not isinstance(lv, JList) or not isinstance(cn, JList):
            raise Unsupported("what is drawn")
        P.prove("the layers and their pairs are drawn", lv is st["levels"] and cn is st["connectors"])
        last = SBool(st["cur_level"].nonempty)
        tail, joined = [x[0] for x in lv.log()], [x[0] for x in cn.log()]
        P.prove("a last layer with operations is drawn as well", tail == [] and zn(last) or tail == [st["cur_level"]] and last)
        P.prove("with its pairs", (joined == [st["cur_connectors"]]) == (len(tail) == 1) and len(joined) == len(tail))
        P.prove("no further pairs are joined", not st["cur_connectors"].log())
        layers = [lv.rep] + [x for x in tail if isinstance(x, JMap)]
        done = eng.local.get("done", ())
        if len(done) != len(layers) or any(d[0] != 0 or not isinstance(d[1], Fam) for d in done):
            raise Unsupported("how idle qubits are marked")
        for k, layer in enumerate(layers):
            q = getattr(done[k][1], "position_of", lambda x: x)(done[k][3])
            log = layer.log()
            busy = layer.base_has(q)
            if not log:
                P.prove("an idle qubit is marked", busy)
                continue
            P.prove("only idle qubits are marked", lnot(busy))
            P.prove("an idle qubit gets the mark of its position", len(log) == 1 and land(value_eq(to_complex(log[0][0]), to_complex(q)), log[0][1] == "\\", log[0][2] == k + 1))
        P.prove("nothing else changes", not st["i2q"].log())


def zn(b):
    return lnot(b)


def prove(P):
    P.group("_iter_circuit", lambda: Stepped(P).run())
    P.interp.reset()
    P.group("plot_circuit", lambda: Plot(P).run(), max_paths=4000)
    P.eng.callee_contracts = {}
    P.interp.reset()
