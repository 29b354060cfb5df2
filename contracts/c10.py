"""C10: the measurement tracker resolves keys to the right records."""
from contracts.common import require

BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 20
EXPLANATION = ("every method of MeasurementTracker and Prev from an arbitrary tracker state (any number of keys, entries, records): recording and lookup "
               "are folds over an arbitrary number of keys, each step an obligation; grouping and record targets over the contract of the lookup")
ASSUMPTIONS = ["fold principle: a for-loop meets every element of its collection once, in order", "sorted() of a set lists every element once"]
BOUND = "random call histories of up to 40 calls over up to 6 keys of all hashable kinds, all lookup depths"


def cases(tier, rng):
    for k in range(4):
        yield {"n": 500, "keys": 1 + k % 2, "wide": 1 if k < 2 else 150, "seed": k}
    for _ in range(1500 if tier == "quick" else 20000):
        yield {"n": rng.randint(1, 40), "keys": rng.randint(1, 6), "seed": rng.randint(0, 10 ** 9)}


KEYS = ["a", 1 + 2j, ("1/2", "a"), 7, (0.5, "x"), frozenset([1]), ("1/2", 1 + 2j)]


class Bad(Exception):
    pass


def run_case(c):
    import random
    import stim
    import measure_tracker as mt
    rng = random.Random(c["seed"])
    keys = rng.sample(KEYS, c["keys"])
    tr = mt.MeasurementTracker()
    hist = {}
    t = 0
    NONE = "none"
    wide = c.get("wide", 1)

    def ref_set(sel):
        out = frozenset()
        for k, back in sel:
            h = hist.get(k, [])
            if back >= len(h):
                raise Bad()
            v = h[len(h) - 1 - back]
            if v is None:
                return None
            out = out ^ v
        return out

    def sel_keys(sel):
        out = []
        for k, back in sel:
            if back == 0 and rng.random() < 0.7:
                out.append(k)
            elif back == 0:
                out.append(mt.Prev(k, offset=0))
            elif back == 1 and rng.random() < 0.7:
                out.append(mt.Prev(k))
            elif back >= 2 and rng.random() < 0.5:
                a = rng.randint(1, back - 1)
                out.append(mt.Prev(mt.Prev(k, offset=a), offset=back - a))
            else:
                out.append(mt.Prev(k, offset=back))
        return out

    def rand_sel(valid=True):
        s = []
        for _ in range(rng.randint(0, 4)):
            k = rng.choice(keys)
            n = len(hist.get(k, []))
            if valid and not n:
                continue
            s.append((k, rng.randint(0, max(0, n - 1)) if valid else rng.randint(0, n + 1)))
        return s

    for _ in range(c["n"]):
        op = rng.choice(["m", "m", "d", "o", "g", "g", "q", "q", "q", "det", "bad", "badkey"])
        if op == "m":
            ks = [rng.choice(keys) for _ in range(rng.randint(0, 3) * wide)]
            tr.add_measurements(*ks)
            for k in ks:
                hist.setdefault(k, []).append(frozenset([t]))
                t += 1
        elif op in "do" and len(op) == 1:
            ks = [rng.choice(keys) for _ in range(rng.randint(0, 2) * wide)]
            if op == "d" and rng.random() < 0.5:
                tr.add_dummies(*ks)
            else:
                tr.add_dummies(*ks, obstacle=op == "o")
            for k in ks:
                hist.setdefault(k, []).append(None if op == "o" else frozenset())
        elif op == "g":
            s = rand_sel()
            gk = rng.choice(keys)
            tr.add_group(*sel_keys(s), group_key=gk)
            hist.setdefault(gk, []).append(ref_set(s))
        elif op in ("q", "det"):
            s = rand_sel()
            want = ref_set(s)
            kw = {}
            t0 = t
            single = [k for k in keys if hist.get(k) and hist[k][-1] is not None and len(hist[k][-1]) == 1]
            if single and rng.random() < 0.4:
                k = rng.choice(single)
                kw["for_time_after_measurement"] = k
                t0 = next(iter(hist[k][-1])) + 1
                if want is not None and any(x >= t0 for x in want):
                    want2 = None
                    continue
            ks = sel_keys(s)
            if op == "q":
                got = tr.get_record_targets(*ks, **kw)
                if want is None:
                    require(got is None, f"lookup of {ks} involving an unknown value gave {got}")
                else:
                    require(got is not None and [g.value for g in got] == [x - t0 for x in sorted(want)] and all(g.is_measurement_record_target for g in got),
                            f"lookup of {ks} gave {got}, expected {[x - t0 for x in sorted(want)]}")
                raw = tr.measurement_time_set(*ks)
                require(raw == want, f"time set {raw}, expected {want}")
            else:
                circ = stim.Circuit("M 0")
                coords = rng.choice([(), (1, 2), [0.5, 3, 0]])
                tr.append_detector(*ks, out_circuit=circ, coords=coords, **kw)
                exp = stim.Circuit("M 0")
                if want is not None:
                    exp.append("DETECTOR", [stim.target_rec(x - t0) for x in sorted(want)], list(coords))
                require(circ == exp, f"append_detector produced {circ!r}, expected {exp!r}")
        elif op == "bad":
            s = rand_sel(valid=False)
            # Looking further back than recorded fails unless an unknown value comes first.
            try:
                want = ref_set(s)
                bad = False
            except Bad:
                bad = True
            if bad and any(b < len(hist.get(k, [])) and hist[k][-1 - b] is None for k, b in s):
                continue
            try:
                got = tr.get_record_targets(*sel_keys(s))
                raised = False
            except AssertionError:
                raised = True
            except Exception:
                raised = True
            require(raised == bad, f"lookup {s} with history lengths { {k: len(v) for k, v in hist.items()} }: raised={raised}, expected {bad}")
        elif op == "badkey":
            for f in (lambda: tr.add_measurements(mt.Prev("a")), lambda: tr.add_dummies(None), lambda: tr.add_group(group_key=None),
                      lambda: tr.add_group(group_key=mt.Prev("a")), lambda: tr.add_measurements(None), lambda: tr.add_dummies(mt.Prev("b"))):
                tr2 = mt.MeasurementTracker()
                try:
                    f()
                except Exception:
                    continue
                require(False, "a missing or relative key was accepted as a key to record under")
        for k in keys:
            s = [(k, b) for b in range(len(hist.get(k, [])))]
            for x in s[:3]:
                require(tr.measurement_time_set(mt.Prev(x[0], offset=x[1])) == ref_set([x]), f"history of {k} changed")


# ------------------------------------------------------------------ obligations
class Tracker:
    """A tracker in an arbitrary state: history[k] has length(k) entries; entry p of k is unknown or the set {x | in(k, p, x)}."""
    def __init__(self, P):
        import z3
        import measure_tracker as mt
        from pyvc.folds import AMap
        from pyvc.values import SAtom, SNum
        self.P, self.eng, self.mt = P, P.eng, mt
        K, I, B = z3.DeclareSort("TrackedKey"), z3.IntSort(), z3.BoolSort()
        self.K = K
        self.len_f, self.unk = z3.Function("recorded", K, I), z3.Function("unknown", K, I, B)
        self.mem, self.single, self.elem = z3.Function("in_entry", K, I, I, B), z3.Function("is_single", K, I, B), z3.Function("the_element", K, I, I)
        self.t = SNum(z3.Int("measurements_so_far"))
        self.eng.assume(self.t >= 0)
        self.map = AMap(self.key, lambda k: True, lambda k: HList(self, k))
        self.obj = object.__new__(mt.MeasurementTracker)
        self.obj.history, self.obj.t = self.map, self.t

    def key(self, name="key"):
        from pyvc.values import SAtom
        return SAtom(self.eng.fresh(name, self.K))

    def length(self, k):
        import z3
        from pyvc.values import SNum
        self.eng.assume_fact(self.len_f(k.e) >= 0)
        return SNum(self.len_f(k.e))

    def entry(self, k, pos):
        """None or the set of record numbers (all below the number of measurements)."""
        import z3
        from pyvc.folds import SSet
        from pyvc.values import SBool, SNum, as_num
        p = as_num(pos).e
        if bool(SBool(self.unk(k.e, p))):
            return None
        one, x = self.single(k.e, p), self.elem(k.e, p)

        def pred(t):
            m = self.mem(k.e, p, t)
            self.eng.assume_fact(z3.And(z3.Implies(m, z3.And(t >= 0, t < self.t.e)), z3.Implies(one, m == (t == x))))
            return m
        if True:
            self.eng.assume_fact(z3.Implies(one, z3.And(x >= 0, x < self.t.e)))
        return SSet(pred, (SBool(one), SNum(x)))


def make_hlist():
    from pyvc import core
    from pyvc.values import SNum, Sym, as_num

    class HList_(Sym):
        """history[k] in an arbitrary state, followed by what was appended since."""
        py_type = list

        def __init__(self, T, k, extra=()):
            self.T, self.k, self.extra = T, k, list(extra)

        def sym_len(self):
            return self.T.length(self.k) + len(self.extra)

        def append(self, v):
            self.extra.append(v)

        def __add__(self, o):
            return HList_(self.T, self.k, self.extra + list(o))

        def __getitem__(self, i):
            n = self.T.length(self.k)
            i = as_num(i)
            if i < 0:
                i = i + n + len(self.extra)
            if i < 0 or i >= n + len(self.extra):
                raise core.PyExc(IndexError("list index out of range"))
            for j, v in enumerate(self.extra):
                if i == n + j:
                    return v
            return self.T.entry(self.k, i)

        def __bool__(self):
            return bool(self.sym_len() > 0)

        def __hash__(self):
            return id(self)
    return HList_


_H = []


def HList(*a):
    if not _H:
        _H.append(make_hlist())
    return _H[0](*a)


def same_set(P, name, got, want):
    """got contains exactly the elements satisfying want(z3 term)."""
    from pyvc.folds import SSet
    from pyvc.values import SBool
    import z3
    got = SSet.of(got)
    x = P.eng.fresh("x", z3.IntSort())
    P.prove(name, False if got is None else SBool(got.pred(x) == want(x)))


def prove_record(P, which):
    """add_measurements / add_dummies: one key from an arbitrary state."""
    import z3
    from pyvc.folds import Fold, SSet, Stream
    from pyvc.interp import StarArg
    from pyvc.values import SBool, as_num, value_eq
    import measure_tracker as mt
    eng = P.eng
    obstacle = None if which == "add_measurements" else [False, True][eng.choose(2)]
    T0 = Tracker(P)
    box = {}

    def state(env, phase):
        v = [k for k, x in env.items() if isinstance(x, mt.MeasurementTracker)][0]
        if phase == "names":
            return {v}
        box["T"] = T = Tracker(P)
        return {v: T.obj}

    def check(pre, env, x):
        T = box["T"]
        g = T.key("other")
        mine = bool(value_eq(g, x))
        P.prove(f"{which}: the tracker keeps its history", T.obj.history is T.map)
        ok, h = T.map.lookup(g)
        P.prove(f"{which}: exactly one entry is appended, to the key's history", type(h).__name__ == "HList_" and h.k is not None and len(h.extra) == (1 if mine else 0))
        if mine and len(h.extra) == 1:
            e = h.extra[0]
            if obstacle:
                P.prove(f"{which}: placeholders are unknown when asked for", e is None)
            elif which == "add_dummies":
                same_set(P, f"{which}: a placeholder stands for no record", e, lambda t: z3.BoolVal(False))
            else:
                same_set(P, f"{which}: the entry is the next record", e, lambda t: t == T.t.e)
        P.prove(f"{which}: records are counted", value_eq(T.obj.t, T.t + (1 if which == "add_measurements" else 0)))
    fold = Fold(which, state, check)
    keys = Stream(lambda: T0.key(), fold, kind=tuple, distinct=False)
    kw = {} if obstacle is None else ({"obstacle": True} if obstacle else [{}, {"obstacle": False}][eng.choose(2)])
    P.call(getattr(mt.MeasurementTracker, which), T0.obj, StarArg(keys), **kw)
    P.prove(f"{which}: every key is recorded", fold.used)


def some_key(T):
    """A key or Prev(key) at an arbitrary depth; (argument, key, how many entries back)."""
    import z3
    from pyvc.values import SNum
    k = T.key()
    if not T.eng.choose(2):
        return k, k, 1
    off = SNum(T.eng.fresh("offset", z3.IntSort()))
    T.eng.assume(off >= 0)
    pr = object.__new__(T.mt.Prev)
    pr.v, pr.offset = k, off
    return pr, k, off + 1


def prove_time_set(P):
    import z3
    from pyvc import core
    from pyvc.folds import Fold, SSet, Stream
    from pyvc.interp import StarArg, _Return
    from pyvc.values import Fam, SBool, SNum, as_num, value_eq
    import measure_tracker as mt
    eng = P.eng
    T = Tracker(P)
    acc = z3.Function("accumulated", z3.IntSort(), z3.BoolSort())
    box = {}

    def state(env, phase):
        vs = [k for k, x in env.items() if SSet.of(x) is not None and not isinstance(x, (tuple, Fam))]
        if len(vs) != 1:
            raise core.Unsupported("no unique accumulated set")
        return {vs[0]} if phase == "names" else {vs[0]: SSet(lambda t: acc(t))}

    def var(env):
        return [k for k, x in env.items() if SSet.of(x) is not None and not isinstance(x, (tuple, Fam))][0]

    def entry(env):
        same_set(P, "lookup: starts from no records", env[var(env)], lambda t: z3.BoolVal(False))

    def element():
        a, k, back = some_key(T)
        box["x"] = (k, as_num(back))
        return a

    def frame():
        P.prove("lookup: nothing is recorded", not T.map.writes and all(not h.extra for _, h in T.map.seen) and T.obj.history is T.map)
        P.prove("lookup: the count stays", value_eq(T.obj.t, T.t))

    def check(pre, env, x):
        k, back = box["x"]
        P.prove("lookup: only recorded entries are used", back <= T.length(k))
        p = T.length(k) - back
        P.prove("lookup: no unknown entry is used", SBool(z3.Not(T.unk(k.e, p.e))))
        same_set(P, "lookup: a step adds (mod 2) the records of the entry", env[var(env)], lambda t: z3.Xor(acc(t), T.mem(k.e, p.e, t)))
        frame()

    def on_raise(pe, pre, x):
        k, back = box["x"]
        P.prove("lookup: fails only when it looks further back than was recorded", back > T.length(k))
        frame()

    def on_return(v, pre, x):
        k, back = box["x"]
        P.prove("lookup: yields nothing early", v is None)
        P.prove("lookup: yields nothing only for unknown entries", SBool(z3.And((back <= T.length(k)).e, T.unk(k.e, (T.length(k) - back).e))))
        frame()

    def after(env):
        pass
    fold = Fold("lookup", state, check, entry, on_raise=on_raise, on_return=on_return, after=after)
    keys = Stream(element, fold, kind=tuple, distinct=False)
    r = P.call(mt.MeasurementTracker.measurement_time_set, T.obj, StarArg(keys))
    P.prove("lookup: goes through all keys", fold.used)
    same_set(P, "lookup: yields the accumulated records", r, lambda t: acc(t))


class Out:
    """Records what is appended to a circuit."""
    def __init__(self):
        self.ops = []

    def append_operation(self, name, targets=(), arg=()):
        self.ops.append((name, targets, arg))

    append = append_operation


def with_lookup(P, T, keys):
    """measurement_time_set by its contract: nothing, a set of earlier records, or a failure."""
    import z3
    from pyvc import core
    from pyvc.folds import SSet
    eng = P.eng
    found = z3.Function("looked_up", z3.IntSort(), z3.BoolSort())
    how = eng.choose(3)

    def pred(t):
        eng.assume_fact(z3.Implies(found(t), z3.And(t >= 0, t < T.t.e)))
        return found(t)

    def contract(self, *a):
        P.prove("the keys are handed on", self is T.obj and len(a) == 1 and getattr(a[0], "v", None) is keys)
        if how == 2:
            raise core.PyExc(AssertionError("Didn't add a dummy or an obstacle"))
        return None if how == 1 else SSet(pred)
    eng.callee_contracts = {"measure_tracker.MeasurementTracker.measurement_time_set": contract}
    eng.assumptions.add("contract of measurement_time_set (discharged by the obligations `lookup`)")
    return how, found


def prove_add_group(P):
    import measure_tracker as mt
    from pyvc import core
    from pyvc.folds import Stream
    from pyvc.interp import StarArg
    from pyvc.values import value_eq
    T = Tracker(P)
    keys = Stream(lambda: T.key(), kind=tuple, distinct=False)
    how, found = with_lookup(P, T, keys)
    gk = T.key()
    try:
        P.call(mt.MeasurementTracker.add_group, T.obj, StarArg(keys), group_key=gk)
    except core.PyExc:
        P.prove("add_group fails exactly when the lookup does", how == 2)
        return
    P.prove("add_group fails exactly when the lookup does", how != 2)
    g = T.key("other")
    mine = bool(value_eq(g, gk))
    ok, h = T.map.lookup(g)
    P.prove("add_group appends one entry, to the group's history", len(h.extra) == (1 if mine else 0))
    if mine and len(h.extra) == 1:
        if how == 1:
            P.prove("a group of something unknown is unknown", h.extra[0] is None)
        else:
            same_set(P, "a group stands for the records of its members", h.extra[0], lambda t: found(t))
    P.prove("add_group measures nothing", value_eq(T.obj.t, T.t))


def prove_targets(P, detector):
    import z3
    import measure_tracker as mt
    import stim
    from pyvc import core
    from pyvc.folds import Stream
    from pyvc.interp import StarArg
    from pyvc.values import Fam, SBool, SNum, as_num, value_eq, zb
    eng = P.eng
    P.interp.override(stim.target_rec, Rec)
    T = Tracker(P)
    keys = Stream(lambda: T.key(), kind=tuple, distinct=False)
    how, found = with_lookup(P, T, keys)
    kw, t0 = {}, T.t
    late = None
    if eng.choose(2):
        m = T.key("moment")
        eng.assume(T.length(m) >= 1)
        p = T.length(m) - 1
        # The moment is that of a single recorded measurement.
        eng.assume(SBool(z3.And(z3.Not(T.unk(m.e, p.e)), T.single(m.e, p.e))))
        kw["for_time_after_measurement"] = m
        t0 = SNum(T.elem(m.e, p.e)) + 1
        late = m
    out, coords = Out(), object()
    try:
        if detector:
            P.call(mt.MeasurementTracker.append_detector, T.obj, StarArg(keys), out_circuit=out, coords=coords, **kw)
            made = [o for o in out.ops]
            P.prove("append_detector: at most one instruction", len(made) <= 1)
            r = made[0][1] if made else None
        else:
            r = P.call(mt.MeasurementTracker.get_record_targets, T.obj, StarArg(keys), **kw)
    except core.PyExc:
        P.prove("fails exactly when the lookup does", how == 2)
        return
    P.prove("fails exactly when the lookup does", how != 2)
    if detector:
        P.prove("append_detector: a detector exactly when everything is known", len(out.ops) == (1 if how == 0 else 0))
        if out.ops:
            P.prove("append_detector: the instruction is a detector at the given coordinates", out.ops[0][0] == "DETECTOR" and out.ops[0][2] is coords)
    if how == 1:
        P.prove("nothing known yields nothing", r is None)
        return
    f = r if isinstance(r, Fam) else getattr(r, "fam", None)
    P.prove("the targets are a list", f is not None)
    P.every_element("every target is a looked-up record, relative to the moment", f, lambda o: type(o) is RecT and SBool(found((o.at + t0).e)))

    def every():
        x = SNum(eng.fresh("x", z3.IntSort()))
        eng.assume(SBool(found(x.e)))
        P.prove("every looked-up record is targeted", SBool(f.member(x, lambda o, z: value_eq(o.at + t0, z))))
    eng.sub_explore(every)
    P.no_duplicates("no record is targeted twice", f, lambda o: o.at)
    P.prove("looking up records nothing", not T.map.writes and all(not h.extra for _, h in T.map.seen) and value_eq(T.obj.t, T.t))


class RecT:
    def __init__(self, at):
        self.at = at


def Rec(at):
    from pyvc.values import as_num
    return RecT(as_num(at))


def prove_prev(P):
    import measure_tracker as mt
    from pyvc.values import SAtom, SNum, land, value_eq
    import z3
    k = SAtom(z3.Const("k", z3.DeclareSort("TrackedKey")))
    a, b = SNum(z3.Int("a")), SNum(z3.Int("b"))
    p = P.call(mt.Prev, k, offset=a)
    P.prove("Prev goes back by its offset", land(value_eq(p.v, k), value_eq(p.offset, a)))
    q = P.call(mt.Prev, p, offset=b)
    P.prove("Prev of Prev goes back by both offsets", land(value_eq(q.v, k), value_eq(q.offset, a + b)))
    d = P.call(mt.Prev, k)
    P.prove("Prev goes back by one by default", land(value_eq(d.v, k), d.offset == 1))


def prove_start(P):
    import measure_tracker as mt
    t = P.call(mt.MeasurementTracker)
    P.prove("a new tracker has recorded nothing", t.t == 0 and len(t.history) == 0 and t.history.default_factory is list)


def prove(P):
    P.group("new tracker", lambda: prove_start(P))
    P.group("Prev", lambda: prove_prev(P))
    P.group("add_measurements", lambda: prove_record(P, "add_measurements"))
    P.group("add_dummies", lambda: prove_record(P, "add_dummies"))
    P.group("measurement_time_set", lambda: prove_time_set(P))
    P.group("add_group", lambda: prove_add_group(P))
    P.group("get_record_targets", lambda: prove_targets(P, False))
    P.group("append_detector", lambda: prove_targets(P, True))
    P.eng.callee_contracts = {}
