"""C16: grouping, merging, filtering conserve the shot data; with_changes changes only what is asked."""
import copy
import dataclasses

from contracts.common import require

BUDGET = {"quick": 60, "thorough": 600}
CHUNK = 20
BOUND = "random data sets of up to 12 problems with small field domains; keys: every single field, field pairs, edited descriptors, constants; predicates on every field"
EXPLANATION = ("grouped_by / merged_by / filter: loop step proved from an arbitrary intermediate state for an arbitrary problem, key function and "
               "predicate (fold rule: entry, step, after), then the code after the loop on an arbitrary folded state; with_changes: every subset of changed fields")
ASSUMPTIONS = ["fold principle: a for-loop over a dict meets every entry exactly once, so a property that holds before the loop and is preserved by "
               "one step from any state that has it holds afterwards for all entries", "seconds are added as reals (float rounding not modelled)",
               "sorted() returns the elements in ascending order; keys are compared with =="]


def cases(tier, rng):
    for i in range(600 if tier == "quick" else 8000):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if i % 100 else 300
        rows = []
        for _ in range(n):
            rows.append([rng.choice([2, 4, 6]), rng.choice([6, 12]), rng.choice([2, 3, 4]), rng.choice([24, 60]), rng.choice([1, 9, 10]),
                         rng.choice([0.0, 0.001, 0.01, 0.5]), rng.choice(["a", "b", "honeycomb_SD6"]), rng.choice("HVXZ"),
                         rng.choice(["internal", "pymatching"]),
                         rng.choice([0, 1, 10, 10 ** 6, 2 ** 60 + 1]), None, rng.choice([0.0, 0.5, 3.25])])
            rows[-1][10] = rng.randint(0, rows[-1][9])
        yield {"rows": rows, "key": rng.choice(["data_width", "noise", "rounds", "circuit_style", "pair", "no_noise", "const", "mod", "self", "neg", "len", "none"]),
               "seed": rng.randint(0, 10 ** 9)}


FIELDS = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]
DIFF = {"data_width": 0, "data_height": 18, "code_distance": 0, "num_qubits": 0, "rounds": 0, "noise": 0.0, "circuit_style": "", "preserved_observable": "", "decoder": ""}


def keyfn(name):
    return {"pair": lambda d: (d.circuit_style, d.decoder), "no_noise": lambda d: d.with_changes(noise=0), "const": lambda d: 0,
            "mod": lambda d: (d.data_width + d.rounds) % 2, "self": lambda d: d, "neg": lambda d: -d.noise, "len": lambda d: len(d.circuit_style),
            "none": lambda d: ()}.get(name) or (lambda d: getattr(d, name))


def run_case(c):
    import random
    import collect_data as cd
    rng = random.Random(c["seed"])
    data = {}
    for r in c["rows"]:
        data[cd.DecodingProblemDesc(**dict(zip(FIELDS, r)))] = cd.ShotData(r[9], r[10], r[11])
    src = cd.ProblemShotData(data)
    before = {k: dataclasses.astuple(v) for k, v in data.items()}
    order = list(data)
    key = keyfn(c["key"])
    g = src.grouped_by(key)
    require(isinstance(g, dict), "grouped_by does not return a dict")
    want = {}
    for k in order:
        want.setdefault(key(k), []).append(k)
    require(list(g.keys()) == sorted(want), f"groups {list(g.keys())!r} expected {sorted(want)!r} in that order")
    for kk, ks in want.items():
        require(set(g[kk].data) == set(ks), f"group {kk!r} holds {list(g[kk].data)!r}, expected {ks!r}")
        for k in ks:
            require(dataclasses.astuple(g[kk].data[k]) == before[k], f"group {kk!r} changed the data of {k!r}")

    def unchanged(what):
        require(list(src.data) == order and {k: dataclasses.astuple(v) for k, v in src.data.items()} == before, f"{what} modified its source")
    unchanged("grouped_by")
    m = src.merged_by(key)
    require(list(m.keys()) == sorted(want), f"merged keys {list(m.keys())!r} expected {sorted(want)!r} in that order")
    for kk, ks in want.items():
        s = [sum(before[k][i] for k in ks) for i in range(3)]
        require((m[kk].num_shots, m[kk].num_correct) == (s[0], s[1]) and abs(m[kk].total_processing_seconds - s[2]) < 1e-9,
                f"merged {kk!r}: {m[kk]!r}, expected totals {s!r}")
    unchanged("merged_by")
    again = src.merged_by(key)
    require(again == m, "merging twice gives different totals")
    for kk in m:
        m[kk].num_shots += 1
    unchanged("changing a merge result")
    acc = {k: rng.random() < 0.5 for k in order}
    truthy = rng.choice([1, "yes", True])
    for pred in (lambda k: acc[k], lambda k: truthy if acc[k] else 0):
        f = src.filter(pred)
        require(set(f.data) == {k for k in order if acc[k]}, "filter kept the wrong problems")
        require(all(dataclasses.astuple(f.data[k]) == before[k] for k in f.data), "filter changed data")
        unchanged("filter")
    for d in order[:3]:
        ch = {f: DIFF[f] for f in FIELDS if rng.random() < 0.3}
        e = d.with_changes(**ch)
        for f in FIELDS:
            w = ch.get(f, getattr(d, f))
            require(getattr(e, f) == w and type(getattr(e, f)) is type(w), f"with_changes({ch!r}).{f} = {getattr(e, f)!r}")
        require(d.with_changes() == d and hash(d.with_changes()) == hash(d), "with_changes() without arguments differs")


class Setting:
    """An arbitrary data set: problems are values of an uninterpreted sort, Data says which are in it, their numbers are functions."""
    def __init__(self, P):
        import z3
        import collect_data as cd
        from pyvc.values import SAtom, SBool, SNum
        from pyvc.folds import AMap
        self.P, self.cd, self.eng = P, cd, P.eng
        D, K, B, I, R = z3.DeclareSort("Desc"), z3.DeclareSort("Key"), z3.BoolSort(), z3.IntSort(), z3.RealSort()
        self.D, self.K = D, K
        self.Data, self.Proc = z3.Function("in_data", D, B), z3.Function("processed", D, B)
        self.key_f = z3.Function("key", D, K)
        self.num = {"num_shots": z3.Function("shots", D, I), "num_correct": z3.Function("correct", D, I),
                    "total_processing_seconds": z3.Function("seconds", D, R)}
        self.acc = {"num_shots": z3.Function("shots_so_far", K, I), "num_correct": z3.Function("correct_so_far", K, I),
                    "total_processing_seconds": z3.Function("seconds_so_far", K, R)}
        self.Pres = z3.Function("has_group", K, B)
        self.map = AMap(self.desc, lambda k: SBool(self.Data(k.e)), lambda k: self.shots(self.num, k))
        self.src = cd.ProblemShotData(self.map)

    @property
    def src_objs(self):
        return self.map.seen

    def desc(self):
        from pyvc.values import SAtom
        return SAtom(self.eng.fresh("problem", self.D))

    def group(self):
        from pyvc.values import SAtom
        return SAtom(self.eng.fresh("group", self.K))

    def key(self, d):
        from pyvc.values import SAtom
        return SAtom(self.key_f(d.e))

    def shots(self, fs, k):
        from pyvc.values import SNum
        return self.cd.ShotData(**{n: SNum(f(k.e)) for n, f in fs.items()})

    def same_numbers(self, o, fs, k, plus=None):
        from pyvc.values import SNum, land, value_eq
        return land(*[value_eq(getattr(o, n), SNum(f(k.e)) + (getattr(plus, n) if plus is not None else 0)) for n, f in fs.items()])

    def source_kept(self, what):
        """No entry added, none replaced, none changed."""
        self.P.prove(f"{what}: no entry of the source is written", not self.map.writes)
        for k, o in self.src_objs:
            self.P.prove(f"{what}: the numbers of the source stay", self.same_numbers(o, self.num, k))
        self.P.prove(f"{what}: the source keeps its map", self.src.data is self.map)


def the_map(env, what):
    """The one variable holding an empty map to be filled."""
    from pyvc import core
    from pyvc.interp import MDict
    ms = [k for k, v in env.items() if isinstance(v, MDict)]
    if len(ms) != 1:
        raise core.Unsupported(f"{what}: expected one map to be filled, found {ms}")
    return ms[0]


def ascending(P, f, what):
    """The dict f was built in ascending key order."""
    from pyvc.values import value_eq
    from pyvc import core
    fam = getattr(f, "fam", None)
    src = getattr(fam, "in_order_of", (None,))[0]
    if fam is not None and src is None:
        raise core.Unsupported("order of the groups")
    order = getattr(src, "order", None)
    P.prove(f"{what}: built from the sorted keys", order is not None and not order[1])
    if order is None:
        return

    def run():
        box, (k, v) = fam.pick_with_source()
        x = box[0]
        if order[0] is not None:
            x = P.interp.call(order[0], (x,), {})
        elif isinstance(x, tuple) and x:
            x = x[0]        # entries of a map: no two have the same key, so the keys alone decide
        P.prove(f"{what}: keyed by them", value_eq(x, k))
    P.eng.sub_explore(run)


def prove_grouping(P, merge):
    import z3
    from pyvc.folds import AMap, Fold
    from pyvc.values import SBool, SNum, implies, land, lnot, lor, value_eq
    eng = P.eng
    S = Setting(P)
    cd = S.cd
    name = "merged_by" if merge else "grouped_by"
    w = z3.Function("a_member", S.K, S.D)

    def group_value(g, proc):
        if merge:
            return S.shots(S.acc, g)
        return cd.ProblemShotData(AMap(S.desc, lambda d: SBool(z3.And(proc(d.e), S.key_f(d.e) == g.e)), lambda d: S.shots(S.num, d)))

    def state(env, phase):
        v = the_map(env, name)
        if phase == "names":
            return {v}
        proc = S.Data if phase == "after" else S.Proc

        def present(g):
            # has_group(g) iff a processed problem has that key (w: which one).
            eng.assume_fact(z3.Implies(S.Pres(g.e), z3.And(proc(w(g.e)), S.key_f(w(g.e)) == g.e)))
            if merge:
                eng.assume(z3.Implies(z3.Not(S.Pres(g.e)), z3.And(*[f(g.e) == 0 for f in S.acc.values()])))
            return SBool(S.Pres(g.e))
        m = AMap(S.group, present, lambda g: group_value(g, proc), default_factory=env[v].default_factory)
        S.res = m
        return {v: m}

    def entry(env):
        v = env[the_map(env, name)]
        P.prove(f"{name}: starts without groups", len(v) == 0 and not v.sym and v.fam is None)

    def check(pre, env, x):
        m = env[the_res(env)]
        P.prove(f"{name}: the state is carried on", m is S.res)
        d = S.step_desc
        eng.assume(lnot(SBool(S.Proc(d.e))))            # every problem is met once
        g = S.group()
        mine = bool(value_eq(g, S.key(d)))
        before = SBool(S.Pres(g.e))
        was = bool(before)
        ok, o = m.lookup(g)
        P.prove(f"{name}: after a step exactly the old groups and the problem's own group are there", ok == (was or mine))
        if not ok:
            return
        P.prove(f"{name}: a group does not share its numbers with the source", not any(o is s for _, s in S.src_objs))
        P.prove(f"{name}: groups are objects of their own", not any(o is o2 and not bool(value_eq(g, k2)) for k2, o2 in m.writes + m.seen))
        if merge:
            P.prove(f"{name}: a step adds the problem's numbers to its group and nothing else",
                    S.same_numbers(o, S.acc, g, plus=S.src_of(d) if mine else None) if was else S.same_numbers(o, S.num, d))
        else:
            e = S.desc()
            is_new = bool(value_eq(e, d))
            if type(o.data).__name__ == "AMap":
                ok2, v2 = o.data.lookup(e)
            else:
                v2 = o.data.get(e)
                ok2 = v2 is not None
            want = z3.Or(z3.And(z3.BoolVal(was), S.Proc(e.e), S.key_f(e.e) == g.e), z3.BoolVal(is_new and mine))
            P.prove(f"{name}: a step adds the problem to its group and nothing else", SBool(want == z3.BoolVal(bool(ok2))))
            if ok2:
                P.prove(f"{name}: problems keep their numbers", S.same_numbers(v2, S.num, e))
        S.source_kept(f"{name} (step)")

    def the_res(env):
        return next(k for k, v in env.items() if v is S.res)

    def src_of(d):
        for k, o in S.src_objs:
            if k is d:
                return o
        return S.shots(S.num, d)
    S.src_of = src_of
    fold = Fold(name, state, check, entry)
    S.map.items_stream = fold
    entry_of = S.map._entry

    def one_entry():
        S.map.forget()
        k, v = entry_of()
        S.step_desc = k
        return k, v
    S.map._entry = one_entry

    r = P.call(getattr(cd.ProblemShotData, name), S.src, S.key)
    P.prove(f"{name}: goes through the data once", fold.used)

    # After the loop: everything is processed (Proc = Data).
    ascending(P, r, name)
    g = S.group()
    P.contains_all(f"{name}: every group is in the result", r.fam, group_fam(S), lambda kv, z: value_eq(kv[0], z))

    def one():
        k, o = r.fam.pick()
        P.prove(f"{name}: nothing but the groups", SBool(S.Pres(k.e)))
        if merge:
            P.prove(f"{name}: results are totals", isinstance(o, cd.ShotData) and S.same_numbers(o, S.acc, k))
        else:
            e = S.desc()
            ok, v = o.data.lookup(e)
            P.prove(f"{name}: a group holds exactly the problems with its key", SBool(z3.And(S.Data(e.e), S.key_f(e.e) == k.e) == z3.BoolVal(ok)))
            if ok:
                P.prove(f"{name}: with their numbers", S.same_numbers(v, S.num, e))
    eng.sub_explore(one)
    S.source_kept(name)


def group_fam(S):
    from pyvc.values import Fam, SBool

    def pick():
        g = S.group()
        S.eng.assume(SBool(S.Pres(g.e)))
        return g
    return Fam(pick)


def prove_filter(P):
    import z3
    from pyvc.values import SBool, land, value_eq
    S = Setting(P)
    keep = z3.Function("predicate", S.D, z3.BoolSort())
    r = P.call(S.cd.ProblemShotData.filter, S.src, lambda d: SBool(keep(d.e)))
    P.prove("filter returns shot data", isinstance(r, S.cd.ProblemShotData) and r is not S.src and r.data is not S.map)
    fam = r.data.fam

    def one():
        k, v = fam.pick()
        P.prove("filter: only problems of the data satisfying the predicate", land(SBool(S.Data(k.e)), SBool(keep(k.e))))
        P.prove("filter: with their numbers", S.same_numbers(v, S.num, k))
    P.eng.sub_explore(one)

    def every():
        d = S.desc()
        P.eng.assume(land(SBool(S.Data(d.e)), SBool(keep(d.e))))
        P.prove("filter: every problem satisfying the predicate", SBool(fam.member(d, lambda kv, z: value_eq(kv[0], z))))
    P.eng.sub_explore(every)
    S.source_kept("filter")


def prove_with_changes(P):
    """All 2^9 subsets of changed fields at once: every argument is absent or an arbitrary value other than None."""
    import z3
    import collect_data as cd
    from pyvc.values import SAtom, value_eq
    V = z3.DeclareSort("Value")
    old = {f: SAtom(z3.Const("old_" + f, V)) for f in FIELDS}
    new = {f: SAtom(z3.Const("new_" + f, V)) for f in FIELDS}
    d = cd.DecodingProblemDesc(**old)
    changed = {f for f in FIELDS if P.eng.choose(2)}
    e = P.call(cd.DecodingProblemDesc.with_changes, d, **{f: new[f] for f in changed})
    P.prove("with_changes makes a descriptor", isinstance(e, cd.DecodingProblemDesc))
    for f in FIELDS:
        P.prove("with_changes: named fields change, the others stay", value_eq(getattr(e, f), new[f] if f in changed else old[f]))
        P.prove("with_changes: the original stays", value_eq(getattr(d, f), old[f]))


def prove(P):
    P.group("grouped_by", lambda: prove_grouping(P, False))
    P.group("merged_by", lambda: prove_grouping(P, True))
    P.group("filter", lambda: prove_filter(P))
    P.group("with_changes", lambda: prove_with_changes(P))
