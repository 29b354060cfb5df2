"""C24: plotted curves."""
import math

from contracts.common import require

LEVEL = "proof"
EXPLANATION = ("the loop over families for any number of them, the loop over a family's problems as a step on an arbitrary problem: what is appended to the lists that "
               "reach Axes.plot and Axes.fill_between is the problem's noise, per-cell error rate exactly when it has errors, and per-cell likelihood bounds; grouping, bounds and per-piece rates by contract")
BUDGET = {"quick": 100, "thorough": 600}
CHUNK = 2
BOUND = "random data sets of up to 45 problems in up to 34 families, small field domains, including problems without errors and with error rates above one half"


def cases(tier, rng):
    for i in range(240 if tier == "quick" else 3000):
        yield {"n": rng.choice([0, 1, 2, 5, 9, 20, 45]), "seed": rng.randint(0, 10 ** 9), "fam": rng.choice([1, 2, 3, 34]), "focus": rng.random() < 0.5, "legend": rng.random() < 0.5, "off": rng.choice([0, 0, 2])}


def per_piece(p, m):
    if p > 0.5:
        return 1 - per_piece(1 - p, m)
    return (1 - (1 - 2 * p) ** (1 / m)) / 2


def run_case(c):
    import random
    import collect_data as cd
    import plotting
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng = random.Random(c["seed"])
    fams = []
    for i in range(c["fam"]):
        fams.append(dict(data_width=rng.choice([2, 4, 6]), data_height=rng.choice([6, 12]), code_distance=rng.choice([1, 2, 3, 4, 7]), num_qubits=i, rounds=rng.choice([1, 2, 3, 9, 10, 12, 13, 30]),
                         circuit_style=rng.choice("ab"), preserved_observable=rng.choice("HV"), decoder=rng.choice(["internal", "py"])))
    data = {}
    for _ in range(c["n"]):
        shots = rng.choice([1, 10, 100, 5000])
        corr = rng.choice([shots, rng.randint(0, shots), rng.randint(shots // 2, shots), max(0, shots - 1), 0])
        data[cd.DecodingProblemDesc(**rng.choice(fams), noise=rng.choice([0.0005, 0.001, 0.002, 0.003, 0.004, 0.01, 0.02]))] = cd.ShotData(shots, corr, 1.0)
    src = cd.ProblemShotData(data)
    fig = plt.figure()
    try:
        ax = fig.add_subplot()
        own = rng.random() < 0.2
        if own:
            fig2, ax = plotting.plot_data(src, title="t", focus_on_threshold=c["focus"], legend=c["legend"])
            plt.close(fig2)
        else:
            plotting.plot_data(src, title="t", fig=fig, ax=ax, focus_on_threshold=c["focus"], legend=c["legend"], marker_offset=c["off"])
        groups = {}
        for k, v in data.items():
            groups.setdefault(k.with_changes(noise=0), []).append((k.noise, v))
        keys = sorted(groups)
        lines = ax.get_lines()
        polys = list(ax.collections)
        require(len(lines) == len(keys) and len(polys) == len(keys), f"{len(lines)} curves and {len(polys)} regions for {len(keys)} families")
        got = []
        for ln, po in zip(lines, polys):
            xs, ys = [float(x) for x in ln.get_xdata()], [float(y) for y in ln.get_ydata()]
            verts = set()
            for path in po.get_paths():
                for x, y in path.vertices:
                    verts.add((round(float(x), 12), round(float(y), 11)))
            got.append((xs, ys, verts, ln.get_label()))
        for i, k in enumerate(keys):
            rows = sorted(groups[k], key=lambda r: r[0])
            cells = -(-k.rounds // k.code_distance)
            px, py, pv = [], [], set()
            for noise, s in rows:
                if s.num_correct < s.num_shots:
                    px.append(noise)
                    py.append(per_piece((s.num_shots - s.num_correct) / s.num_shots, cells))
                lo, hi = s.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
                for b in (lo, hi):
                    pv.add((round(noise, 12), round(per_piece(float(b), cells), 11)))
            xs, ys, verts, lab = got[i]
            require(xs == px and all(abs(a - b) < 1e-9 for a, b in zip(ys, py)), f"family {k}: curve {list(zip(xs, ys))[:4]}, expected {list(zip(px, py))[:4]}")

            def near(v, s):
                return any(abs(v[0] - w[0]) < 1e-9 and abs(v[1] - w[1]) < 1e-9 for w in s)
            require(all(near(v, verts) for v in pv) and all(near(v, pv) for v in verts), f"family {k}: region corners {sorted(verts)[:6]}, expected {sorted(pv)[:6]}")
            require(f"{k.rounds} rounds" in lab and f"{k.data_width}x{k.data_height}" in lab, f"family {k}: label {lab!r}")
        require(ax.get_xscale() == "log" and ax.get_yscale() == "log", "not a log-log plot")
    finally:
        plt.close("all")


# ------------------------------------------------------------------ obligations
def prove(P):
    from contracts.arrays import Loops
    setup(P)
    P.group("curves", lambda: curves(P))
    P.interp.loop_rules[:] = []
    P.eng.callee_contracts = {}


def setup(P):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    P.eng.assumptions.add("contracts of grouped_by (C16), likely_error_rate_bounds (C18), total_error_to_per_piece_error (C17); every problem has shots; "
                          "matplotlib draws Axes.plot(xs, ys) and Axes.fill_between(xs, a, b) as documented; at most 1000 families")
    drawing = Figure()

    def figure(*a, **k):
        return drawing
    figure._pyvc_model = True
    P.interp.override(plt.figure, figure)


def real_kinds():
    import matplotlib.axes
    import matplotlib.axis
    import matplotlib.figure
    return matplotlib.axes.Axes, matplotlib.axis.Axis, matplotlib.figure.Figure


class Sink:
    """A part of a drawing on which only settings are changed."""
    SETTINGS = {"set_minor_formatter", "set_major_formatter", "set_ticks", "set_visible", "set_minor_locator", "set_major_locator", "tick_params"}

    def __getattr__(self, name):
        if name not in type(self).SETTINGS:
            if name.startswith("__") or not any(hasattr(c, name) for c in real_kinds()):
                raise AttributeError(name)
            from pyvc.core import Unsupported
            raise Unsupported(f"{name} of a drawing")

        def ignored(*a, **k):
            return None
        ignored._pyvc_model = True
        return ignored


class Figure(Sink):
    SETTINGS = {"tight_layout", "set_size_inches", "set_dpi"}

    def __init__(self):
        self.own = Axes()

    def add_subplot(self, *a, **k):
        return self.own


class Axes(Sink):
    SETTINGS = {"legend", "loglog", "set_xscale", "set_yscale", "set_xlabel", "set_ylabel", "set_xlim", "set_ylim", "set_title", "grid", "set_xticks", "set_yticks",
                "set_xticklabels", "set_yticklabels", "tick_params"}
    STYLE = {"label", "marker", "zorder", "color", "alpha", "linestyle", "linewidth", "markersize", "facecolor", "edgecolor", "hatch"}
    hook = None

    def __init__(self):
        self.xaxis, self.yaxis = Sink(), Sink()

    def plot(self, *a, **k):
        self.drawn("plot", a, k, 2)

    def fill_between(self, *a, **k):
        a = a + tuple(k.pop(n) for n in ("x", "y1", "y2")[len(a):] if n in k)
        self.drawn("fill_between", a, k, 3)

    def drawn(self, kind, a, k, n):
        from pyvc.core import Unsupported
        if len(a) != n or not set(k) <= Axes.STYLE:
            raise Unsupported(f"options of {kind}")
        type(self).hook(self, kind, a)


def curves(P):
    import z3
    import collect_data as cd
    import plotting
    from contracts.arrays import Loops, Ranged
    from contracts.collect import KEYS, SORTS, Text
    from pyvc.core import PyExc, Unsupported, engine
    from pyvc.folds import AMap, Fold, frame_kept, frame_of
    from pyvc.interp import MList, _Break, _Continue, _Return, _read_before_write, assigned_names
    from pyvc.values import SBool, Fam, SNum, SSeq, Sym, U, as_num, is_sym, ite, land, lor, value_eq, zb
    eng = P.eng
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    FIELD = {k: z3.Function(f"family_{k}", I, U if so == U else so) for k, so in zip(KEYS, SORTS)}
    HAS = z3.Function("has_noise", I, R, B)
    N, RIGHT = z3.Function("shots", I, R, I), z3.Function("correct", I, R, I)
    LOW, HIGH = z3.Function("low", I, I, R), z3.Function("high", I, I, R)
    PP = z3.Function("per_piece", R, I, R)
    eng.callee_contracts = {}

    def real(x):
        return z3.simplify(as_num(x).real_term())

    def desc(i, noise):
        def field(k, so):
            if k == "noise":
                return noise
            t = FIELD[k](as_num(i).e)
            if so == U:
                return Text(t)
            if so == I:
                eng.assume_fact(t >= 1)
            return SNum(t)
        return cd.DecodingProblemDesc(**{k: field(k, so) for k, so in zip(KEYS, SORTS)})

    def shots(i, noise):
        n, c = SNum(N(as_num(i).e, real(noise))), SNum(RIGHT(as_num(i).e, real(noise)))
        eng.assume_fact(zb(land(n >= 1, c >= 0, c <= n)))
        return cd.ShotData(n, c, 1.0)

    def a_noise(i):
        x = SNum(eng.fresh("noise", R))
        eng.assume(HAS(as_num(i).e, x.e))
        return x

    def noise_of(x):
        """The noise of the problem an element stands for."""
        if isinstance(x, tuple) and x:
            x = x[0]
        x = x.noise if isinstance(x, cd.DecodingProblemDesc) else x
        if isinstance(x, SNum):
            return x
        raise Unsupported("element of a curve's loop")

    class Problems(AMap):
        def __init__(self, i):
            def own(k):
                if not isinstance(k, cd.DecodingProblemDesc):
                    raise Unsupported("key of the data")
                return land(SBool(HAS(as_num(i).e, real(k.noise))), value_eq(k, desc(i, k.noise)))
            super().__init__(lambda: desc(i, a_noise(i)), own, lambda k: shots(i, k.noise))
            self.family = i

    def grouped_by(self, key):
        if self is not data:
            raise Unsupported("data that was grouped")

        def run():
            i, j = SNum(eng.fresh("i", I)), SNum(eng.fresh("j", I))
            a, b = desc(i, a_noise(i)), desc(j, a_noise(j))
            rest = land(*[value_eq(getattr(a, k), getattr(b, k)) for k in KEYS if k != "noise"])
            together = value_eq(P.interp.call(key, (a,), {}), P.interp.call(key, (b,), {}))
            P.prove("problems are grouped exactly when they differ only in noise", SBool(zb(together) == zb(rest)))
        eng.sub_explore(run)
        total = P.int("families", 0, 1000)
        g = Groups()
        g.items = lambda: families(lambda i: (P.interp.call(key, (desc(i, a_noise(i)),), {}), cd.ProblemShotData(Problems(i))))
        g.items._pyvc_model = True

        def families(f):
            return SSeq(total, f, list)
        st["total"] = total
        return g

    class Groups(Sym):
        py_type = dict

        def __hash__(self):
            return id(self)

    class Acc(Sym):
        """A list that a loop over problems adds to."""
        py_type = list

        def __init__(self):
            self.token, self.loop = object(), None

        new = property(lambda self: eng.local.get(self.token, ()))

        def append(self, v):
            if self.loop is None:
                eng.local[self.token] = self.new + (v,)
            else:
                eng.local[self.token] = None        # no longer what the loop made of it

        def __bool__(self):
            raise Unsupported("truth value of a list of points")

        def __hash__(self):
            return id(self)

    class Curve:
        """A loop over problems in ascending order of noise that appends to lists: what it appended is looked at where the lists are drawn."""
        def matches(self, interp, node, scope):
            import ast
            return isinstance(node, ast.For)

        def run_for(self, interp, node, scope, src):
            import ast
            if not (isinstance(src, Fam) and src.order is not None):
                Loops(outer).run_for(interp, node, scope, src)
                return
            if node.orelse or outer.index is None:
                raise Unsupported("loop over problems")
            family = outer.index
            key, reverse = src.order
            if reverse:
                raise Unsupported("descending noise")

            def ascending():
                x = src.pick()
                k = noise_of(x)
                by = x if key is None else P.interp.call(key, (x,), {})
                P.prove("points are in ascending order of noise", value_eq(noise_of(by), k))
            eng.sub_explore(ascending)
            mapped = Fam(lambda: noise_of(src.pick()), list)
            P.contains_all("every problem of the family is gone through", mapped, Fam(lambda: a_noise(family), list))
            if not src.distinct:
                raise Unsupported("repeated elements")
            chain, s = [], scope
            while s is not None:
                chain.append((s, dict(s.vars)))
                s = s.parent
            fold = Fold("points", None, None)
            env0 = fold.visible(scope)
            target = assigned_names([ast.Assign(targets=[node.target], value=None)])
            lists = {id(v): Acc() for v in env0.values() if type(v) is MList and not len(v) and v.fam is None}
            accs = {k: lists[id(v)] for k, v in env0.items() if id(v) in lists and type(v) is MList}
            written = assigned_names(node.body)
            for n in {n for n in written if n in env0 and n not in target}:
                if n in accs or n not in scope.vars or _read_before_write(n, node.body):
                    raise Unsupported(f"loop-carried variable {n} of the points")
            frozen = frame_of(env0, set(accs))

            def swap(to):
                now = [(sc, dict(sc.vars)) for sc, _ in to]
                for sc, vs in to:
                    sc.vars = dict(vs)
                return now

            def iteration(check):
                def run():
                    drawn = eng.local.get("drawn", ())
                    now = swap(chain)
                    try:
                        for a in lists.values():
                            a.loop = None
                            eng.local.pop(a.token, None)
                        fold.put(scope, accs)
                        x = src.pick()
                        interp.assign(node.target, x, scope)
                        try:
                            interp.exec_block(node.body, scope)
                        except _Continue:
                            pass
                        except (_Return, _Break):
                            raise Unsupported("return or break in a loop over problems")
                        except PyExc as pe:
                            if eng.feasible():
                                P.prove(f"points: no {type(pe.exc).__name__} is raised", False)
                            return
                        for what, ok, own in frame_kept(frozen):
                            if not ok:
                                raise Unsupported(f"{what} changes along the points")
                        if eng.local.get("drawn", ()) != drawn:
                            raise Unsupported("drawing point by point")
                        env = fold.visible(scope)
                        if any(env[k] is not a for k, a in accs.items()):
                            raise Unsupported("lists of points are replaced")
                        if check is not None:
                            check(noise_of(x))
                    finally:
                        swap(now)
                        for a in lists.values():
                            a.loop = iteration
                eng.sub_explore(run)
            iteration.family = family
            iteration(None)
            fold.put(scope, accs)

    def result(p, n):
        return z3.simplify(as_num(p).real_term()), as_num(n)

    def per_piece(error_rate, pieces):
        e, k = as_num(error_rate), as_num(pieces)
        eng.prove("callee precondition: a rate and at least one piece", land(e >= 0, e <= 1, k >= 1))
        kt = k.e if k.is_int_sort and k.den == 1 else z3.ToInt(k.real_term())
        return SNum(PP(real(e), z3.simplify(kt)))

    def bounds(self, *, desired_ratio_vs_max_likelihood):
        P.prove("the region is that of likelihoods above a thousandth of the maximum", as_num(desired_ratio_vs_max_likelihood) == as_num(1e-3))
        n, c = as_num(self.num_shots), as_num(self.num_correct)
        P.prove("callee precondition: shots were taken", land(n >= 1, c >= 0, c <= n))
        lo, hi = SNum(LOW(z3.simplify(n.e), z3.simplify(c.e))), SNum(HIGH(z3.simplify(n.e), z3.simplify(c.e)))
        eng.assume(land(lo >= 0, lo <= hi, hi <= 1))
        return lo, hi

    def hook(ax, kind, args):
        if outer.index is None:
            raise Unsupported("drawing outside of the loop over families")
        P.prove("curves and regions are drawn on the given axes", ax is st["ax"])
        i = outer.index
        if not all(isinstance(a, Acc) and a.loop is not None and a.new == () for a in args):
            raise Unsupported("points made in another way")
        if len({id(a.loop) for a in args}) != 1:
            raise Unsupported("points of several loops")
        loop = args[0].loop
        rounds, distance = SNum(FIELD["rounds"](i.e)), SNum(FIELD["code_distance"](i.e))
        cells = (rounds + distance - 1) // distance

        def is_piece(v, rate):
            """v is the per-cell rate of the total rate."""
            return value_eq(as_num(v), SNum(PP(real(rate), z3.simplify(as_num(cells).e))))

        def check(noise):
            s = shots(i, noise)
            n, c = s.num_shots, s.num_correct
            P.prove("the problem is one of the family", SBool(HAS(i.e, real(noise))))
            lens = sorted({len(a.new) for a in args})
            if kind == "plot":
                wrong = bool(c < n)
                P.prove("a problem is a point of the curve exactly when it has errors", lens == ([1] if wrong else [0]))
                if lens == [1] and wrong:
                    xs, ys = (a.new[0] for a in args)
                    P.prove("the point is at the noise", as_num(xs) == noise)
                    P.prove("the point is the per-cell error rate", is_piece(ys, (n - c) / n))
            else:
                P.prove("every problem is in the region", lens == [1])
                if lens == [1]:
                    xs, a, b = (a.new[0] for a in args)
                    lo, hi = SNum(LOW(n.e, c.e)), SNum(HIGH(n.e, c.e))
                    P.prove("the region is at the noise", as_num(xs) == noise)
                    P.prove("the region covers the per-cell likelihood bounds",
                            lor(land(is_piece(a, lo), is_piece(b, hi)), land(is_piece(a, hi), is_piece(b, lo))))
        loop(check)
        eng.local["drawn"] = eng.local.get("drawn", ()) + (kind,)

    class Families(Ranged):
        def run_for(self, interp, node, scope, src):
            import ast
            self.node, self.entry = node, {}
            env = self.visible(scope)
            for n in assigned_names(node.body):
                v = env.get(n)
                if (isinstance(v, SNum) or type(v) is int) and _read_before_write(n, node.body):
                    self.entry[n] = as_num(v)
            super().run_for(interp, node, scope, src)

    def of(src, scope):
        return same(src.n, st["total"])

    def same(a, b):
        return eng.implied(zb(as_num(a) == as_num(b)))

    def state(env, i):
        if i is None:
            return list(outer.entry)
        eng.local["drawn"] = ()
        return {n: v + i for n, v in outer.entry.items()}

    def check(env, i):
        for n, v in outer.entry.items():
            if not same(env[n], v + i):
                raise Unsupported(f"{n} does not count families")
        if outer.index is not None:
            P.prove("one curve and one region per family", sorted(eng.local.get("drawn", ())) == ["fill_between", "plot"])
        else:
            P.prove("nothing else is drawn", eng.local.get("drawn", ()) == ())

    outer = Families("families", of, None, state, check)
    outer.index = None
    st = {}
    Axes.hook = hook
    P.interp.loop_rules[:] = [Curve()]
    eng.callee_contracts = {"collect_data.ProblemShotData.grouped_by": grouped_by, "plotting.total_error_to_per_piece_error": per_piece,
                            "collect_data.ShotData.likely_error_rate_bounds": bounds}
    data = cd.ProblemShotData(Problems(None))
    given = eng.choose(2)
    kw = {}
    if given:
        fig, ax = Figure(), Axes()
        kw = dict(fig=fig, ax=ax)
        st["ax"] = ax
    else:
        import matplotlib.pyplot as plt
        fig = P.interp.call(plt.figure, (), {})
        st["ax"] = fig.own
        kw = dict(show=False)
    offset = P.int("offset", 0)
    total = z3.Int("families")
    if eng.choose(2):
        kw.update(focus_on_threshold=False)
    if eng.choose(2):
        kw.update(legend=False)
    eng.assume(total + offset.e <= 1000)
    r = P.call(plotting.plot_data, data, title="t", marker_offset=offset, **kw)
    if not outer.used:
        raise Unsupported("the plot does not go through the families")
    P.prove("nothing else is drawn", eng.local.get("drawn", ()) == ())
    P.prove("the drawing is returned", isinstance(r, tuple) and len(r) == 2 and r[0] is fig and r[1] is st["ax"])
