"""Obligations of circuit_diagrams.diagram_3d and diagram_2d (C26): where layers, marks and connections are drawn.

An arbitrary number of layers on the same positions (integers, not all in one row or column), with arbitrary labels; pairs of
positions in a row or a column. Layer z has position (x, y) at row (x + 1) (n + 2) + z and column (y + 2) (n + 3) + z.
"""
import z3

from contracts.diagram import JList, JMap, JSet, Journal, Rep, reals
from pyvc.core import Unsupported, engine
from pyvc.folds import AMap, Fold, Stream
from pyvc.interp import MDict, MList, _Continue
from pyvc.values import Fam, SBool, SComplex, SNum, SSeq, Sym, as_num, implies, ite, land, lnot, lor, smax, smin, to_complex, value_eq, zb


def arbitrary(name, *at):
    """A property that may or may not hold for what is at some place."""
    I = z3.IntSort()
    return SBool(z3.Function(name, *[I] * len(at), z3.BoolSort())(*[as_num(a).e for a in at]))


class Label(Sym):
    """The label of a position in a layer."""
    py_type = str

    def __init__(self, z, x, y):
        self.at = (as_num(z), as_num(x), as_num(y))

    def __eq__(self, o):
        if isinstance(o, str):
            return arbitrary(f"label_is_{o}", *self.at)
        return land(*[value_eq(a, b) for a, b in zip(self.at, o.at)]) if isinstance(o, Label) else False

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True


class Marks(JMap):
    """What is drawn where, in an arbitrary state: some character at every key."""
    def __init__(self, name, held):
        super().__init__(name, "positions")
        self.what = held

    def held(self, k):
        return self.what(k)

    def any_key(self):
        return SComplex(SNum(engine().fresh("column", z3.RealSort())), SNum(engine().fresh("row", z3.RealSort())))

    def get(self, k, d=None):
        ok, v = self.lookup(k)
        return v if ok else d

    def _entry(self):
        k, v = super()._entry()
        if engine().local.get("final") is self:
            engine().local["entry"] = k
        return k, v


class Lines(JList):
    """Connections drawn so far: arbitrary vertical or horizontal ones."""
    def __init__(self, owner):
        super().__init__("connections")
        self.owner = owner

    def sym_source(self):
        if self.log():
            raise Unsupported("traversal of connections")
        f = Fam(self.pick, kind=list)
        f.lines = True
        return f

    def pick(self):
        eng = engine()
        I = z3.IntSort()
        c = SComplex(SNum(eng.fresh("column", I)), SNum(eng.fresh("row", I)))
        d = SNum(eng.fresh("end", I))
        if eng.choose(2):
            other = SComplex(c.real, d)
            eng.assume(lnot(value_eq(d, c.imag)))
        else:
            other = SComplex(d, c.imag)
            eng.assume(lnot(value_eq(d, c.real)))
        eng.local["line"] = (c, other)
        return (c, other)


class Board:
    def __init__(self, P):
        self.P, self.eng = P, P.eng
        eng = P.eng
        I, B = z3.IntSort(), z3.BoolSort()
        self.n = P.int("layers", 1)
        self.on = z3.Function("on_board", I, I, B)
        self.lo = (P.int("first_row"), P.int("first_column"))
        self.hi = (P.int("last_row"), P.int("last_column"))
        eng.assume(land(self.lo[0] < self.hi[0], self.lo[1] < self.hi[1]))
        self.asked = []

    def place(self, name):
        """An arbitrary position."""
        eng = self.eng
        x, y = SNum(eng.fresh(name + "_x", z3.IntSort())), SNum(eng.fresh(name + "_y", z3.IntSort()))
        eng.assume(SBool(self.on(x.e, y.e)))
        eng.assume(land(x >= self.lo[0], x <= self.hi[0], y >= self.lo[1], y <= self.hi[1]))
        eng.assume(y % 2 == 0)
        p = eng.local["place"] = SComplex(x, y)
        return p

    def cell(self, x, y, z):
        n = self.n
        return (y + 2) * (n + 3) + z, (x + 1) * (n + 2) + z       # column, row

    def layer_index(self, name="layer"):
        z = SNum(self.eng.fresh(name, z3.IntSort()))
        self.eng.assume(land(z >= 0, z < self.n))
        return z


class Layer(Sym):
    py_type = dict

    def __init__(self, board, z):
        self.board, self.z = board, as_num(z)

    def entry(self):
        p = self.board.place("position")
        return p, Label(self.z, p.real, p.imag)

    def items(self):
        return Fam(self.entry, kind=list, distinct=True)

    def keys(self):
        return Fam(lambda: self.entry()[0], kind=set, distinct=True)

    sym_source = keys

    def values(self):
        return Fam(lambda: self.entry()[1], kind=list, distinct=True)

    def __hash__(self):
        return id(self)


class Pairs(Sym):
    """The pairs of a layer: an arbitrary pair in a row or a column."""
    py_type = list

    def __init__(self, board, z):
        self.board, self.z = board, as_num(z)

    def pick(self):
        b, eng = self.board, self.board.eng
        p, q = b.place("from"), b.place("to")
        if eng.choose(2):
            eng.assume(land(value_eq(p.real, q.real), lnot(value_eq(p.imag, q.imag))))
        else:
            eng.assume(land(value_eq(p.imag, q.imag), lnot(value_eq(p.real, q.real))))
        eng.local["pair"] = (p, q)
        return (p, q)

    def sym_source(self):
        return Fam(self.pick, kind=list)

    def __hash__(self):
        return id(self)


class Drawing:
    def __init__(self, P):
        import math
        self.P, self.eng = P, P.eng
        self.b = b = Board(P)
        self.values = SSeq(b.n, lambda z: Layer(b, z), list)
        self.pairs = SSeq(b.n, lambda z: Pairs(b, z), list)
        self.edges()

    def edges(self):
        """min and max over the positions of all layers are the edges of the board."""
        me, b, eng, interp = self, self.b, self.eng, self.P.interp

        def of(real, which):
            plain = interp.overrides.get(id(real))

            def f(*a, **k):
                if len(a) == 1 and not k and not isinstance(a[0], (list, tuple)):
                    from pyvc.interp import _as_source
                    src = _as_source(a[0])
                    kinds = set()

                    def look():
                        e = as_num(src.pick())
                        p = eng.local.get("place")
                        kinds.add(0 if p is not None and eng.implied(zb(value_eq(e, p.real))) else 1 if p is not None and eng.implied(zb(value_eq(e, p.imag))) else None)
                    eng.sub_explore(look)
                    if len(kinds) == 1 and None not in kinds:
                        return (b.lo if which == "min" else b.hi)[kinds.pop()]
                    raise Unsupported("min or max of something else than a coordinate")
                return plain[1](*a, **k) if plain is not None else real(*a, **k)
            interp.override(real, f)
        of(min, "min")
        of(max, "max")

    # ---- loops
    def special(self, interp, node, scope, src):
        eng = self.eng
        if getattr(src, "lines", False):
            self.strokes.run_for(interp, node, scope, self.Each(src, "line"))
            return True
        if isinstance(src, SSeq) and eng.local.get("phase") is None:
            i = SNum(eng.fresh("i", z3.IntSort()))
            flat = []

            def walk(v):
                for x in v if isinstance(v, tuple) else (v,):
                    walk(x) if isinstance(x, tuple) else flat.append(x)
            walk(src.at(i))
            if any(isinstance(x, Pairs) for x in flat):
                if not self.same(src.n, self.b.n) or any(isinstance(x, (Pairs, Layer)) and not self.same(x.z, i) for x in flat):
                    raise Unsupported("the layers are not gone through in order")
                self.layers.run_for(interp, node, scope, self.Each(src, "pair"))
                return True
        return False

    def same(self, a, b):
        return self.eng.implied(zb(value_eq(as_num(a), as_num(b))))

    class Each:
        def __init__(self, src, what):
            self.src, self.what = src, what

        def pick(self):
            eng = engine()
            eng.local["phase"] = self.what
            for k in ("done", "depth", "passes", "pair", "line"):
                eng.local.pop(k, None)
            if isinstance(self.src, SSeq):
                z = eng.local["z"] = SNum(eng.fresh("layer", z3.IntSort()))
                eng.assume(land(z >= 0, z < self.src.n))
                return self.src.at(z)
            return self.src.pick()

    def before_pass(self, node, src):
        if self.eng.local.get("done") or self.eng.local.get("phase") is None:
            raise Unsupported("a further loop")
        for v in self.eng.local.get("state", ()):
            if v.touched():
                raise Unsupported("the state is looked at before the loop")

    # ---- marks and connections of a layer
    def roles(self, env):
        maps = [k for k, v in env.items() if isinstance(v, MDict) and v.fam is not None]
        lists = [k for k, v in env.items() if isinstance(v, MList) and v.fam is None and not len(v)]
        if len(maps) != 1 or len(lists) != 1:
            raise Unsupported(f"the state of the drawing is not the drawn labels and the connections: {maps} {lists}")
        return maps[0], lists[0]

    def layer_state(self, env, phase):
        if phase == "names":
            self.drawn, self.joined = self.roles(env)
            return {self.drawn, self.joined}
        from contracts.diagram import Earlier
        m, l = Marks("marks", lambda k: Earlier()), Lines(self)
        self.eng.local["state"] = (m, l)
        if phase == "after":
            self.eng.local["phase"] = "drawn"
            self.eng.local["final"] = m
        return {self.drawn: m, self.joined: l}

    def layer_entry(self, env):
        P, b, eng = self.P, self.b, self.eng
        m, l = self.roles(env)
        fam = env[m].items() if not isinstance(env[m].fam, Fam) else env[m].fam

        def good(e):
            k, v = e
            if not isinstance(v, Label):
                return False
            z, x, y = v.at
            k = to_complex(k)
            c, r = b.cell(x, y, z)
            return land(value_eq(k.real, c), value_eq(k.imag, r))
        P.every_element("a label is put at the cell of its position and layer", fam, good)

        def spec():
            z = b.layer_index()
            p = b.place("position")
            c, r = b.cell(p.real, p.imag, z)
            return (SComplex(c, r), Label(z, p.real, p.imag))
        P.contains_all("every label of every layer is put down", fam, Fam(spec))

    def layer_check(self, pre, env, x):
        P, b, eng = self.P, self.b, self.eng
        z = eng.local["z"]
        pair = eng.local.get("pair")
        done = eng.local.get("done", ())
        if pair is None or len(done) != 1:
            raise Unsupported("how the pairs of a layer are gone through")
        m, l = eng.local["state"]
        P.prove("the state goes on", env[self.drawn] is m and env[self.joined] is l)
        p, q = pair
        marks, lines = m.log(), [x[0] for x in l.log()]
        lo, hi = b.lo, b.hi
        wrapped = [lor(land(value_eq(s, lo[k]), value_eq(t, hi[k])), land(value_eq(t, lo[k]), value_eq(s, hi[k]))) for k, (s, t) in enumerate([(p.real, q.real), (p.imag, q.imag)])]
        cells = [SComplex(*b.cell(v.real, v.imag, z)) for v in (p, q)]
        ok = all(isinstance(v, tuple) and len(v) == 2 for v in lines)
        P.prove("connections are drawn between two cells", ok)
        if not ok:
            return
        which = 0 if bool(wrapped[0]) else 1 if bool(wrapped[1]) else None
        if which is None:
            P.prove("a pair is joined by one line", len(lines) == 1 and not marks)
            if len(lines) == 1:
                s, t = map(to_complex, lines[0])
                P.prove("the line goes from one qubit to the other", lor(land(s == cells[0], t == cells[1]), land(s == cells[1], t == cells[0])))
            return
        P.prove("a pair around the edge is drawn as two ends", len(lines) == 2 and len(marks) == 2 and all(k[1] == "~" for k in marks))
        if not (len(lines) == 2 and len(marks) == 2):
            return
        # (row, column) of the position: first coordinate = rows
        first = value_eq(p.real if which == 0 else p.imag, lo[which])
        low = [ite(zb(first), cells[0].real, cells[1].real), ite(zb(first), cells[0].imag, cells[1].imag)]
        high = [ite(zb(first), cells[1].real, cells[0].real), ite(zb(first), cells[1].imag, cells[0].imag)]
        ends = []
        for s, t in (map(to_complex, v) for v in lines):
            ends.append((s, t))

        def leaves(s, t, at, sign):
            along, across = (lambda c: c.imag, lambda c: c.real) if which == 0 else (lambda c: c.real, lambda c: c.imag)
            here = SComplex(*at)
            step = along(t) - along(s)
            return land(s == here, value_eq(across(t), across(here)), step < 0 if sign < 0 else step > 0)

        def turned(st):
            return (st[1], st[0])
        opts = []
        for u, v in ((0, 1), (1, 0)):
            for f in (lambda w: w, turned):
                for g in (lambda w: w, turned):
                    (s1, t1), (s2, t2) = f(ends[u]), g(ends[v])
                    k = [to_complex(w[0]) for w in marks]
                    opts.append(land(leaves(s1, t1, low, -1), leaves(s2, t2, high, 1), lor(land(k[0] == t1, k[1] == t2), land(k[0] == t2, k[1] == t1))))
        P.prove("one end leaves each edge of the board, with its mark", lor(*opts))

        def clash():
            z2 = b.layer_index("other_layer")
            o = b.place("other")
            c = SComplex(*b.cell(o.real, o.imag, z2))
            for w in marks:
                P.prove("a mark never covers a label", lnot(to_complex(w[0]) == c))
        eng.sub_explore(clash)

    # ---- lines
    def stroke_state(self, env, phase):
        if phase == "names":
            maps = [k for k, v in env.items() if isinstance(v, MDict) and v.fam is None and not len(v)]
            if len(maps) != 1:
                raise Unsupported(f"what the lines are drawn into: {maps}")
            self.paper = maps[0]
            return {self.paper}
        m = Marks("drawing", lambda k: "|-+="[engine().choose(4)])
        self.eng.local["state"] = (m,)
        if phase == "after":
            self.eng.local["phase"] = "lines"
            for k in ("done", "depth", "passes"):
                self.eng.local.pop(k, None)
            self.eng.local["paper"] = m
        return {self.paper: m}

    def stroke_check(self, pre, env, x):
        P, eng = self.P, self.eng
        p, q = eng.local["line"]
        (m,) = eng.local["state"]
        P.prove("the drawing goes on", env[self.paper] is m)
        done = eng.local.get("done", ())
        if len(done) != 1 or not isinstance(done[0][1], SSeq) or done[0][2] is None:
            P.prove("a line has cells", False) if not done else None
            if done and done[0][2] is None:
                P.prove("a line has cells", False)
                return
            raise Unsupported("how a line is drawn")
        _, src, i, k = done[0]
        vertical = bool(value_eq(p.real, q.real))
        s, t = (p.imag, q.imag) if vertical else (p.real, q.real)
        P.prove("a line has a cell for every step from one end to the other", value_eq(as_num(src.n), smax(s, t) - smin(s, t) + 1))
        log = m.log()
        at = smin(s, t) + i
        want = SComplex(p.real, at) if vertical else SComplex(at, p.imag)
        P.prove("a line is drawn along its cells", len(log) == 1 and to_complex(log[0][0]) == want)
        if len(log) == 1:
            old = [v for kk, v in m.seen]
            old = old[0] if old else None
            new = log[0][1]
            mine, across = ("|", "-") if vertical else ("-", "|")
            if old in (across, "+"):
                P.prove("lines cross in a plus", new == "+")
            elif old is None:
                P.prove("a line on an empty cell", new == mine or bool(m.base_has(want)) is False and new == mine)
            else:
                P.prove("a line on a line", new in (mine, "=", "+"))

    # ---- the whole function
    def run(self):
        import circuit_diagrams as cd
        P, eng = self.P, self.eng

        def raised(pe, pre, x):
            P.prove(f"no {type(pe.exc).__name__} is raised", not eng.feasible(), detail=repr(pe.exc))
        self.layers = Fold("layers", self.layer_state, self.layer_check, self.layer_entry, on_raise=raised)
        self.strokes = Fold("lines", self.stroke_state, self.stroke_check, on_raise=raised)
        P.interp.loop_rules = [Rep(self)]

        def text(v):
            eng.local["text"] = v
            return "THE TEXT"
        eng.callee_contracts = {"circuit_diagrams.diagram_2d": text}
        got = P.call(cd.diagram_3d, self.values, self.pairs)
        P.prove("the drawing is returned", got == "THE TEXT")
        P.prove("layers and lines are drawn", self.layers.used and self.strokes.used)
        m, v = eng.local.get("paper"), eng.local.get("text")
        if v is not m or m is None:
            raise Unsupported("what is drawn")
        done = eng.local.get("done", ())
        if len(done) != 1 or not isinstance(done[0][3], tuple) or len(done[0][3]) != 2 or eng.local.get("entry") is not done[0][3][0]:
            raise Unsupported("how labels get into the drawing")
        k, c = done[0][3]
        log = m.log()
        P.prove("labels and marks are drawn over the lines", len(log) == 1 and land(to_complex(log[0][0]) == to_complex(k), log[0][1] is c))


# ------------------------------------------------------------------ from cells to text
class Chr(Sym):
    """The character at a cell."""
    py_type = str

    def __init__(self, col, row):
        self.col, self.row = as_num(col), as_num(row)

    def sym_len(self):
        return 1

    def __eq__(self, o):
        if isinstance(o, Chr):
            raise Unsupported("comparison of characters")
        return arbitrary(f"char_is_{o}", self.col, self.row) if isinstance(o, str) else False

    def __ne__(self, o):
        return lnot(self == o)

    def __radd__(self, o):
        return Text(None, (o, self)) if isinstance(o, str) else NotImplemented

    def __hash__(self):
        return id(self)


class Text(Sym):
    """A text: what it was before (rows up to one, or cells of a row up to one), and what is added."""
    py_type = str

    def __init__(self, base, parts=()):
        self.base, self.parts = base, tuple(parts)

    def __add__(self, o):
        if isinstance(o, Text) and o.base is None:
            return Text(self.base, self.parts + o.parts)
        if not isinstance(o, (str, Text, Chr)):
            return NotImplemented
        return Text(self.base, self.parts + (o,))

    def __radd__(self, o):
        return Text(None, (o, self)) if isinstance(o, str) else NotImplemented

    def rstrip(self, *a):
        if a and a != ("\n",) and a != (" ",):
            raise Unsupported("stripping of other characters")
        return Text(self, ("stripped",))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth value of a text")


class Canvas(Sym):
    """Single characters at cells of the first quadrant."""
    py_type = dict

    def __init__(self, P):
        self.P, self.eng = P, P.eng
        self.f = z3.Function("drawn_at", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.far = (P.int("farthest_column", 0), P.int("farthest_row", 0))

    def key(self):
        eng = self.eng
        c, r = SNum(eng.fresh("column", z3.IntSort())), SNum(eng.fresh("row", z3.IntSort()))
        eng.assume(land(SBool(self.f(c.e, r.e)), c >= 0, r >= 0, c <= self.far[0], r <= self.far[1]))
        p = eng.local["place"] = SComplex(c, r)
        return p

    def keys(self):
        return Fam(self.key, kind=set, distinct=True)

    sym_source = keys

    def has(self, c, r):
        return SBool(self.f(as_num(c).e, as_num(r).e))

    def get(self, k, d=None):
        k = to_complex(k)
        if bool(self.has(k.real, k.imag)):
            return Chr(k.real, k.imag)
        return d

    def contains_expr(self, k):
        k = to_complex(k)
        return self.has(k.real, k.imag)

    def __getitem__(self, k):
        k = to_complex(k)
        if not bool(self.has(k.real, k.imag)):
            from pyvc.core import PyExc
            raise PyExc(KeyError("no such cell"))
        return Chr(k.real, k.imag)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic dict")


class Typed:
    def __init__(self, P):
        from contracts.arrays import Ranged
        self.P, self.eng = P, P.eng
        self.canvas = Canvas(P)
        me = self

        class Loop(Ranged):
            def __init__(self, name, inner):
                super().__init__(name, lambda src, scope: True, None, self.state_of, self.judge)
                self.inner, self.var = inner, None

            def run_for(self, interp, node, scope, src):
                from pyvc.interp import assigned_names
                i = SNum(me.eng.fresh("i", z3.IntSort()))
                if not isinstance(src, SSeq) or not me.same(src.at(i), i):
                    raise Unsupported("a loop that is not over rows or columns in order")
                env = self.visible(scope)
                names = [k for k in assigned_names(node.body) if isinstance(env.get(k), str) and env[k] == ""]
                if len(names) != 1:
                    raise Unsupported(f"what the text is put into: {names}")
                self.var = names[0]
                me.eng.local[("size", self.inner)] = src.n
                super().run_for(interp, node, scope, src)
                me.eng.local[("size", self.inner)] = src.n

            def base(self, i):
                return ("cells", me.eng.local.get("row"), as_num(i)) if self.inner else ("rows", as_num(i))

            def state_of(self, env, i):
                if i is None:
                    return {self.var}
                if not self.inner:
                    me.eng.local["row"] = as_num(i)
                return {self.var: Text(self.base(i))}

            def judge(self, env, i):
                v = env[self.var]
                P = me.P
                if isinstance(v, str):
                    P.prove(f"{self.name}: it starts empty", v == "" and value_eq(as_num(i), 0))
                    return
                if not isinstance(v, Text) or v.base is None or v.base[0] != ("cells" if self.inner else "rows"):
                    raise Unsupported("how the text is put together")
                parts = v.parts
                before = as_num(i) - 1
                P.prove(f"{self.name}: one piece is added to what there was", value_eq(as_num(v.base[-1]), before))
                if self.inner:
                    ok = len(parts) == 1
                    x, y = before, me.eng.local["row"]
                    has = me.canvas.has(x, y)
                    c = parts[0] if ok else None
                    P.prove("a row has the character of every cell, blank without one", ok and (land(has, value_eq(c.col, x), value_eq(c.row, y)) if isinstance(c, Chr) else isinstance(c, str) and c == " " and lnot(has)))
                    return
                flat = []

                def walk(p):
                    if isinstance(p, Text):
                        if p.base is None:
                            pass
                        elif isinstance(p.base, Text):
                            walk(p.base)
                        else:
                            flat.append(p.base)
                        for q in p.parts:
                            walk(q)
                    elif p != "stripped":
                        flat.append(p)
                for p in parts:
                    walk(p)
                ok = len(flat) == 2 and isinstance(flat[0], tuple) and flat[0][0] == "cells" and flat[1] == "\n"
                P.prove("a line of text per row", ok)
                if ok:
                    P.prove("the line of its row", value_eq(as_num(flat[0][1]), before))
                    P.prove("with all columns", land(value_eq(as_num(flat[0][2]), as_num(me.eng.local[("size", True)])), as_num(flat[0][2]) > me.canvas.far[0]))
        self.rows, self.cells = Loop("rows", False), Loop("cells", True)

    def same(self, a, b):
        return self.eng.implied(zb(value_eq(as_num(a), as_num(b))))

    def matches(self, interp, node, scope):
        import ast
        return isinstance(node, ast.For)

    def run_for(self, interp, node, scope, src):
        eng = self.eng
        if isinstance(src, SSeq) and eng.implied(zb(as_num(src.n) <= 0)):
            return
        loop = self.cells if eng.local.get("row") is not None else self.rows
        loop.run_for(interp, node, scope, src)
        if loop is self.rows:
            eng.local.pop("row", None)

    def run(self):
        import circuit_diagrams as cd
        P, eng, interp = self.P, self.eng, self.P.interp
        eng.local.pop("row", None)
        me, real = self, max
        plain = interp.overrides.get(id(max))

        def most(*a, **k):
            from pyvc.interp import _as_source
            if len(a) == 1 and not set(k) - {"default"} and not isinstance(a[0], (list, tuple)) and _as_source(a[0]) is not None:
                src = _as_source(a[0])
                kinds = set()

                def look():
                    e = as_num(src.pick())
                    p = eng.local.get("place")
                    kinds.add(0 if p is not None and me.same(e, p.real) else 1 if p is not None and me.same(e, p.imag) else None)
                eng.sub_explore(look)
                if len(kinds) == 1 and None not in kinds:
                    return me.canvas.far[kinds.pop()]
                raise Unsupported("maximum of something else than a coordinate")
            return plain[1](*a, **k) if plain is not None else real(*a, **k)
        interp.override(max, most)
        text = interp.overrides[id(str)][1]
        interp.override(str, lambda *a, **k: a[0] if len(a) == 1 and isinstance(a[0], Chr) else text(*a, **k))
        interp.loop_rules = [self]
        got = P.call(cd.diagram_2d, self.canvas)
        if not isinstance(got, Text):
            raise Unsupported("what the text is")
        v = got.base if isinstance(got.base, Text) and got.parts == ("stripped",) else got
        ok = isinstance(v, Text) and isinstance(v.base, tuple) and v.base[0] == "rows" and not v.parts
        P.prove("the text has all rows", ok and land(value_eq(as_num(v.base[1]), as_num(eng.local[("size", False)])), as_num(v.base[1]) > self.canvas.far[1]))


def prove(P):
    P.group("diagram_3d", lambda: Drawing(P).run())
    P.eng.callee_contracts = {}
    P.interp.reset()
    P.group("diagram_2d", lambda: Typed(P).run())
    P.interp.reset()
