"""Contracts shared by C14 and C15: sampling an arbitrary list of problems, and what ends up in the file.

The list of problems is a Stream: the loop over problems is decided by one step from the state "the earlier problems are complete,
nothing is pending", the loop over batches by an inductive invariant. The file is a contract of open/print/close: a row counts
as recorded once the handle it was written through is closed or flushed.
"""
import z3

from pyvc.core import PyExc, Unsupported
from pyvc.folds import Fold, Stream
from pyvc.interp import SText, StrOf
from pyvc.rules import InvariantRule
from pyvc.values import OtherStr, SAtom, SBool, SNum, Sym, as_num, is_sym, implies, land, lnot, lor, value_eq, zb

COLS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance", "num_qubits",
        "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"]
INTS = ["data_width", "data_height", "rounds", "code_distance", "num_qubits"]
TEXTS = ["circuit_style", "preserved_observable", "decoder"]


def flat(v):
    """The pieces of a text: concrete strings and formatted symbolic values."""
    if isinstance(v, str):
        return [v]
    if isinstance(v, SText):
        return [q for p in v.parts for q in flat(p)]
    if isinstance(v, StrOf):
        if isinstance(v.v, (StrOf, SText, OtherStr)) and v.fmt in (None, (-1, ""), (-1, "s"), (115, "")):
            return flat(v.v)
        return [v]
    if isinstance(v, OtherStr):
        return [v]
    if is_sym(v):
        return [StrOf(v)]
    return [str(v)]


def fields(parts):
    """Comma-separated fields of a line; each a concrete string or one formatted value."""
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            first, *rest = p.split(",")
            out[-1].append(first)
            out += [[r] for r in rest]
        else:
            out[-1].append(p)
    res = []
    for f in out:
        f = [x for x in f if x != ""]
        if all(isinstance(x, str) for x in f):
            res.append("".join(f))
        elif len(f) == 1:
            res.append(f[0])
        else:
            raise Unsupported("a field made of several pieces")
    return res


def number_in(field):
    """The number that a field reads back as."""
    if isinstance(field, str):
        try:
            return as_num(int(field)) if field.lstrip("-").isdigit() else as_num(float(field))
        except ValueError:
            return None
    if isinstance(field, StrOf):
        v = field.v
        if not isinstance(v, SNum):
            return None
        whole = v.is_int_sort and v.den == 1
        if field.fmt in (None, "r", (-1, ""), (114, ""), (115, "")) or whole and field.fmt == (-1, "d"):
            return v
        raise Unsupported("a formatted number")
    return None


class File:
    """The output file, as seen by open() and print(); a handle counts as closed only when it is."""
    def __init__(self, P, exists, discard, on_line):
        self.P, self.eng, self.exists, self.discard, self.on_line = P, P.eng, exists, discard, on_line
        self.path = OtherStr()

    def get(self, k, d=None):
        return self.eng.local.get((self, k), d)

    def put(self, k, v):
        self.eng.local[(self, k)] = v

    def install(self):
        import os
        import pathlib
        me, P = self, self.P

        def m_open(path, mode="r", *a, **k):
            if path is not me.path and not (isinstance(path, OfPath) and path.file is me):
                raise Unsupported("opening of another file")
            if a or set(k) - {"newline", "encoding"}:
                raise Unsupported("options of open")
            return me.opened(mode)

        class OfPath:
            file = me

            def exists(self):
                return me.there()
            is_file = exists

            def open(self, mode="r", **k):
                return m_open(me.path, mode, **k)

            def __str__(self):
                raise Unsupported("text of a path")

        def m_path(p, *a):
            if p is not me.path and not isinstance(p, OfPath):
                return pathlib.Path(p, *a)
            if a:
                raise Unsupported("a path below the file")
            return OfPath()

        def m_exists(p):
            if p is me.path or isinstance(p, OfPath):
                return me.there()
            return os.path.exists(p)
        for real, model in ((open, m_open), (pathlib.Path, m_path), (os.path.exists, m_exists), (os.path.isfile, m_exists)):
            P.interp.override(real, model)

    def there(self):
        return True if self.get("made") else self.exists

    def opened(self, mode):
        mode = mode.replace("t", "")
        if mode == "w":
            if self.get("collecting") and not self.get("made") and not self.eng.implied(zb(self.exists)):
                raise Unsupported("the file is set up later")
            self.P.prove("an existing file is only overwritten when discarding was requested", lor(self.discard, lnot(self.exists)))
            self.P.prove("the file is not overwritten once rows were collected", not self.get("collecting"))
            self.put("emptied", True)
            self.put("headers", 0)
        elif mode != "a":
            raise Unsupported(f"mode {mode!r}")
        self.put("made", True)
        return Handle(self)


class Handle:
    _pyvc_model = True

    def __init__(self, file):
        self.file = file
        self.key = object()

    def buf(self):
        return self.file.eng.local.get(self.key, ())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def fileno(self):
        raise Unsupported("file descriptor")

    def close(self):
        self.flush()
        self.file.P.prove("a line is complete when the file is closed", not self.buf())

    def flush(self):
        self.file.on_line(self, None)

    def write(self, s):
        line = list(self.buf())
        for p in flat(s):
            while isinstance(p, str) and "\n" in p:
                a, p = p.split("\n", 1)
                self.file.on_line(self, line + [a])
                line = []
            if p != "":
                line.append(p)
        self.file.eng.local[self.key] = tuple(line)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def sym_print(self, a, k):
        self.write(printed(a, k))
        if k.get("flush"):
            self.flush()


def printed(a, k):
    sep, end = k.get("sep", " "), k.get("end", "\n")
    parts = []
    for i, x in enumerate(a):
        parts += ([" " if sep is None else sep] if i else []) + flat(x)
    return SText(parts + ["\n" if end is None else end])


def a_descriptor(P, cd, tag=""):
    """An arbitrary problem descriptor; texts differ from every literal of the program and hold no comma or line end."""
    eng = P.eng
    kw = {k: SNum(eng.fresh(k, z3.IntSort())) for k in INTS}
    kw["noise"] = SNum(eng.fresh("noise", z3.RealSort()))
    for k in TEXTS:
        kw[k] = OtherStr()
    eng.assumptions.add("descriptor texts (style, observable, decoder) hold no comma, quote or line end")
    return cd.DecodingProblemDesc(**kw)


def row_matches(P, parts, header, desc, n, c, seconds, wit=None, fixed=()):
    """The line carries the descriptor, the shots, the correct count and the seconds in the columns of the header."""
    row = fields(parts)
    P.prove("a row has as many fields as the header", len(row) == len(header), wit)
    if len(row) != len(header):
        return
    got = dict(zip(header, row))
    want = {k: getattr(desc, k) for k in INTS + TEXTS + ["noise"]}
    want.update(dict(fixed), num_shots=n, num_correct=c)
    for k, w in want.items():
        v = got.get(k)
        if isinstance(w, SAtom):
            v = v.v if isinstance(v, StrOf) and v.fmt in (None, (-1, ""), (115, "")) else v
            P.prove(f"column {k} holds the problem's value", isinstance(v, SAtom) and value_eq(v, w), wit)
            continue
        if isinstance(w, (OtherStr, str)):
            P.prove(f"column {k} holds the problem's value", v is w if isinstance(w, OtherStr) else v == w, wit)
            continue
        v = number_in(v) if v is not None else None
        P.prove(f"column {k} holds the {'value of the batch' if k in ('num_shots', 'num_correct') else chr(39).join(['problem', 's value'])}", v is not None and v == w, wit)
        if k != "noise" and v is not None:
            P.prove(f"column {k} is a whole number", v.is_int_sort and v.den == 1)
    s = number_in(got.get("total_processing_seconds", ""))
    P.prove("column total_processing_seconds holds a number", s is not None, wit)
    if s is not None:
        P.prove("column total_processing_seconds holds the time the batch took", seconds(s), wit)
    P.prove("column version holds 2", got.get("version") == "2", wit)


class Sampling:
    """Obligations on one call of a collecting function; state of the batch at hand.

    eng.ghost: pending (0 nothing, 1 a batch is not written, 2 its row is not flushed), batch_end (clock when the last batch ended).
    """
    def __init__(self, P, with_file, wit=None):
        self.P, self.eng, self.with_file, self.wit = P, P.eng, with_file, wit
        self.exists, self.discard = P.bool("exists"), P.bool("discard")
        self.file = File(P, self.exists, self.discard, self.on_line)
        self.problem = None
        self.fixed = {}

    def setup(self):
        import time
        P, eng = self.P, self.eng
        eng.ghost.update(pending=as_num(0), batch_end=SNum(z3.RealVal(0)))
        self.file.install()
        for f in (time.monotonic, time.time, time.perf_counter):
            P.interp.override(f, self.clock)
        eng.ghost["on_print"] = self.on_print if not self.with_file else None

    # -- time
    def clock(self):
        eng = self.eng
        t = SNum(eng.fresh("clock", z3.RealSort()))
        now = self.file.get("now")
        eng.assume(land(t >= eng.ghost["batch_end"], t >= (now if now is not None else 0)))
        self.file.put("now", t)
        return t

    def batch(self, n, c):
        """n shots with c correct were just taken."""
        eng, P = self.eng, self.P
        P.prove("the row of the batch before was recorded before another batch is taken", eng.ghost["pending"] == 0, self.wit)
        start = self.clock()
        self.file.put("batch", (n, c, start, self.clock(), eng.ghost["batch_end"]))
        eng.ghost["batch_end"] = self.file.get("now")
        eng.ghost["pending"] = as_num(1)

    def seconds(self, v):
        n, c, start, end, before = self.file.get("batch")
        return land(v >= end - start, v <= self.file.get("now") - before)

    # -- lines
    def on_line(self, handle, parts):
        from pyvc.values import const_value
        eng, P, file = self.eng, self.P, self.file
        pend = const_value(eng.ghost["pending"])
        if parts is None:
            if pend == 2:
                eng.ghost["pending"] = as_num(0)
            return
        if not file.get("collecting"):
            if not all(isinstance(p, str) for p in parts):
                raise Unsupported("a line that depends on the arguments before the first batch")
            names = "".join(parts).split(",")
            P.prove("the first line names the columns", len(set(names)) == len(names) and set(COLS) <= set(names), self.wit)
            file.put("headers", file.get("headers", 0) + 1)
            file.put("header", names)
            return
        P.prove("a line is the row of a batch that was taken and not recorded yet", eng.ghost["pending"] == 1, self.wit)
        if pend != 1:
            return
        if self.with_file:
            P.prove("data is discarded before the first row when that was requested", implies(land(self.exists, self.discard), bool(file.get("emptied"))), self.wit)
        n, c = file.get("batch")[:2]
        row_matches(P, parts, file.get("header") or COLS, self.problem.desc, n, c, self.seconds, self.wit, self.fixed)
        eng.ghost["pending"] = as_num(2)

    def on_print(self, a, k):
        from pyvc.values import const_value
        if not self.file.get("collecting") or const_value(self.eng.ghost["pending"]) != 1:
            return
        parts = flat(printed(a, k))
        if parts[-1:] != ["\n"] or sum(p.count(",") for p in parts if isinstance(p, str)) < len(COLS) - 1:
            return
        self.on_line(None, parts[:-1])
        self.on_line(None, None)

    # -- problems
    def problems(self, cd, decoder_circuit, check):
        """The arbitrary list of problems; check(problem): obligations once a problem is complete."""
        P, eng = self.P, self.eng

        def element():
            self.problem = cd.DecodingProblem(a_descriptor(P, cd), decoder_circuit)
            return self.problem

        def state(env, phase):
            if phase != "names":
                eng.ghost.update(pending=as_num(0), batch_end=self.clock() if phase == "step" else eng.ghost["batch_end"])
                self.file.put("collecting", True)
            return {}

        def entry(env):
            if not self.with_file:
                return
            f = self.file
            if bool(lor(self.discard, lnot(self.exists))):
                if not f.get("made"):
                    if not bool(self.exists):
                        raise Unsupported("the file is set up later")
                    return
                P.prove("a new file starts with one line that names the columns", f.get("headers") == 1, self.wit)
                P.prove("data is discarded when that was requested", implies(land(self.exists, self.discard), bool(f.get("emptied"))), self.wit)
            else:
                P.prove("nothing is written to a file with data before the first batch", f.get("headers", 0) == 0 and not f.get("emptied"), self.wit)

        def done(pre, env, x):
            P.prove("the row of every batch is recorded", eng.ghost["pending"] == 0, self.wit)
            check(x)

        def returned(v, pre, x):
            P.prove("the problems after this one are sampled, too", False, self.wit)
        return Stream(element, Fold("problems", state, done, entry, on_return=returned))


def sampling_loop(P, with_file, with_batch, wit=None, stops=True):
    """One group: collect_simulated_experiment_data on an arbitrary list of problems with symbolic limits and outcomes."""
    import collect_data as cd
    import decoding
    from pyvc.models import SQRT
    eng = P.eng
    eng.linear_branches = True
    mn, mx, mb, me = (SNum(z3.Int(n)) for n in ("min_shots", "max_shots", "max_batch", "min_errors"))
    sd = SNum(z3.Real("max_std_dev"))
    cap = mb if with_batch else mx

    def over(a, b):
        return SNum(z3.simplify(a.real_term() / b.real_term()))

    def half(t, e):
        return land(e >= 10, SBool(z3.ToReal(e.e) * 100 >= z3.ToReal(t.e) * 48))

    def precise(t, e):
        p = over(as_num(e), as_num(t))
        v = over(p * (1 - p), as_num(t)).e
        s = SQRT(z3.simplify(v))
        eng.assume(z3.Implies(z3.And(t.e >= 1, e.e >= 0, e.e <= t.e), z3.And(s >= 0, s * s == v)))
        return SBool(s <= sd.e)

    def stop(t, e):
        return lor(t >= mx, land(t >= mn, lor(land(e >= me, precise(t, e)), half(t, e))))

    def now(*names):
        return [as_num(eng.ghost[g]) for g in names]

    def cand(env, entry, gh):
        t, e, b, pend, end = (as_num(gh[g]) for g in ("shots", "errors", "batches", "pending", "batch_end"))
        out = {"0 <= errors <= shots": land(e >= 0, e <= t), "a batch was taken iff shots were": land(b >= 0, SBool((b.e == 0) == (t.e == 0))),
               "every batch is recorded": pend == 0, "at most max_shots": t <= mx, "below max_shots": t < mx,
               "not to stop yet": lor(t == 0, land(t >= 1, lnot(stop(t, e)))) if stops else True}
        for n, v in env.items():
            v = as_num(v) if not isinstance(v, (bool, SBool)) else None
            if v is None:
                continue
            if not v.is_int_sort:
                out[f"{n} is after the last batch"] = v >= end
                continue
            out.update({f"{n} is the shots": v == t, f"{n} is the errors": v == e, f"{n} is the batches": v == b, f"{n} more shots fit": v + t <= mx, f"{n} is all that is missing": v == mx - t,
                        f"{n} is the correct shots": v == t - e, f"{n} >= 1": v >= 1, f"{n} >= 0": v >= 0, f"{n} <= batch limit": v <= cap})
        return out

    def variant(env, entry, gh):
        return {f"max_shots - {n}": mx - as_num(v) for n, v in env.items() if not isinstance(v, (bool, SBool)) and as_num(v) is not None and as_num(v).is_int_sort}
    s = Sampling(P, with_file, wit)

    class Circuit:
        pass
    made = Circuit()

    def sampler(*, circuit, num_shots, decoder, model_circuit=None):
        n = as_num(num_shots)
        t, e, b = now("shots", "errors", "batches")
        P.prove("the problem's own decoder is used", decoder is s.problem.desc.decoder, wit)
        P.prove("the problem's own circuit is sampled", circuit is made, wit)
        if model_circuit is not None:
            raise Unsupported("model circuit")
        if stops:
            P.prove("a batch has at least one shot", n >= 1, wit)
            P.prove("a batch is within the batch limit", n <= cap, wit)
            P.prove("the maximum is never exceeded", t + n <= mx, wit)
            P.prove("no batch is taken after the limits were reached", lor(b == 0, lnot(stop(t, e))), wit)
        c = SNum(eng.fresh("correct", z3.IntSort()))
        eng.assume(land(c >= 0, c <= n))
        s.batch(n, c)
        eng.ghost.update(shots=t + n, errors=e + n - c, batches=b + 1)
        return c

    def check(problem):
        if stops:
            t, e, b = now("shots", "errors", "batches")
            P.prove("a problem is sampled until the limits are reached", land(b >= 1, t <= mx, stop(t, e)), wit)

    def body():
        for v in (mn, mx, mb):
            eng.assume(v >= 1)
        eng.assume(me >= 0)
        eng.assume(sd >= 0)
        for f in (cd.sample_decode_count_correct, decoding.sample_decode_count_correct):
            P.interp.override(f, sampler)
        s.setup()
        zero = {g: as_num(0) for g in ("shots", "errors", "batches")}
        eng.ghost.update(zero)
        src = s.problems(cd, lambda: made, check)
        inner = src.fold.state

        def state(env, phase):
            if phase == "step":
                eng.ghost.update(zero)
            return inner(env, phase)
        src.fold.state = state
        kw = {"max_batch": mb} if with_batch else {}
        P.call(cd.collect_simulated_experiment_data, src, min_shots=mn, max_shots=mx, max_sample_std_dev=sd, min_seen_logical_errors=me,
               out_path=s.file.path if with_file else None, discard_previous_data=s.discard, **kw)
        if not src.fold.used:
            raise Unsupported("the problems are not gone through one by one")
    label = f"any problems, {'file' if with_file else 'no file'}, {'batch limit' if with_batch else 'no batch limit'}"
    rule = InvariantRule(f"batch loop ({label})", "collect_simulated_experiment_data", cand, variant,
                         ghosts={**{g: SNum(z3.IntVal(0)) for g in ("shots", "errors", "batches", "pending")}, "batch_end": SNum(z3.RealVal(0))})
    P.interp.loop_rules = [rule]
    P.group(label, body)
    P.interp.reset()


def detection_fractions(P, with_file, wit=None):
    """collect_detection_fraction_data on an arbitrary list of problems."""
    import math
    import numpy as np
    import collect_data as cd
    eng = P.eng
    shots = SNum(z3.Int("shots"))
    s = Sampling(P, with_file, wit)
    s.fixed = {"preserved_observable": "-", "decoder": "detection_fraction"}

    class Samples(Sym):
        """shots x detectors booleans of which `ones` are set."""
        py_type = np.ndarray

        def __init__(self, nd, ones):
            self.shape, self.ones = (shots, nd), ones
            self.size = shots * nd

        def sum(self):
            return self.ones

        def sym_len(self):
            return shots

        def __hash__(self):
            return id(self)

    class Sampler:
        _pyvc_model = True

        def sample(self, n, **k):
            if k:
                raise Unsupported("options of the sampler")
            P.prove("as many shots as asked for", as_num(n) == shots, wit)
            nd, ones = SNum(eng.fresh("detectors", z3.IntSort())), SNum(eng.fresh("detections", z3.IntSort()))
            x = Samples(nd, ones)
            eng.assume(land(nd >= 0, ones >= 0, ones <= x.size))
            s.batch(x.size, x.size - ones)
            return x

    class Circuit:
        def compile_detector_sampler(self, **k):
            if k:
                raise Unsupported("options of the sampler")
            return Sampler()

    def count_nonzero(x):
        if not isinstance(x, Samples):
            return np.count_nonzero(x)
        return x.ones

    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def body():
        eng.assume(shots >= 1)
        s.setup()
        P.interp.override(np.count_nonzero, count_nonzero)
        P.interp.override(math.prod, prod)
        src = s.problems(cd, Circuit, lambda p: None)
        P.call(cd.collect_detection_fraction_data, src, shots=shots, out_path=s.file.path if with_file else None, discard_previous_data=s.discard)
        if not src.fold.used:
            raise Unsupported("the problems are not gone through one by one")
    P.group(f"detection fractions, {'file' if with_file else 'no file'}", body)
    P.interp.reset()


# ------------------------------------------------------------------ reading back
from pyvc.folds import AMap  # noqa: E402
from pyvc.values import U  # noqa: E402

KEYS = INTS + TEXTS + ["noise"]
SORTS = [z3.IntSort()] * len(INTS) + [U] * len(TEXTS) + [z3.RealSort()]
HELD = z3.Function("recorded_problem", *SORTS, z3.BoolSort())
SHOTS, RIGHT = (z3.Function(n, *SORTS, z3.IntSort()) for n in ("recorded_shots", "recorded_correct"))
SECONDS = z3.Function("recorded_seconds", *SORTS, z3.RealSort())


class Text(SAtom):
    """The text of a field; compared with a literal it may be that literal."""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, str):
            return SBool(self.e == z3.Const(f"literal {o!r}", U))
        return SAtom.__eq__(self, o)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    __hash__ = SAtom.__hash__


class NumText(StrOf):
    """The text of a number."""
    def __eq__(self, o):
        raise Unsupported("comparison of the text of a number")

    __ne__ = __eq__

    def __hash__(self):
        raise Unsupported("hash of the text of a number")


def terms(desc):
    """The nine fields that identify a problem."""
    import collect_data as cd
    if not isinstance(desc, cd.DecodingProblemDesc):
        raise Unsupported("key that is not a descriptor")
    out = []
    for k, so in zip(KEYS, SORTS):
        v = getattr(desc, k)
        if so == U:
            if not isinstance(v, SAtom):
                raise Unsupported(f"{k} of a descriptor")
            out.append(v.e)
            continue
        v = as_num(v)
        if v is None or so == z3.IntSort() and not (v.is_int_sort and v.den == 1):
            raise Unsupported(f"{k} of a descriptor")
        out.append(z3.simplify(v.e if so == z3.IntSort() else v.real_term()))
    return out


def any_descriptor(P, cd):
    eng = P.eng
    kw = {k: Text(eng.fresh(k, U)) if so == U else SNum(eng.fresh(k, so)) for k, so in zip(KEYS, SORTS)}
    return cd.DecodingProblemDesc(**kw)


def recorded(P, cd, default_factory=None):
    """An arbitrary table of totals per problem."""
    def value(k):
        t = terms(k)
        return cd.ShotData(SNum(SHOTS(*t)), SNum(RIGHT(*t)), SNum(SECONDS(*t)))
    return AMap(lambda: any_descriptor(P, cd), lambda k: SBool(HELD(*terms(k))), value, default_factory)


class Row(Sym):
    """One row of a file: the text of every column."""
    py_type = dict

    def __init__(self, eng):
        self.num = {k: SNum(eng.fresh(k, z3.IntSort())) for k in INTS + ["num_shots", "num_correct", "version"]}
        self.num.update({k: SNum(eng.fresh(k, z3.RealSort())) for k in ("noise", "total_processing_seconds")})
        self.text = {k: Text(eng.fresh(k, U)) for k in TEXTS}
        self.cells = {**{k: NumText(v) for k, v in self.num.items()}, **self.text}

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise Unsupported("column")
        if k not in self.cells:
            raise PyExc(KeyError(k))
        return self.cells[k]

    def get(self, k, d=None):
        return self[k] if k in COLS else d

    def pop(self, *a):
        raise Unsupported("change of a row")
    __setitem__ = pop

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True


def reading(P, wit=None):
    """read_recorded_data on an arbitrary list of files with arbitrary rows."""
    import csv
    import os
    import pathlib
    import collect_data as cd
    from pyvc.interp import MDict, StarArg
    eng = P.eng

    class APath(Sym):
        py_type = pathlib.Path

        def open(self, mode="r", **k):
            return m_open(self, mode, **k)

        def exists(self):
            return True
        is_file = exists

        def __hash__(self):
            return id(self)

    class Reading:
        _pyvc_model = True

        def __init__(self):
            self.left = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.left = True
            return False
        close = __exit__

    def m_open(path, mode="r", **k):
        if not isinstance(path, APath) or set(k) - {"newline", "encoding"}:
            raise Unsupported("opening of another file")
        if mode not in ("r", "rt"):
            raise Unsupported(f"mode {mode!r}")
        return Reading()
    st = {}

    def name_of(env):
        if "name" not in st:
            def empty(v):
                return type(v) is MDict and len(v) == 0 and v.fam is None and not v.sym
            names = [k for k, v in env.items() if isinstance(v, cd.ProblemShotData) and empty(v.data)]
            st["wrapped"] = bool(names)
            names = names or [k for k, v in env.items() if empty(v)]
            if len(names) != 1:
                raise Unsupported("what the rows are added to")
            st["name"] = names[0]
        return st["name"]

    def table(env):
        v = env[name_of(env)]
        return v.data if st["wrapped"] else v

    def state(level):
        def f(env, phase):
            name = name_of(env)
            if phase == "names":
                return [name]
            fac = getattr(table(env), "default_factory", None)
            m = st[level, phase] = recorded(P, cd, fac)
            return {name: cd.ProblemShotData(m) if st["wrapped"] else m}
        return f

    def same(m, kept, what):
        P.prove(what, m is kept and not m.writes and not m.seen, wit)

    def inner_entry(env):
        same(table(env), st["files", "step"], "a file is added to what the files before it hold")

    def file_done(pre, env, x):
        same(table(env), st["rows", "after"], "what the rows of the file hold is carried on")

    def row_done(pre, env, x):
        m = table(env)
        P.prove("the totals are carried on", m is st["rows", "step"], wit)
        if m is not st["rows", "step"]:
            return
        k = any_descriptor(P, cd)
        t = terms(k)
        had = bool(SBool(HELD(*t)))
        mine = bool(land(*[SBool(a == (x.text[n].e if n in TEXTS else x.num[n].e)) for n, a in zip(KEYS, t)]))
        ok, v = m.lookup(k)
        P.prove("after a row there are the problems from before and the row's", ok == (had or mine), wit)
        if not ok:
            return
        for f, fn, whole in (("num_shots", SHOTS, True), ("num_correct", RIGHT, True), ("total_processing_seconds", SECONDS, False)):
            got, want = as_num(getattr(v, f)), SNum(fn(*t)) if had else as_num(0)
            if mine:
                want = want + x.num[f]
            P.prove(f"{f} is what it was" + (" plus that of the row" if mine else ""), got == want, wit)
            if whole:
                P.prove(f"{f} is a whole number", bool(got.is_int_sort and got.den == 1), wit)

    def go():
        st.clear()
        inner = Fold("rows", state("rows"), row_done, inner_entry)
        outer = Fold("files", state("files"), file_done, lambda env: P.prove("reading starts with nothing", len(table(env)) == 0 if type(table(env)) is MDict else False))

        def dict_reader(f, *a, **k):
            if not isinstance(f, Reading) or a or k:
                raise Unsupported("options of the reader")
            return Stream(lambda: Row(eng), inner)
        P.interp.override(open, m_open)
        P.interp.override(csv.DictReader, dict_reader)
        P.interp.override(pathlib.Path, lambda p, *a: p if isinstance(p, APath) and not a else pathlib.Path(p, *a))
        for f in (os.path.exists, os.path.isfile):
            P.interp.override(f, lambda p: True if isinstance(p, APath) else os.path.exists(p))
        eng.assumptions.add("csv.DictReader yields the rows of the file in order, by the names in its first line")
        r = P.call(cd.read_recorded_data, StarArg(Stream(APath, outer, kind=tuple)))
        if not outer.used or not inner.used:
            raise Unsupported("the rows are not gone through one by one")
        if not isinstance(r, cd.ProblemShotData) or not isinstance(r.data, AMap):
            raise Unsupported("the totals are returned in another way")
        same(r.data, st["files", "after"], "the totals are what is returned")
    P.group("reading", go)
    P.interp.reset()


def aggregation(P, wit=None):
    """aggregate_csv_data.main prints the totals of what read_recorded_data returns."""
    import os
    import shutil
    import sys
    import tempfile
    import collect_data as cd
    import paper.aggregate_csv_data as agg
    eng = P.eng
    tmp = tempfile.mkdtemp()

    def go(argv, files):
        lines = []

        def read(*paths):
            P.prove("every given file is read once", sorted(os.path.realpath(str(p)) for p in paths) == sorted(os.path.realpath(p) for p in files), wit)
            return cd.ProblemShotData(recorded(P, cd))

        def on_print(a, k):
            eng.local["lines"] = eng.local.get("lines", ()) + (printed(a, k).parts,)

        def line(parts):
            parts = list(parts)
            if not parts or not isinstance(parts[-1], str) or not parts[-1].endswith("\n"):
                raise Unsupported("a line printed in pieces")
            return parts[:-1] + ([parts[-1][:-1]] if len(parts[-1]) > 1 else [])

        class PrintLoop:
            def matches(self, interp, node, scope):
                return scope.fn is not None and scope.fn.qualname.endswith("main")

            def run_for(self, interp, node, scope, src):
                eng.local["loops"] = eng.local.get("loops", 0) + 1
                before = eng.local.get("lines", ())

                def entry(env):
                    P.prove("the header is printed first", len(before) == 1 and all(isinstance(p, str) for p in before[0]), wit)
                    names = "".join(line(before[0])).split(",")
                    P.prove("the header names the columns", set(COLS) <= set(names), wit)
                    spec = recorded(P, cd)
                    eng.sub_explore(lambda: complete(src, spec))

                def done(pre, env, x):
                    desc, v = x if isinstance(x, tuple) else (x, None)
                    t = terms(desc)
                    P.prove("only recorded problems are printed", SBool(HELD(*t)), wit)
                    new = eng.local.get("lines", ())[len(before):]
                    P.prove("one line per problem", len(new) == 1, wit)
                    if len(new) != 1:
                        return
                    row_matches(P, line(new[0]), "".join(line(before[0])).split(","), desc, SNum(SHOTS(*t)), SNum(RIGHT(*t)), lambda s: s == SNum(SECONDS(*t)), wit)
                Fold("lines", lambda env, phase: {}, done, entry).run_for(interp, node, scope, src)

        def complete(src, spec):
            k, _ = spec._entry()
            P.prove("every recorded problem is printed", SBool(src.member(k, lambda a, b: value_eq((a[0] if isinstance(a, tuple) else a), b))), wit)
        eng.callee_contracts = {"collect_data.read_recorded_data": read}
        eng.ghost["on_print"] = on_print
        P.interp.loop_rules = [PrintLoop()]
        old, sys.argv = sys.argv, argv
        try:
            P.call(agg.main)
        finally:
            sys.argv = old
        if eng.local.get("loops") != 1:
            raise Unsupported("the totals are not printed by one loop")
    try:
        os.makedirs(os.path.join(tmp, "a", "b"))
        names = [os.path.join(tmp, n) for n in ("one.csv", "a/two.csv", "a/b/three.csv")]
        for n in names + [os.path.join(tmp, "a", "other.txt")]:
            open(n, "w").close()
        for label, argv, files in (("a file", names[:1], names[:1]), ("files and a directory", [names[0], os.path.join(tmp, "a")], names)):
            P.group(f"aggregation of {label}", lambda: go(["x"] + argv, files))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        eng.callee_contracts = {}
        eng.ghost.pop("on_print", None)
        P.interp.reset()
