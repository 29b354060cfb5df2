"""The generated circuit for every number of sub-rounds: the generator's source is executed with sub_rounds = 6 m + r, m arbitrary.

The result is a sequence of concrete circuits and of repeat blocks with concrete bodies and a repetition count linear in m.
Shared by C01, C02 and C03.
"""
import z3

FIRST_M = 4          # m >= FIRST_M; smaller numbers of sub-rounds are evaluated one by one


def make_class():
    import stim
    from pyvc.core import Unsupported
    from pyvc.values import SNum, Sym, as_num

    class SC(Sym):
        """A circuit: concrete pieces and repetitions of circuits."""
        py_type = stim.Circuit

        def __init__(self, parts=None):
            self.parts = list(parts or [])          # stim.Circuit | (SC, count)

        def last(self):
            if not self.parts or not isinstance(self.parts[-1], stim.Circuit):
                self.parts.append(stim.Circuit())
            return self.parts[-1]

        def append_operation(self, name, targets=(), arg=None, **kw):
            if isinstance(targets, tuple):
                targets = list(targets)
            if isinstance(name, SC) or isinstance(arg, SNum):
                raise Unsupported("append of a circuit")
            if arg is None:
                self.last().append(name, targets, **kw)
            else:
                self.last().append(name, targets, arg, **kw)

        append = append_operation

        def __iadd__(self, o):
            if not isinstance(o, SC):
                return NotImplemented
            for p in list(o.parts):
                if isinstance(p, stim.Circuit):
                    c = self.last()
                    c += p
                else:
                    self.parts.append(p)
            return self

        def __add__(self, o):
            if not isinstance(o, SC):
                return NotImplemented
            r = self.copy()
            r += o
            return r

        def __mul__(self, n):
            if isinstance(n, int):
                if all(isinstance(p, stim.Circuit) for p in self.parts):
                    return SC([self.flat() * n])
                r = SC()
                for _ in range(n):
                    r += self
                return r
            return SC([(self.copy(), as_num(n))])

        __rmul__ = __mul__

        def flat(self):
            r = stim.Circuit()
            for p in self.parts:
                if not isinstance(p, stim.Circuit):
                    raise Unsupported("a repetition of unknown length")
                r += p
            return r

        def copy(self):
            return SC([p.copy() if isinstance(p, stim.Circuit) else p for p in self.parts])

        def clear(self):
            self.parts = []

        def __bool__(self):
            return any(not isinstance(p, stim.Circuit) or len(p) > 0 for p in self.parts)

        def __eq__(self, o):
            raise Unsupported("comparison of circuits")

        def __hash__(self):
            return id(self)
    return SC


def generate(P, dw, dh, style, obs, r):
    """[(circuit, None) | (circuit, count)] for sub_rounds = 6 m + r; call inside of a group."""
    import honeycomb_circuit as hcm
    import honeycomb_layout as hl
    import noise
    import stim
    from pyvc.core import Unsupported
    from pyvc.values import SNum
    eng = P.eng
    SC = make_class()

    def circuit(*a, **k):
        if a or k:
            raise Unsupported("circuit from text")
        return SC()
    circuit._pyvc_model = True
    P.interp.override(stim.Circuit, circuit)
    m = P.int("m", FIRST_M)
    lay = hl.HoneycombLayout(data_width=dw, data_height=dh, sub_rounds=6, noise=0.0, style=style, obs=obs)
    object.__setattr__(lay, "sub_rounds", m * 6 + r)
    seen = []

    def noisy(self_, circuit_, **kw):
        P.prove("noise is added to the whole circuit", isinstance(circuit_, SC) and not kw)
        seen.append(circuit_)
        return circuit_
    eng.callee_contracts = {"noise.NoiseModel.noisy_circuit": noisy}
    res = P.call(hcm.generate_honeycomb_circuit, lay)
    return res, m


class Folded:
    """prefix, body repeated count times, suffix - as atoms; count is linear in m."""

    def __init__(self, parts):
        import stim
        from contracts import circ
        from pyvc.core import Unsupported
        from pyvc.values import SNum
        flat = []
        for p in parts:
            if isinstance(p, stim.Circuit):
                flat.append((circ.atoms(p), None))
            else:
                flat.append((circ.atoms(p[0].flat()), p[1]))
        rep = [k for k, f in enumerate(flat) if f[1] is not None]
        if len(rep) != 1:
            raise Unsupported(f"{len(rep)} repetitions of unknown length")
        k = rep[0]
        self.P = [a for f, _ in flat[:k] for a in f]
        self.B, self.count = flat[k]
        self.S = [a for f, _ in flat[k + 1:] for a in f]
        self.nq = 1 + max([t.value for a in self.P + self.B + self.S for t in a[2] if a[0] not in ("DETECTOR", "OBSERVABLE_INCLUDE")], default=0)

    def lookback(self, ats):
        """How many records before the start of these operations are referred to."""
        from contracts import circ
        n = deep = 0
        for name, args, ts in ats:
            if name in circ.MEAS:
                n += 1
            elif name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
                for t in ts:
                    if t.is_measurement_record_target:
                        deep = max(deep, -t.value - n)
        return deep

    def window(self):
        from contracts import circ
        nb = sum(1 for a in self.B if a[0] in circ.MEAS)
        w = max(self.lookback(self.B), self.lookback(self.S), nb)
        have = sum(1 for a in self.P if a[0] in circ.MEAS)
        return min(w, have)

    def concrete(self, j):
        return self.P + self.B * j + self.S


def configurations(tier):
    sizes = [(2, 6), (4, 6)] if tier != "thorough" else [(2, 6), (4, 6), (6, 6), (4, 12), (2, 12)]
    for dw, dh in sizes:
        for st in ("SD6", "PC3", "EM3", "EM3_v2", "SI1000"):
            for o in "HV":
                for r in range(6):
                    if st != "SI1000" or r % 3 == 0:
                        yield dw, dh, st, o, r


def name_of(dw, dh, st, o, r):
    return f"{st} {o} {dw}x{dh}, 6m+{r} sub-rounds"


def folded(P, conf):
    """Runs the generator and returns (Folded, m); obligations about the fold itself."""
    from pyvc.core import Unsupported
    from pyvc.prover import mval
    dw, dh, st, o, r = conf
    res, m = generate(P, dw, dh, st, o, r)
    F = Folded(res.parts)
    # count = step * (m - FIRST_M) + start, proved for all m; the loop is then a repetition of `step` passes behind `start` passes.
    step = start = None
    for at in (FIRST_M, FIRST_M + 1):
        s = z3.Solver()
        s.add(*P.eng.path)
        s.add(m.e == at)
        if s.check() != z3.sat:
            raise Unsupported("number of repetitions")
        v = mval(s.model(), F.count)
        start, step = (v, None) if start is None else (start, v - start)
    if not (isinstance(start, int) and isinstance(step, int) and start >= 0 and step > 0):
        raise Unsupported(f"{start} + {step} (m - {FIRST_M}) repetitions")
    P.prove("the number of repetitions grows linearly", F.count == (m - FIRST_M) * step + start)
    F.P = F.P + F.B * start
    F.B = F.B * step
    F.count = m - FIRST_M
    return F, m


def decide(P, name, ok, why, conf, module):
    """An obligation decided by linear algebra. A failure counts when the real circuit of one of the first sizes fails, too."""
    if ok:
        P.evaluated(name, True)
        return
    from contracts.common import Broken
    dw, dh, st, o, r = conf
    for m in (FIRST_M, FIRST_M + 1, FIRST_M + 2, 40):
        case = {"dw": dw, "dh": dh, "style": st, "obs": o, "n": 6 * m + r}
        try:
            module.run_case(case)
        except Broken as ex:
            P.evaluated(name, False, f"{why}; {str(ex)[:300]}", witness=case)
            return
        except Exception:  # noqa
            continue
    P.eng.undecided(name, why)


def shape(P, F, conf, me):
    """The state of the interpretation of the circuit behind P B is that behind P, six sub-rounds later: the meaning of every later operation shifts.

    What an ancilla that is never reset has accumulated long ago is represented by a symbol. Returns (number of detectors of P, interpretation of
    P S, interpretation of P B S), the records from behind P on containing such symbols."""
    from contracts import hc
    dw, dh, st, o, _ = conf
    w = F.window()
    C = hc.Circuit(list(F.P), dw, dh)
    whole = C.fold_old(w)
    s0 = C.state()
    n = len(C.detectors)
    C.observables = {}
    T = C.fork()
    C.feed(F.B)
    inner = [x for v in C.observables.values() for x in v]
    whole = C.fold_old(w) and whole
    decide(P, "a repetition is six sub-rounds later than the one before", s0 == C.state(6),
           "records or coordinates behind the repeated part are not six sub-rounds on", conf, me)
    decide(P, "what was accumulated long ago is all earlier measurements of an edge", whole and all(x[0] != "o" for x in inner),
           "an accumulated value lacks some measurements, or is put into the observable in the loop", conf, me)
    T.feed(F.S)
    C.feed(F.S)
    return n, T, C
