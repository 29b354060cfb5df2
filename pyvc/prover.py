"""What a contract module (contracts/cXX.py) uses to state its obligations."""
import importlib
import os
import sys
import time
import traceback

import z3

from . import core, interp as interp_mod, values
from .core import Engine, PathEnd, PyExc, Unsupported
from .values import SBool, SNum, as_num, zb

REPO_SRC = interp_mod.REPO_SRC

MODULES = ["collect_data", "decoding", "honeycomb_circuit", "honeycomb_layout", "measure_tracker", "noise",
           "probability_util", "plotting", "circuit_diagrams", "paper.main_render_lambda_figure",
           "paper.main_collect_all", "paper.aggregate_csv_data"]


class Prover:
    def __init__(self, deadline=None, timeout_ms=20000):
        self.eng = Engine(timeout_ms=timeout_ms, deadline=deadline)
        core.CURRENT = self.eng
        values.REPO_MODULES.update(MODULES)
        interp_mod.INTERP = None
        self.interp = interp_mod.get_interp()
        self.witnesses = []          # (obligation name, case) to replay
        self.errors = []
        self.xchecked = 0

    # -- symbolic inputs
    def int(self, name, lo=None, hi=None):
        v = SNum(z3.Int(name))
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None):
        v = SNum(z3.Real(name))
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return v

    def bool(self, name):
        return SBool(z3.Bool(name))

    def call(self, fn, *args, **kwargs):
        return self.interp.call(fn, args, kwargs)

    # -- obligations
    def group(self, name, fn, max_paths=4000, cover=True):
        """Explores every path of fn; anything outside the subset leaves the group undecided."""
        self.eng.scope_name = name + ": "
        before = len(self.eng.obligations)
        if cover:
            self.eng.expect_cover(name)

        def run():
            try:
                fn()
            except PyExc as pe:
                self.eng.path = list(getattr(pe, "path", None) or self.eng.path)
                if self.eng.feasible():
                    self.eng.prove(f"no {type(pe.exc).__name__} is raised", False, detail=f"raised {pe.exc!r}")
                return
            if cover:
                self.eng.cover(name)
        try:
            self.eng.explore(run, name, max_paths)
        except Unsupported as ex:
            self.eng.undecided("(engine)", f"outside of the verified subset: {ex}")
        except RecursionError as ex:
            self.eng.undecided("(engine)", f"recursion: {ex}")
        except (TypeError, AttributeError, NameError, KeyError, IndexError, ValueError, OSError, z3.Z3Exception) as ex:
            self.eng.undecided("(engine)", f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:])
        finally:
            self.eng.scope_name = ""
            self.eng.base_path = []
            self.eng.journal, self.eng.journal_depth = None, 0
            self.eng._reset_path([])
        if len(self.eng.obligations) == before:
            self.eng.undecided(name, "no obligation was generated")

    def prove(self, name, cond, witness=None):
        """witness(model) -> case (dict) to replay on the real code when the obligation is refuted."""
        if self.eng.muted:
            return True
        ok = self.eng.prove(name, cond, detail=None)
        if not ok and witness is not None and self.eng.obligations[-1].status == core.REFUTED:
            goal = z3.simplify(core.to_z3_bool(cond)) if not isinstance(cond, bool) else z3.BoolVal(False)
            _, model = self.eng._check(list(self.eng.path) + [z3.Not(goal)], self.eng.timeout_ms)
            if model is not None:
                try:
                    c = witness(model)
                    for c1 in (c if isinstance(c, list) else [c] if c is not None else []):
                        self.witnesses.append((self.eng.obligations[-1].name, c1))
                except Exception as ex:  # noqa
                    self.errors.append(f"witness: {ex!r}")
        return ok

    def every_element(self, name, fam, pred, witness=None):
        """Every element of the collection satisfies pred (in the current path)."""
        def run():
            self.prove(name, pred(fam.pick()), witness)
        self.eng.sub_explore(run)

    def contains_all(self, name, fam, spec, eq=values.value_eq, witness=None):
        """Every element of the specified collection is in fam."""
        def run():
            z = spec.pick()
            self.prove(name, SBool(fam.member(z, eq)), witness)
        self.eng.sub_explore(run)

    def no_duplicates(self, name, fam, key=lambda v: v, witness=None):
        """Two elements with the same key are the same element: same alternative, same bound variables."""
        eng = self.eng

        def run():
            l0, d0 = len(eng.fresh_log), len(eng.decisions)
            a = fam.pick()
            l1, d1 = len(eng.fresh_log), len(eng.decisions)
            b = fam.pick()
            ca, cb = eng.fresh_log[l0:l1], eng.fresh_log[l1:]
            da, db = eng.decisions[d0:d1], eng.decisions[d1:]
            same = values.land(*[SBool(x == y) for x, y in zip(ca, cb)]) if da == db and len(ca) == len(cb) and ca else da == db
            self.prove(name, values.implies(values.value_eq(key(a), key(b)), same), witness)
        self.eng.sub_explore(run)

    def evaluated(self, name, ok, why="", witness=None):
        """An obligation discharged by evaluating the contract on a fully concrete state."""
        if ok:
            self.eng.obligations.append(core.Obligation(self.eng.scope_name + name, core.PROVED, backend="evaluation"))
        else:
            self.eng.obligations.append(core.Obligation(self.eng.scope_name + name, core.REFUTED, why, backend="evaluation"))
            if witness is not None:
                self.witnesses.append((self.eng.obligations[-1].name, witness))
        return ok

    def settle(self, name, ok, why, cases, run_case):
        """An obligation whose failure counts when one of the cases fails on the real code; otherwise it is undecided."""
        if ok:
            return self.evaluated(name, True)
        from contracts.common import Broken
        for case in cases:
            try:
                run_case(case)
            except Broken as ex:
                return self.evaluated(name, False, f"{why}; {str(ex)[:300]}", witness=case)
            except Exception:  # noqa
                continue
        self.eng.undecided(name, why)

    def xcheck(self, fn, *args, same=None, native=None, **kwargs):
        """CPython cross-check of the interpreter: same concrete input, same outcome."""
        def outcome(f):
            try:
                return ("value", f())
            except PyExc as pe:
                return ("raise", type(pe.exc).__name__)
            except Unsupported as ex:
                return ("unsupported", str(ex))
            except Exception as ex:  # noqa
                return ("raise", type(ex).__name__)
        import copy
        try:
            a2, k2 = copy.deepcopy(args), copy.deepcopy(kwargs)
        except Exception:  # noqa
            a2, k2 = args, kwargs
        n = outcome(lambda: (native or fn)(*a2, **k2))
        self.eng._reset_path([])
        i = outcome(lambda: self.interp.call(fn, args, kwargs))
        if i[0] == "unsupported":
            return
        eq = same or (lambda x, y: bool(x == y))
        try:
            ok = n[0] == i[0] and (eq(n[1], i[1]))
        except Exception as ex:  # noqa
            ok = False
        self.xchecked += 1
        if not ok:
            self.errors.append(f"interpreter disagrees with CPython on {getattr(fn, '__qualname__', fn)}{args}{kwargs}: {n!r} vs {i!r}")

    def parallel(self, items, fn, workers=None):
        """fn(P, item) for every item, in forked processes; obligations and counters are collected here."""
        import multiprocessing
        items = list(items)
        n = min(workers or max(1, (os.cpu_count() or 2) - 1), len(items))
        ctx = multiprocessing.get_context("fork")
        todo, done = ctx.SimpleQueue(), ctx.SimpleQueue()
        for k in range(len(items)):
            todo.put(k)
        for _ in range(n):
            todo.put(None)

        def work():
            out = {"reports": [], "covers": {}}
            try:
                while True:
                    k = todo.get()
                    if k is None:
                        break
                    P = Prover(deadline=self.eng.deadline, timeout_ms=self.eng.timeout_ms)
                    P.tier = getattr(self, "tier", "quick")
                    try:
                        fn(P, items[k])
                    except Exception as ex:  # noqa
                        P.errors.append("".join(traceback.format_exception(ex))[-1500:])
                        P.eng.undecided(str(items[k]), f"{type(ex).__name__}: {ex}")
                    done.put((k, P.report()))
            finally:
                done.put(None)
        procs = [ctx.Process(target=work, daemon=True) for _ in range(n)]
        for p in procs:
            p.start()
        results, ended = {}, 0
        while ended < n:
            r = done.get()
            if r is None:
                ended += 1
            else:
                results[r[0]] = r[1]
        for p in procs:
            p.join()
        e = self.eng
        for k, item in enumerate(items):
            r = results.get(k)
            if r is None:
                e.undecided(str(item), "the worker ended early")
                continue
            e.obligations += [core.Obligation(a, b, c, d, f) for a, b, c, d, f in r["obligations"]]
            e.functions |= set(r["functions"])
            e.assumptions |= set(r["assumptions"])
            e.solver_seconds += r["solver_seconds"]
            e.solver_calls += r["solver_calls"]
            e.paths_run += r["paths"]
            self.witnesses += r["witnesses"]
            self.errors += r["errors"]
            self.xchecked += r["xchecked"]
            e.loop_invariants = {**getattr(e, "loop_invariants", {}), **r["invariants"]}

    def report(self):
        e = self.eng
        for name, seen in e.covers.items():
            if not seen and not any(o.name.startswith(name) and o.status == core.UNDECIDED for o in e.obligations):
                e.obligations.append(core.Obligation(name, core.UNDECIDED, "vacuous: no feasible path reached the end of the contract"))
        return {
            "obligations": [[o.name, o.status, o.detail, round(o.seconds, 4), o.backend] for o in e.obligations],
            "functions": sorted(e.functions),
            "assumptions": sorted(e.assumptions),
            "solver_seconds": round(e.solver_seconds, 3),
            "solver_calls": e.solver_calls,
            "paths": e.paths_run,
            "witnesses": self.witnesses,
            "errors": self.errors,
            "xchecked": self.xchecked,
            "invariants": getattr(e, "loop_invariants", {}),
        }


def mval(model, v, default=0):
    """Concrete Python value of a symbolic value in a model."""
    import fractions
    if isinstance(v, SNum):
        x = model.eval(v.e, model_completion=True)
        if z3.is_int_value(x):
            f = fractions.Fraction(x.as_long(), v.den)
            return int(f) if f.denominator == 1 else float(f)
        if z3.is_rational_value(x):
            return float(fractions.Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if z3.is_algebraic_value(x):
            x = x.approx(20)
            return float(fractions.Fraction(x.numerator_as_long(), x.denominator_as_long()))
        return default
    if isinstance(v, SBool):
        return z3.is_true(model.eval(v.e, model_completion=True))
    return v
