"""Path exploration, solver access and obligation bookkeeping."""
import fractions
import time

import z3


class Unsupported(Exception):
    """The code left the subset the verifier understands: the obligation is undecided."""


class PathEnd(Exception):
    """This symbolic path is finished (infeasible, or ended on purpose)."""


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Obligation:
    __slots__ = ("name", "status", "detail", "seconds", "backend")

    def __init__(self, name, status, detail="", seconds=0.0, backend="z3"):
        self.name, self.status, self.detail = name, status, detail
        self.seconds, self.backend = seconds, backend


PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"

CURRENT = None  # The active Engine.


def engine():
    if CURRENT is None:
        raise Unsupported("symbolic value used outside of an engine")
    return CURRENT


class Engine:
    def __init__(self, timeout_ms=20000, branch_timeout_ms=4000, deadline=None):
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.deadline = deadline
        self.obligations = []
        self.covers = {}
        self.assumptions = set()
        self.functions = set()       # repo functions whose AST was executed
        self.lines = set()
        self.solver_seconds = 0.0
        self.solver_calls = 0
        self.paths_run = 0
        self._memo = {}
        self._keep = []
        self._reset_path([])
        self.base_path = []
        self.callee_contracts = {}
        self.call_depth = 0
        self.scope_name = ""
        self.journal = None
        self.journal_depth = 0
        self.linear_branches = False  # decide branches and invariant candidates with nonlinear terms left uninterpreted
        self._abs = {}
        self._facts = set()
        self.done = {}
        self.nest = ()
        self.muted = 0               # > 0 while invariant candidates are being tried out

    # ---- path state ---------------------------------------------------
    def _reset_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.path = []
        self.fresh_n = 0
        self.fresh_log = []
        self.ghost = {}
        self.local = {}     # state of lazily built objects, per path

    def fresh(self, name, sort):
        self.fresh_n += 1
        c = z3.Const(f"{name}!{self.fresh_n}", sort)
        self.fresh_log.append(c)
        return c

    def check_time(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Unsupported("time limit of the proof run reached")

    def _check(self, exprs, timeout_ms):
        key = (tuple(sorted({e.get_id() for e in exprs})), timeout_ms)
        r = self._memo.get(key)
        if r is not None:
            return r
        self.check_time()
        # Two arithmetic cores, first with a short limit, then with the full one.
        res, model = z3.unknown, None
        limits = [2000, timeout_ms] if timeout_ms > 4000 else [timeout_ms]
        for limit in limits:
            for core2 in (False, True):
                s = z3.Tactic("smt").solver() if core2 else z3.Solver()
                s.set("timeout", limit)
                if core2:
                    s.set("smt.arith.solver", 2)
                for e in exprs:
                    s.add(e)
                t0 = time.monotonic()
                try:
                    res = s.check()
                except z3.Z3Exception:
                    res = z3.unknown
                self.solver_seconds += time.monotonic() - t0
                self.solver_calls += 1
                if res != z3.unknown:
                    break
            if res != z3.unknown:
                model = s.model() if res == z3.sat else None
                break
        self._keep.append(exprs)
        self._memo[key] = (res, model)
        return res, model

    # A query whose nonlinear terms are uninterpreted: unsat there implies unsat here.
    def abstract(self, e):
        r = self._abs.get(e.get_id())
        if r is not None:
            return r[1]
        if not z3.is_app(e) or e.num_args() == 0:
            out = e
        else:
            ch = [self.abstract(c) for c in e.children()]
            k = e.decl().kind()
            num = [z3.is_int_value(c) or z3.is_rational_value(c) for c in ch]
            if (k == z3.Z3_OP_MUL and num.count(False) >= 2) or (k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not num[1]) \
                    or k == z3.Z3_OP_POWER:
                f = z3.Function(f"nl_{k}_{e.sort()}_{len(ch)}", *[c.sort() for c in ch], e.sort())
                out = f(*ch)
            elif k == z3.Z3_OP_ADD:
                out = z3.Sum(*ch)
            elif k == z3.Z3_OP_MUL:
                out = z3.Product(*ch)
            elif k == z3.Z3_OP_AND:
                out = z3.And(*ch)
            elif k == z3.Z3_OP_OR:
                out = z3.Or(*ch)
            else:
                out = e.decl()(*ch)
        self._abs[e.get_id()] = (e, out)
        return out

    def quick_unsat(self, exprs, timeout_ms):
        return self._check([self.abstract(e) for e in exprs], timeout_ms)[0] == z3.unsat

    def feasible(self, cond=None):
        exprs = list(self.path)
        if cond is not None:
            exprs.append(cond)
        if self.linear_branches:
            return not self.quick_unsat(exprs, self.branch_timeout_ms)
        return self._check(exprs, self.branch_timeout_ms)[0] != z3.unsat

    def implied(self, cond):
        """Whether the path condition is proved to imply cond (no obligation recorded)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        exprs = list(self.path) + [z3.Not(cond)]
        if self.linear_branches:
            return self.quick_unsat(exprs, self.branch_timeout_ms)
        return self._check(exprs, self.branch_timeout_ms)[0] == z3.unsat

    def quick_valid(self, cond):
        """Like implied, with the time limit of an obligation."""
        cond = z3.simplify(to_z3_bool(cond))
        return z3.is_true(cond) or self._check(list(self.path) + [z3.Not(cond)], self.timeout_ms)[0] == z3.unsat

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd("assumed False")
            return
        cond = to_z3_bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd("assumed False")
        self.path.append(cond)

    def assume_fact(self, cond):
        """Assumes something that is true of the terms in it whatever they are (no restriction of the path)."""
        cond = z3.simplify(to_z3_bool(cond))
        self._facts.add(cond.get_id())
        self._keep.append(cond)
        self.assume(cond)

    def decide(self, cond):
        """Fork on a symbolic condition. Returns a Python bool."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.check_time()
        i = len(self.decisions)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            can_t = self.feasible(cond)
            can_f = self.feasible(z3.Not(cond))
            if not can_t and not can_f:
                raise PathEnd("infeasible")
            b = can_t
            if can_t and can_f:
                self.pending.append(self.decisions + [False])
        self.decisions.append(b)
        self.path.append(cond if b else z3.simplify(z3.Not(cond)))
        return b

    def choose(self, n, what=""):
        """Nondeterministically pick 0..n-1, exploring every choice."""
        for k in range(n - 1):
            i = len(self.decisions)
            if i < len(self.prefix):
                b = self.prefix[i]
            else:
                b = True
                self.pending.append(self.decisions + [False])
            self.decisions.append(b)
            if b:
                return k
        return n - 1

    def explore(self, fn, name="", max_paths=4000):
        """Runs fn() once per feasible path. fn must be deterministic given the decisions."""
        stack = [[]]
        n = 0
        self.done = {}
        self.nest = ()
        while stack:
            prefix = stack.pop()
            self._reset_path(prefix)
            self.path.extend(self.base_path)
            n += 1
            self.paths_run += 1
            if n > max_paths:
                raise Unsupported(f"{name}: more than {max_paths} paths")
            try:
                fn()
            except PathEnd:
                pass
            stack.extend(self.pending)
        return n

    def sub_explore(self, fn, max_paths=400):
        """Explores fn() under the current path. Returns [(extra conds, fresh consts, result)].

        fn must not have side effects on state that outlives it.
        """
        saved = (self.prefix, self.decisions, self.pending, self.path, self.fresh_n, self.fresh_log)
        base_local = self.local
        base_path = list(self.path)
        base_n = self.fresh_n
        nest = self.nest
        self.nest = nest + ((tuple(self.decisions), base_n),)
        out = []
        stack = [[]]
        n = 0
        max_fresh = base_n
        try:
            while stack:
                prefix = stack.pop()
                self.prefix, self.decisions, self.pending = prefix, [], []
                self.path = list(base_path)
                self.fresh_n = base_n
                self.fresh_log = []
                self.local = dict(base_local)
                n += 1
                if n > max_paths:
                    raise Unsupported(f"more than {max_paths} nested paths")
                try:
                    r = fn()
                    out.append((self.path[len(base_path):], list(self.fresh_log), r))
                except PathEnd:
                    pass
                except PyExc as pe:
                    pe.path = getattr(pe, "path", None) or list(self.path)
                    raise
                max_fresh = max(max_fresh, self.fresh_n)
                stack.extend(self.pending)
        finally:
            self.prefix, self.decisions, self.pending, self.path, self.fresh_n, self.fresh_log = saved
            self.local = base_local
            self.fresh_n = max_fresh
            self.nest = nest
        return out

    def once(self, tag, fn):
        """fn() unless an earlier path has already been here with the same decisions (which determine what fn does)."""
        key = (tag, self.nest, tuple(self.decisions), self.fresh_n)
        if key in self.done:
            self.fresh_n, r = self.done[key]
            return r
        r = fn()
        self.done[key] = (self.fresh_n, r)
        return r

    # ---- obligations ---------------------------------------------------
    def cover(self, name):
        """Records that a point is reachable (vacuity guard)."""
        if self.covers.get(name):
            return
        r, _ = self._check(list(self.path), self.timeout_ms)
        if r != z3.unsat:
            self.covers[name] = True

    def expect_cover(self, name):
        self.covers.setdefault(name, False)

    def prove(self, name, cond, detail=None):
        if self.muted:
            return True
        name = self.scope_name + name
        if isinstance(cond, bool):
            if cond:
                self.obligations.append(Obligation(name, PROVED, backend="evaluation"))
                return True
            # A concretely false goal: refuted iff the path is reachable.
            cond = z3.BoolVal(False)
        else:
            cond = to_z3_bool(cond)
        t0 = time.monotonic()
        goal = z3.simplify(cond)
        if z3.is_true(goal):
            self.obligations.append(Obligation(name, PROVED, backend="z3-simplify"))
            return True
        exprs = list(self.path) + [z3.Not(goal)]
        if self.linear_branches and self.quick_unsat(exprs, self.timeout_ms):
            res, model = z3.unsat, None
        else:
            res, model = self._check(exprs, self.timeout_ms)
        dt = time.monotonic() - t0
        if res == z3.unsat:
            self.obligations.append(Obligation(name, PROVED, seconds=dt))
            return True
        if res == z3.sat:
            txt = f"goal: {short(goal)}; counter-model: {short(model)}"
            if any(mentions_real_function(e) for e in exprs):
                txt = SOFT + txt
            if detail is not None:
                try:
                    txt += "; " + (detail(model) if callable(detail) else str(detail))
                except Exception as ex:  # noqa
                    txt += f"; (detail failed: {ex!r})"
            self.obligations.append(Obligation(name, REFUTED, txt, dt))
        else:
            self.obligations.append(Obligation(name, UNDECIDED, f"solver: unknown on {short(goal)}", dt))
        return False

    def undecided(self, name, why):
        if self.muted:
            return
        self.obligations.append(Obligation(self.scope_name + name, UNDECIDED, why))

    def refute(self, name, why):
        """Obligation failed by evaluation on a feasible path."""
        if self.feasible():
            self.obligations.append(Obligation(self.scope_name + name, REFUTED, why))
        return False


# A counter-model about ln, exp, sqrt or powers need not be a number's behaviour: it only counts with a failing input.
SOFT = "[not conclusive without a failing input] "


def mentions_real_function(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in ("ln", "exp", "sqrt", "pow") and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            todo += x.children()
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return False


def short(x, n=1200):
    s = str(x).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def to_z3_bool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if hasattr(c, "z3bool"):
        return c.z3bool()
    if type(c).__module__ == "numpy":
        return z3.BoolVal(bool(c))
    return c


def frac_of(v):
    return fractions.Fraction(v)
