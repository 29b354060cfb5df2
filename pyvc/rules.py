"""Loop rules: how a loop over symbolic state is replaced by proof obligations.

InvariantRule   while/for loops: a set of candidate invariants over the numeric variables the loop
                changes is reduced to the largest inductive subset (Houdini), each survivor proved at
                entry and preserved by the body; what follows the loop is then checked from an
                arbitrary state satisfying the survivors and the exit condition. A variant, when
                given, is proved to decrease and stay non-negative (termination).
"""
import ast
import itertools

import z3

from . import core, values
from .core import PathEnd, PyExc, Unsupported, engine
from .interp import _Break, _Continue, _Return, Scope, assigned_names
from .values import SBool, SNum, Sym, as_num, is_sym, land, lnot, zb


def fresh_like(v, name):
    eng = engine()
    if isinstance(v, bool) or isinstance(v, SBool):
        return SBool(eng.fresh(name, z3.BoolSort()))
    if isinstance(v, SNum):
        return SNum(eng.fresh(name, v.e.sort()), v.den if v.is_int_sort else 1)
    if isinstance(v, int):
        return SNum(eng.fresh(name, z3.IntSort()))
    if isinstance(v, float):
        return SNum(eng.fresh(name, z3.RealSort()))
    return None


def variant_step(after, before):
    """after, before: integer measure, or (real measure, factor) for a real measure shrinking by a factor."""
    if isinstance(before, tuple):
        return land(as_num(after[0]) * before[1] <= before[0], as_num(before[0]) >= 0)
    return land(as_num(after) < before, as_num(before) >= 0)


def loop_names(node):
    names = assigned_names(node.body)
    if isinstance(node, ast.For):
        names |= assigned_names([ast.Assign(targets=[node.target], value=None)])
    return names


class InvariantRule:
    """candidates(env) -> dict name -> SBool, env = {var: value}; called on entry/havoced/after states."""
    def __init__(self, name, fn_name, candidates, variant=None, ghosts=None, on_iteration=None, is_loop=None,
                 sorts=None, min_matches=1):
        self.name = name
        self.fn_name = fn_name
        self.candidates = candidates
        self.variant = variant
        self.ghosts = ghosts or {}
        self.is_loop = is_loop
        self.on_iteration = on_iteration
        self.sorts = sorts or {}
        self.cache = {}

    def matches(self, interp, node, scope):
        if not isinstance(node, ast.While) and self.is_loop is None:
            return False
        fn = scope.fn
        if fn is None or not any(fn.qualname.endswith(x) for x in ([self.fn_name] if isinstance(self.fn_name, str) else self.fn_name)):
            return False
        return self.is_loop is None or self.is_loop(node, scope)

    # -- helpers
    def numeric_env(self, scope):
        env = {}
        s = scope
        while s is not None:
            for k, v in s.vars.items():
                if k not in env and (isinstance(v, (SNum, SBool, int, float)) and not isinstance(v, Sym) or isinstance(v, (SNum, SBool))):
                    env[k] = v
            s = s.parent
        return env

    def run_while(self, interp, node, scope):
        eng = engine()
        changed = sorted(n for n in loop_names(node) if n in scope.vars)
        entry = dict(scope.vars)
        entry_env = self.numeric_env(scope)
        # sorts: a variable may start int and become real; use the widest seen.
        g_keys = list(self.ghosts)
        g_entry = {g: eng.ghost.get(g, self.ghosts[g]) for g in g_keys}

        def havoc():
            sc = scope.clone()
            for n in changed:
                v = entry[n]
                if n in self.sorts:
                    v = self.sorts[n]
                f = fresh_like(v, n)
                if f is None:
                    if getattr(v, "havoc", None) is not None:
                        sc.vars[n] = v.havoc(n)
                    continue
                sc.vars[n] = f
            for g in g_keys:
                eng.ghost[g] = fresh_like(g_entry[g], g)
            return sc

        key = (id(node), tuple(sorted(p.get_id() for p in eng.path)))
        cands0 = self.candidates(dict(entry_env), entry_env, {g: g_entry[g] for g in g_keys})
        names = list(cands0)
        # Entry check: drop candidates that do not hold at loop entry.
        keep = [n for n in names if eng.implied(zb(cands0[n]))]
        saved_ghost = dict(eng.ghost)

        def one_iteration(keep_names, record):
            """Runs guard+body from an arbitrary state satisfying keep_names."""
            def run():
                eng.ghost.update({g: g_entry[g] for g in g_keys})
                sc = havoc()
                env0 = self.numeric_env(sc)
                g0 = {g: eng.ghost[g] for g in g_keys}
                cs = self.candidates(env0, entry_env, g0)
                for n in keep_names:
                    if n in cs:
                        eng.assume(zb(cs[n]))
                if not interp.truth(interp.eval(node.test, sc)):
                    return ("exit", None)
                v0 = self.variant(env0, entry_env, g0) if self.variant else {}
                try:
                    interp.exec_block(node.body, sc)
                except _Break:
                    return ("break", None)
                except _Continue:
                    pass
                except _Return:
                    return ("return", None)
                except PyExc:
                    return ("raise", None)
                env1 = self.numeric_env(sc)
                g1 = {g: eng.ghost[g] for g in g_keys}
                cs1 = self.candidates(env1, entry_env, g1)
                res = {}
                for n in keep_names:
                    c = cs1.get(n)
                    res[n] = c is not None and (c is True or eng.implied(zb(c)))
                if record:
                    for n in keep_names:
                        eng.prove(f"{self.name}: invariant [{n}] preserved by the loop body", cs1[n])
                if v0:
                    v1 = self.variant(env1, entry_env, g1)
                    res["__variants__"] = {n for n in v0 if n in v1 and eng.implied(zb(variant_step(v1[n], v0[n])))}
                return ("next", res)
            eng.muted += 0 if record else 1
            try:
                return eng.sub_explore(run)
            finally:
                eng.muted -= 0 if record else 1

        ck = self.cache.get(key)
        if ck is not None:
            keep = ck
        else:
            for _ in range(len(keep) + 2):
                outs = one_iteration(keep, False)
                bad = set()
                for _, _, (kind, res) in outs:
                    if kind == "next":
                        bad |= {n for n, ok in res.items() if n != "__variants__" and not ok}
                if not bad:
                    break
                keep = [n for n in keep if n not in bad]
            self.cache[key] = list(keep)
            for n in keep:
                eng.prove(f"{self.name}: invariant [{n}] holds at loop entry", cands0[n])
            outs = one_iteration(keep, True)
            if self.variant:
                vs = [r["__variants__"] for _, _, (kind, r) in outs if kind == "next"]
                common = set.intersection(*vs) if vs else {"(no iteration)"}
                if common:
                    eng.prove(f"{self.name}: a variant decreases on every iteration and stays non-negative", True)
                    eng.loop_variants = sorted(common)
                else:
                    eng.undecided(f"{self.name}: a variant decreases on every iteration", "no candidate variant was proved to decrease")
            eng.ghost.setdefault("invariants", {})[self.name] = list(keep)
            eng.loop_invariants = getattr(eng, "loop_invariants", {})
            eng.loop_invariants.setdefault(self.name, sorted(keep))
        eng.ghost.clear()
        eng.ghost.update(saved_ghost)
        # Continue from an arbitrary reachable state: take one more (possibly exiting) iteration.
        sc = havoc()
        env0 = self.numeric_env(sc)
        cs = self.candidates(env0, entry_env, {g: eng.ghost[g] for g in g_keys})
        for n in keep:
            if n in cs:
                eng.assume(zb(cs[n]))
        for n in changed:
            scope.vars[n] = sc.vars[n]
        # Which way does the arbitrary iteration leave the loop?
        if not interp.truth(interp.eval(node.test, scope)):
            interp.exec_block(node.orelse, scope)
            return
        try:
            interp.exec_block(node.body, scope)
        except _Break:
            return
        except _Continue:
            pass
        # Normal end of the body: covered by the preservation obligations.
        raise PathEnd("loop iteration")
