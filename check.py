"""Decides one property of /repo: python check.py <ID>  (run by check.sh with /opt/venv's Python).

Phases (separate processes, so that a crash or a timeout of one does not hide the other):
  proof    contracts/cXX.py:prove  - obligations generated from /repo's current source, discharged by Z3
  bounded  contracts/cXX.py:cases/run_case - the same contract evaluated at run time on the real code
           (stand-in for what the proof leaves undecided, and the replay harness for counter-models)
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")
sys.dont_write_bytecode = True


def setup_path():
    for p in (REPO_SRC, VERIF):
        if p not in sys.path:
            sys.path.insert(0, p)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def load(pid):
    setup_path()
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter("ignore")
    return importlib.import_module(f"contracts.{pid.lower()}")


# ------------------------------------------------------------------ phases
def phase_proof(pid, out, limit):
    mod = load(pid)
    from pyvc.prover import Prover
    P = Prover(deadline=time.monotonic() + limit, timeout_ms=getattr(mod, "SOLVER_MS", 20000))
    P.tier = os.environ.get("VERIF_TIER", "quick")
    try:
        mod.prove(P)
    except Exception as ex:  # noqa
        P.errors.append("prove(): " + "".join(traceback.format_exception(ex))[-3000:])
    with open(out, "w") as f:
        json.dump(P.report(), f)


class CaseTimeout(BaseException):
    pass


def run_one(mod, case, limit=120):
    """Returns None (held), ('violation', msg) or ('skip', msg)."""
    from contracts import common

    def onalarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        msg = mod.run_case(case)
        return None if msg is None else ("violation", msg)
    except common.Broken as ex:
        return ("violation", str(ex))
    except common.NotApplicable as ex:
        return ("skip", str(ex))
    except CaseTimeout:
        if getattr(mod, "HANG_IS_VIOLATION", False):
            return ("violation", f"did not finish within {limit} s")
        return ("skip", f"did not finish within {limit} s")
    except Exception as ex:  # noqa
        # Raised inside of the code under test on an input the contract covers: a violation.
        tb = traceback.extract_tb(ex.__traceback__)
        if any(fr.filename.startswith(REPO_SRC) for fr in tb):
            return ("violation", f"the code under test raised {type(ex).__name__}: {str(ex)[:500]}")
        return ("skip", "harness: " + "".join(traceback.format_exception(ex))[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_MOD = None


def _worker_init(pid):
    global _MOD
    _MOD = load(pid)
    import faulthandler
    # Quiet the code under test.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("PYVC_DEBUG"):
        os.dup2(devnull, 2)


def _worker(chunk):
    return [(case, run_one(_MOD, case, getattr(_MOD, "CASE_LIMIT", 120))) for case in chunk]


def phase_bounded(pid, out, budget, seed, tier):
    mod = load(pid)
    rng = random.Random(seed)
    t0 = time.monotonic()
    res = {"evaluations": 0, "distinct": 0, "violations": [], "skips": [], "samples": [], "complete": True}
    seen = set()
    workers = min(int(os.environ.get("PYVC_WORKERS", "6")), 6)
    with multiprocessing.Pool(workers, initializer=_worker_init, initargs=(pid,)) as pool:
        slots = threading.Semaphore(workers * 3)

        def gen():
            chunk = []
            for c in mod.cases(tier, rng):
                if time.monotonic() - t0 > budget:
                    res["complete"] = False
                    break
                chunk.append(c)
                if len(chunk) >= getattr(mod, "CHUNK", 1):
                    slots.acquire()
                    yield chunk
                    chunk = []
            if chunk:
                yield chunk
        it = pool.imap_unordered(_worker, gen())
        stop = False
        while not stop:
            try:
                results = it.next(timeout=budget + 300)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                res["complete"] = False
                res["skips"].append([None, "pool timeout"])
                break
            slots.release()
            for case, r in results:
                res["evaluations"] += 1
                key = json.dumps(case, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    if r is None or r[0] != "skip":
                        res["distinct"] += 1
                if len(res["samples"]) < 4:
                    res["samples"].append(case)
                if r is not None:
                    (res["violations"] if r[0] == "violation" else res["skips"]).append([case, r[1]])
                    stop = stop or len(res["violations"]) >= 5
        for _ in range(1000):
            slots.release()
        pool.terminate()
    res["wall"] = time.monotonic() - t0
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------ driver
def read_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                known.append(line[len("known:"):].strip())
    return known


def write_replay(pid, obj):
    d = os.path.join(os.environ.get("PYVC_EVIDENCE") or VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(obj, indent=1, sort_keys=True, default=str)
    path = os.path.join(d, f"{pid}-{hashlib.sha1(txt.encode()).hexdigest()[:12]}.json")
    with open(path, "w") as f:
        f.write(txt)
    return path


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        phase = sys.argv[2]
        if phase == "proof":
            phase_proof(pid, sys.argv[3], float(sys.argv[4]))
        elif phase == "bounded":
            phase_bounded(pid, sys.argv[3], float(sys.argv[4]), int(sys.argv[5]), sys.argv[6])
        elif phase == "replay":
            mod = load(pid)
            with open(sys.argv[3]) as f:
                obj = json.load(f)
            r = run_one(mod, obj["case"]) if obj.get("case") is not None else None
            print(obj.get("obligation"), "->", r)
            sys.exit(1 if r is not None and r[0] == "violation" else 0)
        return
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    budget = getattr(mod, "BUDGET", {"quick": 150, "thorough": 1200})[tier]
    plimit = getattr(mod, "PROOF_LIMIT", {"quick": 420, "thorough": 3000})[tier]
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", VERIF_TIER=tier)
        me = os.path.abspath(__file__)
        po, bo = os.path.join(d, "proof.json"), os.path.join(d, "bounded.json")
        pe, be = open(os.path.join(d, "pe"), "w+"), open(os.path.join(d, "be"), "w+")
        have_bounded = hasattr(mod, "cases")
        pp = subprocess.Popen([sys.executable, me, pid, "proof", po, str(plimit)], env=env, stdout=pe, stderr=pe, cwd=d)
        bp = None
        if have_bounded:
            bp = subprocess.Popen([sys.executable, me, pid, "bounded", bo, str(budget), str(seed), tier], env=env, stdout=be, stderr=be, cwd=d)
        try:
            pp.wait(timeout=plimit + 60)
        except subprocess.TimeoutExpired:
            pp.kill()
        if bp is not None:
            try:
                bp.wait(timeout=max(1, budget + 240 - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                bp.kill()
        proof = json.load(open(po)) if os.path.exists(po) else {
            "obligations": [["(proof phase)", "undecided", "the proof process did not finish", 0, ""]], "functions": [],
            "assumptions": [], "solver_seconds": 0, "solver_calls": 0, "paths": 0, "witnesses": [], "xchecked": 0,
            "errors": [], "invariants": {}, "died": True}
        bounded = json.load(open(bo)) if os.path.exists(bo) else None
        pe.seek(0), be.seek(0)
        ptxt, btxt = pe.read()[-3000:], be.read()[-3000:]

    obs = proof["obligations"]
    proved = [o for o in obs if o[1] == "proved"]
    refuted = [o for o in obs if o[1] == "refuted"]
    undecided = [o for o in obs if o[1] == "undecided"]
    violations = []     # (case, message, obligation)
    # 1. failing inputs found by evaluating the contract on the real code
    for case, msg in (bounded or {}).get("violations", []):
        violations.append((case, msg, None))
    # 2. counter-models replayed on the real code
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    try:
        for name, case in proof["witnesses"][:40]:
            r = run_one(mod, case, getattr(mod, "CASE_LIMIT", 120))
            if r is not None and r[0] == "violation":
                violations.append((case, r[1], name))
                break
    finally:
        sys.stdout.flush()
        os.dup2(saved[0], 1)
    if not violations:
        soft = [o for o in refuted if o[2].startswith("[not conclusive without a failing input]")]
        refuted = [o for o in refuted if o not in soft]
        undecided = undecided + soft
    known = read_known()
    lines = []
    n_viol = 0
    for case, msg, name in violations:
        ident = json.dumps(case, sort_keys=True)
        k = [x for x in known if x.startswith(f"property={pid} ") and ident in x]
        if k:
            lines.append(f"KNOWN-FINDING: {k[0]}")
            continue
        path = write_replay(pid, {"property": pid, "case": case, "message": msg,
                                  "obligation": name or (refuted[0][0] if refuted else None),
                                  "failed_obligations": refuted[:20],
                                  "how": f"python check.py {pid} replay <this file>"})
        n_viol += 1
        lines.append(f"# {msg[:600]}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        break
    if not n_viol and refuted:
        path = write_replay(pid, {"property": pid, "case": None, "obligation": refuted[0][0],
                                  "failed_obligations": refuted[:20],
                                  "verifier_output": refuted[0][2]})
        n_viol += 1
        lines.append(f"# obligation refuted: {refuted[0][0]}: {refuted[0][2][:600]}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    # "proof": every obligation discharged and they cover the statement; "other": obligations cover part of it and the rest is
    # bounded; "exploration": nothing but the bounded stand-in.
    level = getattr(mod, "LEVEL", "proof")
    if undecided and proved:
        level = "other"
    elif not proved:
        level = "exploration"
    trusted = ["Z3 5.3 (python z3-solver)", "pyvc: symbolic interpreter of the Python AST and its library models (/verif/pyvc), "
               "cross-checked against CPython on concrete inputs each run", "CPython, stim, numpy, networkx, pymatching, scipy as executed"]
    trusted += getattr(mod, "TRUSTED", [])
    cov = {
        "obligations": len(obs), "discharged": len(proved),
        "checker_cmd": f"bash check.sh {pid}",
        "level_meaning": "proof: all of the statement is covered by the obligations; other: part of it, the rest is bounded (see rule); exploration: bounded only",
        "trusted_base": trusted,
        "functions_under_contract": proof["functions"],
        "backends": {b: sum(1 for o in proved if o[4] == b) for b in sorted({o[4] for o in proved})},
        "solver_seconds": proof["solver_seconds"], "solver_calls": proof["solver_calls"],
        "symbolic_paths": proof["paths"],
        "loop_invariants": proof["invariants"],
        "undecided": [[o[0], o[2][:400]] for o in undecided][:40],
        "refuted": [[o[0], o[2][:400]] for o in refuted][:40],
        "interpreter_crosschecks": proof["xchecked"],
        "obligation_names": sorted({o[0] for o in obs})[:400],
        "explanation": getattr(mod, "EXPLANATION", "") or (
            "Obligations (counted under obligations/discharged) are decided by Z3 on the interpreted source; everything else "
            "is the same contract evaluated on the real code over the bounded domain described in `rule` - never counted as proved."),
    }
    if bounded is not None:
        cov["bounded_stand_in"] = {
            "evaluations": bounded["evaluations"], "distinct_nontrivial": bounded["distinct"],
            "all_generated_cases_run": bounded["complete"], "skipped": len(bounded["skips"]),
            "skip_reasons": sorted({s[1][-400:] for s in bounded["skips"]})[:5],
            "rule": getattr(mod, "BOUND", ""), "wall_s": round(bounded["wall"], 1)}
        cov["samples"] = bounded["samples"]
        cov["evaluations"] = bounded["evaluations"]
        cov["distinct_nontrivial"] = bounded["distinct"]
        cov["rule"] = getattr(mod, "BOUND", "") or "see cases() of the contract module; a case is non-trivial when its precondition held and it was decided"
    evdir = os.environ.get("PYVC_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": proof["assumptions"] + getattr(mod, "ASSUMPTIONS", []) + proof["errors"],
          "wall_s": round(time.monotonic() - t0, 2), "violations": n_viol}
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(proved)}/{len(obs)} obligations discharged, {len(refuted)} refuted, {len(undecided)} undecided; "
          f"{proof['solver_seconds']} s of solver time; bounded: "
          f"{(bounded or {}).get('evaluations', 0)} cases; {ev['wall_s']} s")
    for o in undecided[:5]:
        print(f"# undecided: {o[0]}: {o[2][:300]}")
    for e in proof["errors"][:5]:
        print(f"# engine: {e[:1500]}")
    for s in (bounded or {}).get("skips", [])[:3]:
        print(f"# skipped: {str(s)[:800]}")
    for ln in lines:
        print(ln)
    if n_viol:
        sys.exit(1)
    if bounded is None and have_bounded:
        print("# bounded phase failed:", btxt)
        sys.exit(3)
    if not proved and (bounded is None or bounded["distinct"] == 0):
        print("# nothing was decided:", ptxt, btxt)
        sys.exit(3)
    if proof.get("died"):
        print("# proof phase died:", ptxt[-600:])
    sys.exit(0)


if __name__ == "__main__":
    main()
