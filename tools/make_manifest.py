"""Writes MANIFEST.json from the contract modules (LEVEL, NOTE, TECHNIQUE attributes)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.setup_path()
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "contracts on the real functions, discharged by symbolic execution of their source + Z3 (pyvc)"
MIXED = PROOF + "; the rest of the contract evaluated at run time on a bounded domain"
BOUNDED = "run-time checked contract on the real functions over a bounded domain (bounded stand-in, no obligation discharged)"


def main():
    checks = []
    for line in open(os.path.join(here, "properties.jsonl")):
        p = json.loads(line)["id"]
        m = importlib.import_module(f"contracts.{p.lower()}")
        lv = getattr(m, "LEVEL", "proof")
        note = getattr(m, "NOTE", "") or getattr(m, "EXPLANATION", "")
        checks.append({
            "property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
            "technique": {"proof": PROOF, "other": MIXED, "exploration": BOUNDED}[lv], "level": lv,
            "level_note": (note + ". " if note else "") + "Bounded stand-in / replay harness: " + m.BOUND
            + ". Trusts: pyvc (interpreter of the Python AST, cross-checked against CPython on every run), Z3, and stim, numpy, scipy, networkx, "
              "pymatching as executed; floats are treated as reals in proofs."})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import check; check.setup_path(); import z3, stim, numpy'", "checks": checks,
           "not_applicable": [],
           "notes": "No hooks in /repo. Ten 'fix:' commits repair genuine defects, see known_findings.txt and DESIGN.md."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
