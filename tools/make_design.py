"""Writes DESIGN.md from DESIGN.in.md, the contract modules and the recorded results on the planted changes."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
check.setup_path()


def table():
    out = []
    for line in open(os.path.join(here, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module(f"contracts.{p['id'].lower()}")
        lv = getattr(m, "LEVEL", "proof")
        out.append(f"### {p['id']} {p['title']} - `{lv}`\n")
        ex = getattr(m, "EXPLANATION", "") or getattr(m, "NOTE", "")
        if ex:
            out.append(f"*Discharged:* {ex.strip().rstrip('.')}.\n")
        why = getattr(m, "WHY_NOT", "")
        if why:
            out.append(f"*Not discharged, and why:* {why}\n")
        out.append(f"*Bounded stand-in / replay:* {m.BOUND}.\n")
        out.append(f"*Beyond the tests because:* {p['why_tests_cant']}.\n")
    return "\n".join(out)


def seeds():
    f = os.path.join(here, "tools", "catch_results.json")
    if not os.path.exists(f):
        return ""
    out = ["| change | property | needs | caught by |", "| --- | --- | --- | --- |"]
    for i, r in sorted(json.load(open(f)).items()):
        meta = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
        out.append(f"| {i} | {r['property']} | {meta['needs']} | {r['by']} |")
    return "\n".join(out)


s = open(os.path.join(here, "DESIGN.in.md")).read().replace("PLACEHOLDER_TABLE", table()).replace("PLACEHOLDER_SEEDS", seeds())
open(os.path.join(here, "DESIGN.md"), "w").write(s)
