"""Runs the check of each planted bug's property against a patched scratch copy (development aid). python tools/catch.py [ids...]"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))


def one(i):
    pid = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    w = f"/tmp/catch/{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    r = subprocess.run(["bash", f"{V}/check.sh", pid], env=dict(os.environ, PYVC_REPO_SRC=w + "/src", PYVC_EVIDENCE="/tmp/catch/ev"), capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    v = [ln for ln in r.stdout.splitlines() if ln.startswith(("VIOLATION", "# "))]
    refuted = r.stdout.splitlines()[0] if r.stdout else r.stderr[-300:]
    return i, pid, r.returncode, refuted, v


F = V + "/tools/catch_results.json"
results = json.load(open(F)) if os.path.exists(F) else {}
with ThreadPoolExecutor(2) as ex:
    for i, pid, rc, ref, v in ex.map(one, ids):
        print(f"{'CAUGHT' if rc == 1 else 'MISSED'} {i} {pid} rc={rc} | {ref} | {v[-2][:160] if len(v) > 1 else ''} | {v[-1][-40:] if v else ''}", flush=True)
        by = "missed" if rc != 1 else "bounded contract evaluation" if "0 refuted" in ref else "refuted obligation"
        if rc == 1 and "0 refuted" not in ref and "no-failing-input-found" not in v[-1]:
            by += " + failing input"
        results[i] = {"property": pid, "by": by}
results = {k: x for k, x in results.items() if os.path.isdir(f"{V}/seeded/{k}")}
json.dump(results, open(F, "w"), indent=1, sort_keys=True)
