"""Makes /verif/seeded/<id>/ from a spec (python tools/seed.py SPEC.py [ids...]). Development aid only; no check uses it.

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)].
Everything runs in a scratch copy of /repo under /tmp, bind-free: tests run with rootdir = the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
PY = "/opt/venv/bin/python"

for b in spec["BUGS"]:
    if want and b["id"] not in want:
        continue
    w = f"/tmp/seedw/{b['id']}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    d = f"/tmp/seedw/{b['id']}.demo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.py", "w").write("import sys\nsys.path.insert(0, 'src')\nimport warnings\nwarnings.simplefilter('ignore')\n" + b["demo"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# Runs in the repository: exit 0 when the property holds.\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True, timeout=300)
    for f, old, new in [(e if len(e) == 3 else (b["file"], *e)) for e in b["edits"]]:
        s = open(f"{w}/{f}").read()
        assert s.count(old) == 1, (b["id"], s.count(old), old)
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=env, capture_output=True, text=True, timeout=300)
    t = subprocess.run([PY, "-m", "pytest", "src", "-q", "-x", "-p", "no:cacheprovider", f"--rootdir={w}", "-n", "8", "--timeout=300", "--disable-warnings",
                        "--tb=line", f"--junitxml={w}/j.xml"], cwd=w, env=env, capture_output=True, text=True)
    os.remove(f"{w}/j.xml") if os.path.exists(f"{w}/j.xml") else None
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    print(b["id"], b["property"], "OK" if ok else "REJECT", "clean", r0.returncode, "patched", r1.returncode, "tests", t.stdout.strip().splitlines()[-1])
    if not ok:
        print(r0.stderr[-600:], "|||", r1.stderr[-300:], [l for l in t.stdout.splitlines() if "FAILED" in l][:3])
    else:
        out = f"/verif/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(d + "/" + n, out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
