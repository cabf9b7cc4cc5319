#!/usr/bin/env python3
"""seedtest.py ID...: for each planted bug, in a scratch copy of /repo: the patch applies, the stable tests
pass with it, demo.sh exits 0 without it and non-zero with it.  With --checks also runs this property's
check against /repo with the patch applied (and undoes it)."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    b = base
    for k in ("stable", "passed", "tests", "pass"):
        if isinstance(b, dict) and k in b: return set(b[k])
    return set()
def sh(cmd, cwd, env=None, t=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
args = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
notests = "--notests" in sys.argv
for i in args:
    d = f"{HERE}/seeded/{i}"
    tmp = tempfile.mkdtemp(prefix="seed")
    sh(f"git -C /repo archive HEAD | tar -x -C {tmp}", "/")
    env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    a = sh(f"bash {d}/demo.sh", tmp, env)
    p = sh(f"git apply --unsafe-paths --directory={tmp} {d}/patch.diff || patch -p1 -d {tmp} < {d}/patch.diff", tmp)
    b = sh(f"bash {d}/demo.sh", tmp, env)
    res = f"{i}: demo clean={a.returncode} patched={b.returncode} apply={p.returncode}"
    if a.returncode: res += " CLEAN-OUT " + (a.stdout + a.stderr)[-400:]
    if not notests:
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 2>&1 | tail -6", tmp, env)
        res += " tests: " + t.stdout.strip().replace("\n", " | ")[-300:]
    print(res, flush=True)
    shutil.rmtree(tmp)
