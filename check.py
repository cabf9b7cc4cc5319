#!/usr/bin/env python3
"""check.py --property Cxx          decide one property on /repo's current working tree
   check.py --replay FILE           run a recorded failing input against /repo's current tree again

Exit 0: held; exit 1 + VIOLATION line: broken.  VERIF_SEED, VERIF_TIER (quick | thorough) from the environment.
"""
from __future__ import annotations

import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
os.environ["PYTHONHASHSEED"] = "0"
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VT, [VT, "-B", os.path.abspath(__file__)] + sys.argv[1:])
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

# bounded cross-check: cases per property (quick), fixed so that a run does not depend on machine speed
CASES_QUICK = {"C03": 5000, "C06": 5000, "C07": 5000, "C10": 5000, "C16": 5000, "C20": 6000, "C21": 5000, "C22": 4000}
DEFAULT_CASES = 12000


def replay_path(pid, n=0):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{pid}-{n}.json")


def write_replay(pid, obj):
    p = replay_path(pid)
    with open(p, "w") as f:
        json.dump(obj, f, indent=1, default=repr)
    return p


def do_replay(path):
    from vc import bounded

    r = json.load(open(path))
    if r.get("kind") != "concrete":
        print("no failing input recorded; failed obligation:", r.get("obligation"))
        print(r.get("verifier_output"))
        return 1
    st, msg, data = bounded.run_case(r["property"], r["case"], r["seed"], r["index"], r["tier"])
    print(st, msg, json.dumps(data, default=repr)[:4000] if data else "")
    return 0 if st in ("ok", "skip") else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--no-bounded", action="store_true", help="development only")
    ap.add_argument("--no-proof", action="store_true", help="development only")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    pid = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    from vc import bounded
    from vc.report import Report, MANIFEST_LEVEL, write_evidence

    rep = Report(pid)
    if not a.no_proof:
        from vc import prove

        rep = prove.run(pid, tier)
    refuted = rep.refuted()
    weak = rep.undecided()

    maxn = CASES_QUICK.get(pid, DEFAULT_CASES)
    budget = 12.0
    if tier == "thorough":
        maxn, budget = maxn * 50, 240.0
    elif weak or refuted:
        maxn, budget = maxn * 6, 40.0       # a lost proof: look harder for a failing input
    if a.no_bounded:
        cnt, fails = {"evaluations": 0, "skipped": 0, "per_case": {}}, []
    else:
        cnt, fails = bounded.run(pid, seed, tier, budget, maxn)
    real = [f for f in fails if f["status"] == "fail"]
    errs = [f for f in fails if f["status"] == "error"]

    from vc.known import known_findings

    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    violation = None
    if real:
        f = real[0]
        path = write_replay(pid, {"kind": "concrete", "property": pid, **f,
                                  "failed_obligations": [o.as_json() for o in refuted + weak][:20],
                                  "how": f"python3 {HERE}/check.py --replay <this file>"})
        violation = f"VIOLATION property={pid} replay={path}"
        print(f"{pid}: {f['case']} #{f['index']}: {f['message']}")
    elif refuted:
        o = refuted[0]
        path = write_replay(pid, {"kind": "obligation", "property": pid, "obligation": o.name,
                                  "function": o.fn, "verifier_output": o.detail,
                                  "all_failed": [x.as_json() for x in refuted]})
        violation = f"VIOLATION property={pid} replay={path} no-failing-input-found"
        print(f"{pid}: obligation refuted: {o.name}\n{o.detail}")

    write_evidence(HERE, pid, tier, seed, rep, cnt, MANIFEST_LEVEL, time.time() - t0, 1 if violation else 0)
    for o in weak:
        print(f"UNDECIDED (bounded stand-in used): {o.name}: {str(o.detail)[:300]}")
    print(f"{pid}: {len(rep.obligations)} obligations, {rep.discharged()} discharged; "
          f"{cnt['evaluations']} bounded cross-check cases; {time.time() - t0:.1f}s")
    if violation:
        print(violation)
        return 1
    if errs and not rep.all_proved():
        print("harness error:", errs[0]["case"], errs[0]["message"], errs[0]["data"])
        return 3
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
