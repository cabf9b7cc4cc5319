"""Runner of the bounded API-level cross-check (never counted as proved) and of replays."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import signal
import time
import traceback
import warnings
import zlib

import numpy as np


def _enc(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): _enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [_enc(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def seed_of(seed, pid, name, i):
    return zlib.crc32(f"{seed}/{pid}/{name}".encode()) * 100003 + i


CASE_LIMIT = 90      # seconds; a case takes well under one


class Hang(Exception):
    """The code under test did not come back."""


def _hang(sig, frame):
    raise Hang(f"no result within {CASE_LIMIT} s")


def run_case(pid, name, seed, i, tier):
    """-> (status, msg, data); status in ok, skip, fail, error"""
    from . import gen, oracles1, oracles2, oracles3  # noqa: F401

    P = gen.load()
    fn = dict((n, f) for n, f, _ in oracles1.CASES[pid])[name]
    g = gen.Gen(seed_of(seed, pid, name, i), P, tier, i)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, _hang)
    signal.alarm(CASE_LIMIT)
    try:
        r = fn(g)
        return ("skip" if r == "skip" else "ok"), None, None
    except gen.Fail as f:
        return "fail", f.msg, _enc(f.data)
    except Exception as ex:  # the real code raised where the property says it works
        tb = traceback.extract_tb(ex.__traceback__)
        inrepo = any(fr.filename.startswith(gen.REPO) for fr in tb)
        data = {"traceback": traceback.format_exc().splitlines()[-12:]}
        return ("fail" if inrepo else "error"), f"{type(ex).__name__}: {ex}", data
    finally:
        signal.alarm(0)


def _worker(args):
    pid, seed, tier, w, nw, budget, maxn, stop = args
    from . import gen, oracles1, oracles2, oracles3  # noqa: F401

    gen.load()
    cases = oracles1.CASES.get(pid, [])
    t0 = time.time()
    cnt = {"evaluations": 0, "skipped": 0, "per_case": {}}
    # schedule: proportional to weight, deterministic
    done = {n: 0 for n, _, _ in cases}
    res = None
    while time.time() - t0 < budget and not os.path.exists(stop):
        name, _, wt = min(cases, key=lambda c: (done[c[0]] + 1) / c[2])
        k = done[name]
        done[name] += 1
        i = k * nw + w
        if i >= maxn:
            if all(done[n] * nw + w >= maxn for n, _, _ in cases):
                break
            continue
        st, msg, data = run_case(pid, name, seed, i, tier)
        cnt["evaluations"] += 1
        cnt["per_case"][name] = cnt["per_case"].get(name, 0) + 1
        if st == "skip":
            cnt["skipped"] += 1
        if st in ("fail", "error"):
            res = {"status": st, "case": name, "index": i, "message": msg, "data": data, "seed": seed, "tier": tier}
            open(stop, "w").close()
            break
    return cnt, res


def run(pid, seed, tier, budget, maxn=10 ** 9, workers=None):
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    workers = workers or min(8, os.cpu_count() or 1)
    import tempfile

    d = tempfile.mkdtemp(prefix="vcb")
    stop = os.path.join(d, "stop")
    try:
        ctx = mp.get_context("fork")
        with ctx.Pool(workers) as pool:
            out = pool.map(_worker, [(pid, seed, tier, w, workers, budget, maxn, stop) for w in range(workers)], chunksize=1)
    finally:
        if os.path.exists(stop):
            os.unlink(stop)
        os.rmdir(d)
    tot = {"evaluations": 0, "skipped": 0, "per_case": {}}
    fails = []
    for cnt, res in out:
        tot["evaluations"] += cnt["evaluations"]
        tot["skipped"] += cnt["skipped"]
        for k, v in cnt["per_case"].items():
            tot["per_case"][k] = tot["per_case"].get(k, 0) + v
        if res:
            fails.append(res)
    fails.sort(key=lambda r: (r["status"] != "fail", r["case"], r["index"]))
    return tot, fails


if __name__ == "__main__":
    import sys

    pids = sys.argv[2].split(",") if len(sys.argv) > 2 else [f"C{i:02d}" for i in range(1, 32)]
    for pid in pids:
        t = time.time()
        tot, fails = run(pid, int(os.environ.get("VERIF_SEED", "1")), "quick", float(sys.argv[1]) if len(sys.argv) > 1 else 5)
        print(pid, tot, f"{time.time() - t:.1f}s", "OK" if not fails else "")
        for f in fails[:2]:
            print("   ", f["status"], f["case"], f["index"], f["message"], json.dumps(f["data"])[:1500])
