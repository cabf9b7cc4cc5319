"""Obligation records and the evidence file."""
from __future__ import annotations

import json
import os


class Obligation:
    def __init__(self, name, fn, status, how="", seconds=0.0, detail=""):
        self.name, self.fn, self.status, self.how = name, fn, status, how
        self.seconds, self.detail = seconds, detail

    def as_json(self):
        return {"name": self.name, "function": self.fn, "status": self.status, "how": self.how,
                "seconds": round(self.seconds, 3), "detail": str(self.detail)[:2000]}


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []          # contract obligations
        self.functions = set()         # repo functions executed under contract
        self.assumptions = []          # stated per property
        self.bounds = []               # stand-ins and their bounds
        self.stats = {}
        self.vacuity = []              # reachability checks (name, ok)
        self.paths = 0

    def refuted(self):
        return [o for o in self.obligations if o.status == "refuted"]

    def undecided(self):
        return [o for o in self.obligations if o.status in ("unknown", "unsupported")]

    def discharged(self):
        return sum(o.status == "proved" for o in self.obligations)

    def all_proved(self):
        return bool(self.obligations) and self.discharged() == len(self.obligations)


MANIFEST_LEVEL = {}
try:
    _m = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")))
    MANIFEST_LEVEL = {c["property"]: c["level"] for c in _m["checks"]}
except Exception:
    pass


def write_evidence(here, pid, tier, seed, rep, cnt, levels, wall, violations):
    level = levels.get(pid, "other")
    if level == "proof" and not rep.all_proved():
        level = "other"       # on this tree the obligations do not settle the property
    how = {}
    for o in rep.obligations:
        if o.status == "proved":
            how[o.how] = how.get(o.how, 0) + 1
    by_fn = {}
    for o in rep.obligations:
        d = by_fn.setdefault(o.fn, [0, 0])
        d[0] += 1
        d[1] += o.status == "proved"
    cov = {
        "obligations": len(rep.obligations),
        "discharged": rep.discharged(),
        "checker_cmd": f"python3 check.py --property {pid}",
        "trusted_base": TRUSTED,
        "discharged_by": how,
        "obligations_by_contract": {k: {"generated": v[0], "discharged": v[1]} for k, v in sorted(by_fn.items())},
        "functions_under_contract": sorted(rep.functions),
        "paths": rep.paths,
        "solver": rep.stats,
        "vacuity_checks": [{"name": n, "ok": ok} for n, ok in rep.vacuity],
        "undischarged": [o.as_json() for o in rep.obligations if o.status != "proved"],
        "samples": [o.as_json() for o in rep.obligations[:3]],
        "bounded_cross_check": {"evaluations": cnt["evaluations"], "skipped": cnt["skipped"],
                                "per_case": cnt["per_case"], "counted_as_proof": False,
                                "bounds": rep.bounds or ["p <= 6 (thorough: 8), streams up to a few hundred rows, seeded random histories"]},
    }
    if level in ("other", "exploration"):
        cov["evaluations"] = cnt["evaluations"]
        cov["distinct_nontrivial"] = cnt["evaluations"] - cnt["skipped"]
        cov["rule"] = "seeded random histories over adversarial stream shapes; a case is skipped (trivial) when its precondition does not hold"
        cov["explanation"] = ("Deductive obligations on the functions listed; what they do not cover is decided by the "
                              "bounded cross-check only.")
        cov["samples"] = cov["samples"] or [{"case": k, "seed": seed, "index": 0} for k in list(cnt["per_case"])[:3]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": rep.assumptions + GENERAL, "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(here, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


GENERAL = [
    "floats are exact real numbers and ints mathematical integers; entries of inputs are finite",
    "numpy and LAPACK satisfy the contracts of vc/symnp.py (inv, pinv, eigh, cholesky, slogdet, array_split, reductions, views)",
    "objects are plain: no user subclass overrides the protocol; one thread",
    "the reachable fitted states are those of the inferred inductive state shape (base and step are obligations of this run)",
]

TRUSTED = [
    "z3 (the z3-solver Python package; SMT back end)",
    "/verif/vc (term normal form, symbolic executor of the real Python source, numpy contracts)",
    "floating point treated as exact real arithmetic (rounding cross-checked by bounded runs on the real code only)",
    "contracts assumed for numpy/LAPACK (listed in vc/symnp.py docstrings)",
    "CPython semantics of the unmodified source executed with symbolic values",
]
