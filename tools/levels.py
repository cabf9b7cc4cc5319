"""Writes tools/levels.json: which properties are decided by discharged obligations (edited by hand)."""
import json, os
PROVED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"]
PART = {}
TECH = "contract-based deductive verification of the unmodified source (symbolic execution to obligations; SMT and algebraic back ends)"
NOTE = ("Every obligation generated from the current source is discharged for all inputs, dimensions and iterations, in exact real "
        "arithmetic, assuming the numpy contracts listed in DESIGN.md; floating-point rounding is only cross-checked by bounded runs.")
out = {p: {"level": "proof", "note": NOTE, "technique": TECH} for p in PROVED}
for p, w in PART.items():
    out[p] = {"level": "other", "note": f"Obligations discharged for {w}; the rest by a bounded cross-check on the real code.", "technique": TECH}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json"), "w"), indent=1)
