"""Known findings: read only, never written by a check."""
import json
import os

_PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json")


def known_findings(pid):
    with open(_PATH) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid and x["status"] == "open"]
