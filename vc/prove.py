"""Runs the contracts of one property."""
from __future__ import annotations

import importlib

from .report import Report


def run(pid, tier):
    try:
        mod = importlib.import_module(f"vc.contracts.{pid.lower()}")
    except ModuleNotFoundError:
        return Report(pid)
    return mod.run(tier)
