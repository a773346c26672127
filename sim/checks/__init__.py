"""One module per property."""
from __future__ import annotations

import importlib


def load(ident: str):
    return importlib.import_module(f"sim.checks.{ident.lower()}").CHECK
