"""Property id -> deciding analysis (imported lazily: one broken module does not take the others down)."""
import importlib

from .props import PROPS


class _Checks(dict):
    def __missing__(self, k):
        raise SystemExit(f"unknown property {k}")


def _runner(path):
    mod, fn = path.split(".")

    def go(rep):
        m = importlib.import_module(f"sa.checks.{mod}")
        return getattr(m, fn)(rep)
    return go


CHECKS = _Checks({p["id"]: {**p, "run": _runner(p["run"])} for p in PROPS if p["run"]})
