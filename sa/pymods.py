"""Module objects for the Python packages under analysis, with import resolution between them."""
from __future__ import annotations

from . import core
from .veval import Mod


class Mods(dict):
    """dotted module name -> Mod (loaded on demand)"""

    def __contains__(self, name):
        return self.rel(name) is not None

    @staticmethod
    def rel(name):
        if not name or not name.startswith("sonolus"):
            return None
        p = name.replace(".", "/")
        for r in (p + ".py", p + "/__init__.py"):
            if (core.ROOT / r).is_file():
                return r
        return None

    def __missing__(self, name):
        r = self.rel(name)
        if r is None:
            raise KeyError(name)
        m = self[name] = Mod(name, core.pytree(r))
        m.rel = r
        return m


MODS = Mods()
