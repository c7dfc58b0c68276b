"""Enumeration constants of the optimizer's .pxd headers."""
from __future__ import annotations

import ast
from functools import cache

from . import core

HEADERS = ["sonolus/backend/_opt/_ops_gen.pxd", "sonolus/backend/_opt/ir.pxd", "sonolus/backend/_opt/kernels.pxd"]


@cache
def enums():
    out = {}
    for h in HEADERS:
        for n in ast.walk(core.cytree(h)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                v = value(n.value, out)
                if v is not None:
                    out[n.targets[0].id] = v
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                v = value(n.value, out)
                if v is not None:
                    out[n.target.id] = v
    for need in ("OPX_GET", "OPX_SET", "FLAG_PURE", "FLAG_SIDE_EFFECT", "OP_Add"):
        if need not in out:
            raise core.Vanished(f"constant {need} in the optimizer headers")
    return out


def value(e, env):
    try:
        return int(eval(compile(ast.Expression(e), "", "eval"), {"__builtins__": {}}, env))
    except Exception:
        return None
