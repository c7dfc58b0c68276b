"""A function declared to be a runtime operator computes, in Python, what that operator computes."""
from __future__ import annotations

import ast

from .. import core, real
from .. import terms as T
from ..pymods import MODS
from ..veval import Evaluator, Fn, Mod, Obj, RAISE, Unsupported
from . import fold


def enum_value(cls, attr):
    for st in cls.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == attr:
            if isinstance(st.value, ast.Constant):
                return st.value.value
    return None


def natives():
    """[(module, FunctionDef, op name, const_eval)]"""
    out = []
    for rel in core.pyfiles("sonolus/script"):
        if "native_function" not in core.text(rel):
            continue
        m = MODS[rel[:-3].replace("/", ".")]
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            for d in f.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "native_function":
                    a = d.args[0] if d.args else next((k.value for k in d.keywords if k.arg == "op"), None)
                    if isinstance(a, ast.Attribute):
                        ce = [k.value for k in d.keywords if k.arg == "const_eval"] + d.args[1:]
                        out.append((m, f, a.attr, bool(ce and isinstance(ce[0], ast.Constant) and ce[0].value)))
    return out


def is_stub(f):
    b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], (ast.Raise, ast.Return, ast.Pass)) and (
        not isinstance(b[0], ast.Return) or b[0].value is None or isinstance(b[0].value, ast.Constant))


def py_side(m, f, n):
    def attr(v, name):
        if isinstance(v, Obj) and v.kind == "class":
            x = enum_value(v.attrs["node"], name)
            if x is not None:
                return T.num(x) if isinstance(x, (int, float)) else x
        return None

    def call(ev, fn, a, kw, st, c, k, e):
        # library _max/_min on plain numbers are Python's max/min
        if isinstance(fn, Fn) and fn.node.name in ("_max", "_min") and fn.mod.name.endswith("builtin_impls"):
            return ev.builtin(fn.node.name[1:], a, st, c, k, e)
        return NotImplemented
    ev = Evaluator("py", hooks={"call": call, ("attr", "class"): attr}, modules=MODS)
    args = [T.var(f"a{i}") for i in range(n)]
    return ev.call_fn(Fn(f, m), args, {}, {}, lambda v, s: fold.wrap(v), lambda kd, s: RAISE)


def py_builtin(name, args):
    """the Python library function itself"""
    src = {"math.log/2": "math.log(a) / math.log(b)"}.get(f"{name}/{len(args)}") or f"{name}({', '.join('ab'[:len(args)])})"
    fn = ast.parse(f"def f({', '.join('ab'[:len(args)])}):\n    return {src}").body[0]
    m = Mod("builtin", ast.Module(body=[ast.parse("import math").body[0]], type_ignores=[]))
    return Evaluator("py").call_fn(Fn(fn, m), args, {}, {}, lambda v, s: fold.wrap(v), lambda kd, s: RAISE)


def finite(n):
    f = T.Facts()
    for i in range(n):
        f.iv[T.var(f"a{i}")] = T.Iv(-T.INF, T.INF, False, True, True)
    return f


def run(rep):
    rep.rule("BODY", "body of a native function == interpreter result of its operator, on all finite operands")
    rep.rule("ARITY", "the operator accepts the number of parameters the function declares")
    rep.rule("PURE", "compile-time evaluation only for operators that are pure and free of side effects")
    ops = {n: fl for n, _v, fl, _l in fold.op_table()}
    imod = fold.Mod("interpret", core.pytree(fold.INT))
    rep.files |= {fold.INT, fold.OPS}
    for m, f, op, ce in natives():
        rel = m.rel
        rep.files.add(rel)
        where = f"{f.name} [{op}]"
        if op not in ops:
            rep.find("BODY", rel, f.lineno, where, f"operator {op} does not exist")
            continue
        if ce:
            rep.did("PURE", where)
            if ops[op]["side_effects"] or not ops[op]["pure"]:
                rep.find("PURE", rel, f.lineno, where, "an impure operator is evaluated at compile time")
        if is_stub(f) or ops[op]["side_effects"] or not ops[op]["pure"]:
            continue
        n = len(f.args.posonlyargs) + len(f.args.args)
        try:
            it = fold.interp_side(imod, op, n)
        except (Unsupported, T.Limit) as e:
            rep.notes.append(f"{where}: interpreter has no closed form ({e})")
            continue
        if it == RAISE or it[0] == "undef":
            rep.find("ARITY", rel, f.lineno, where, f"{op} is not defined on {n} operands")
            continue
        rep.did("ARITY", where)
        try:
            pt = py_side(m, f, n)
        except (Unsupported, T.Limit) as e:
            rep.undecided("BODY", f"cannot follow {where}: {e}")
            continue

        def leaf(lp, li, facts):
            if lp == li:
                return None
            if lp == RAISE or li == RAISE:
                return f"one side raises: body {T.show(lp)}, operator {T.show(li)}"
            if not real.same(lp, li, facts):
                return f"body computes {T.show(lp)}, operator computes {T.show(li)}"
            return None
        try:
            regions, bad = T.expand(pt, it, leaf, preset=finite(n))
        except T.Limit as e:
            rep.undecided("BODY", f"{where}: {e}")
            continue
        rep.did("BODY", f"{where}: {regions} regions")
        if bad:
            rep.find("BODY", rel, f.lineno, where, f"{bad[0]} when {bad[1]}")
    rep.rule("BUILTIN", "the implementation substituted for a Python math function computes that function, on all finite operands")
    mi = MODS["sonolus.script.internal.math_impls"]
    tab = mi.consts.get("MATH_BUILTIN_IMPLS")
    if not isinstance(tab, ast.Dict):
        raise core.Vanished("MATH_BUILTIN_IMPLS")
    for kx, vx in zip(tab.keys, tab.values):
        if not (isinstance(kx, ast.Call) and len(kx.args) == 1):
            continue
        name = ast.unparse(kx.args[0])
        for n in {"math.atan2": (2,), "math.log": (1, 2)}.get(name, (1,)):
            where = f"{name}/{n}"
            fname = ast.unparse(vx)
            if fname not in mi.funcs:
                raise core.Vanished(f"implementation {fname} of {name}")
            f = mi.funcs[fname]
            args = [T.var(f"a{i}") for i in range(n)]
            try:
                got = py_side(mi, f, n)
                want = py_builtin(name, args)
            except (Unsupported, T.Limit) as e:
                rep.undecided("BUILTIN", f"cannot follow {where}: {e}")
                continue

            def leaf2(lp, li, facts):
                if lp == RAISE or li == RAISE or real.same(lp, li, facts):
                    return None
                return f"implementation computes {T.show(lp)}, {name} is {T.show(li)}"
            regions, bad = T.expand(got, want, leaf2, preset=finite(n))
            rep.did("BUILTIN", f"{where}: {regions} regions")
            if bad:
                rep.find("BUILTIN", mi.rel, f.lineno, where, f"{bad[0]} when {bad[1]}")
    from . import meaning
    rep.rule("functions", "calls to native functions are lowered as their model does: the operator and the arguments that were given, in order, "
             "with declared defaults; constant evaluation of the host body only when every argument is a constant; call arguments of "
             "replaced builtins reach the operator in position")
    meaning._also(rep, [("sonolus/script/internal/native.py", "native", ("*",)), ("sonolus/script/internal/math_impls.py", "math_impls", ("*",)),
                        ("sonolus/script/internal/builtin_impls.py", "builtin_impls", ("_max*", "_min*", "_abs*", "_round*", "_divmod*", "_sum*", "_pow*"))])
    rep.need("BUILTIN", 15)
    rep.need("BODY", 50)
    rep.need("PURE", 15)
