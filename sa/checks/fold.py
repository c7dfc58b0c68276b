"""Constant folding agrees with the reference runtime: value-graph comparison, operator by operator."""
from __future__ import annotations

import ast
import itertools

from .. import core
from .. import terms as T
from ..veval import Evaluator, Frame, Fn, K, Mod, Obj, OpC, PList, Ptr, RAISE, Unsupported

OPS = "sonolus/backend/ops.py"
INT = "sonolus/backend/interpret.py"
KER = "sonolus/backend/_opt/kernels.pyx"
KPXD = "sonolus/backend/_opt/kernels.pxd"

SELECT = ("If", "Switch", "SwitchWithDefault", "SwitchInteger", "SwitchIntegerWithDefault")


def op_table():
    """ops.py: [(name, {flag: bool})] in declaration order."""
    t = core.pytree(OPS)
    cls = next((n for n in t.body if isinstance(n, ast.ClassDef) and n.name == "Op"), None)
    if cls is None:
        raise core.Vanished("class Op in ops.py")
    new = next((n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name == "__new__"), None)
    flags = [a.arg for a in new.args.args[2:]] if new else ["side_effects", "pure", "control_flow"]
    out = []
    for st in cls.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Tuple) and isinstance(st.targets[0], ast.Name):
            v = [ast.literal_eval(x) for x in st.value.elts]
            out.append((st.targets[0].id, v[0], dict(zip(flags, v[1:])), st.lineno))
    if len(out) < 150:
        raise core.Vanished(f"only {len(out)} operators in ops.py")
    return out


class Arg:
    pass


def interp_side(mod, name, n, terms=None):
    """term computed by Interpreter.run for a node `name` with n argument nodes"""
    cls = mod.classes.get("Interpreter")
    if cls is None:
        raise core.Vanished("class Interpreter")
    methods = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef)}
    if "run" not in methods:
        raise core.Vanished("Interpreter.run")
    args = [Obj("argnode", term=terms[i] if terms else T.var(f"a{i}"), i=i) for i in range(n)]
    node = Obj("fnode", func=OpC(name), args=PList(args))

    def call(ev, f, a, kw, st, c, k, e):
        if isinstance(f, Fn) and f.node is methods["run"] and a and isinstance(a[-1], Obj) and a[-1].kind == "argnode":
            return k(a[-1].attrs["term"], st)
        return NotImplemented

    def isinst(v, cls_):
        if isinstance(v, Obj) and v.kind in ("fnode", "argnode"):
            return v.kind == "fnode"
        return not (isinstance(cls_, Obj))

    def sub(b, i):
        if isinstance(b, PList) and isinstance(i, tuple) and all(isinstance(x, Obj) and x.kind == "argnode" for x in b.items):
            return Obj("argnode", term=("sel", tuple(x.attrs["term"] for x in b.items), i))
        return None

    ev = Evaluator("py", hooks={"call": call, "isinstance": isinst, "subscript": sub})
    me = Obj("self", methods=methods, mod=mod, log=Obj("log"), blocks=Obj("blocks"))
    return ev.call_fn(Fn(methods["run"], mod, None, me), [node], {}, {}, lambda v, s: wrap(v), lambda kd, s: RAISE)


def wrap(v):
    if v is None or isinstance(v, Obj):
        return ("undef", "none")
    return T.tonum(v)


def kernel_side(mod, consts, ids, name, n):
    f = mod.funcs.get("fold_op")
    if f is None:
        raise core.Vanished("fold_op in kernels.pyx")
    names = dict(consts)
    names.update({"OP_" + k: v for k, v in ids.items()})
    ev = Evaluator("c", names=names)
    st = {("out",): ("undef", "out")}
    args = [ids[name], PList([T.var(f"a{i}") for i in range(n)]), n, Ptr(("out",))]

    def ret(v, s):
        if not isinstance(v, int):
            raise Unsupported(f, "status is not a constant")
        if v == consts["FOLD_OK"]:
            return ("pair", T.num(v), s[("out",)])
        return ("nc",)
    return ev.call_fn(Fn(f, mod), args, {}, st, ret, lambda kd, s: ("nc",))


def kernel_consts():
    t = core.cytree(KPXD)
    out = {}
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
            out[n.targets[0].id] = n.value.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
            out[n.target.id] = n.value.value
    if "FOLD_OK" not in out or "FOLD_NOT_CONSTANT" not in out:
        raise core.Vanished("FOLD_OK / FOLD_NOT_CONSTANT in kernels.pxd")
    return out


def f32_known(t, facts):
    iv = T.interval(t, facts.iv)
    if iv.nan and iv.empty_num():
        return True
    if iv.point() and f32_exact(iv.lo):
        return True
    return facts.preds.get(("pred", "f32", t)) is True


def f32_exact(v):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", v))[0] == v
    except OverflowError:
        return v in (T.INF, -T.INF)


def arities(name):
    return range(0, 9)


def run(rep):
    rep.rule("FOLD", "kernel result graph == interpreter result graph on every region where the kernel folds")
    rep.rule("NOFOLD", "an operator whose value depends on more than its operands is never folded")
    rep.rule("F32", "a select folds only on operands known exact in single precision")
    rep.files |= {OPS, INT, KER, KPXD}
    ops = op_table()
    ids = {n: i for i, (n, *_r) in enumerate(ops)}
    imod = Mod("interpret", core.pytree(INT))
    kmod = Mod("kernels", core.cytree(KER))
    consts = kernel_consts()
    import os
    only = os.environ.get("FOLD_ONLY")
    folded = 0
    for name, _v, flags, _l in ops:
        if only and name != only:
            continue
        for n in arities(name):
            try:
                kt = kernel_side(kmod, consts, ids, name, n)
            except (Unsupported, T.Limit) as e:
                rep.undecided("FOLD", f"cannot follow fold_op for {name}/{n}: {e}")
                continue
            if kt == ("nc",):
                rep.did("NOFOLD")
                continue
            if flags["side_effects"] or not flags["pure"]:
                rep.find("NOFOLD", KER, kmod.funcs["fold_op"].lineno, f"fold_op[{name}]", "an impure operator is folded")
                continue
            try:
                it = interp_side(imod, name, n)
            except (Unsupported, T.Limit) as e:
                rep.undecided("FOLD", f"cannot follow Interpreter.run for {name}/{n}: {e}")
                continue
            sel = name in SELECT

            def leaf(lk, li, facts):
                if lk == ("nc",):
                    return None
                if lk[0] != "pair":
                    return "the kernel leaves the result undefined"
                v = lk[2]
                if li == RAISE:
                    return f"the kernel folds to {T.show(v)} where the interpreter raises"
                if li[0] == "undef":
                    return "the interpreter has no value"
                if v != li:
                    return f"the kernel folds to {T.show(v)} but the interpreter computes {T.show(li)}"
                if sel:
                    seen = set()
                    for t in facts.iv:
                        seen |= leaves(t)
                    for a, b in facts.pair:
                        seen |= leaves(a) | leaves(b)
                    for x in sorted(seen):
                        if not f32_known(x, facts):
                            return f"the selection inspects {x[1]} without knowing it is exact in single precision"
                return None
            try:
                regions, bad = T.expand(kt, it, leaf)
            except T.Limit as e:
                rep.undecided("FOLD", f"{name}/{n}: {e}")
                continue
            folded += 1
            rep.did("FOLD", f"{name}/{n}: {regions} regions")
            if sel:
                rep.did("F32", f"{name}/{n}")
            if bad:
                rep.find("FOLD", KER, where(kmod, name), f"fold_op[{name}] with {n} operands", f"{bad[0]} when {bad[1]}", key=f"{name}/{n}")
    if not only:
        rep.need("FOLD", 80)
        rep.need("NOFOLD", 100)


def leaves(t):
    if t[0] == "var":
        return {t}
    out = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            out |= leaves(x)
    return out


def where(kmod, name):
    for f in kmod.funcs.values():
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id == "OP_" + name:
                return n.lineno
    return kmod.funcs["fold_op"].lineno
