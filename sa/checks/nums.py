"""Num arithmetic: every operator means what Python means, whichever operands are known at compile time."""
from __future__ import annotations

import ast

from .. import core, real
from .. import terms as T
from ..pymods import MODS
from ..veval import Bi, Evaluator, Fn, Obj, OpC, PList, RAISE, Unsupported
from . import fold
from .natives import finite

NUM = "sonolus/script/num.py"
VIS = "sonolus/script/internal/visitor.py"
RT = ("undef", "rt")

BIN = {"add": "a + b", "sub": "a - b", "mul": "a * b", "truediv": "a / b", "floordiv": "a // b", "mod": "a % b", "pow": "a ** b",
       "eq": "a == b", "ne": "a != b", "lt": "a < b", "le": "a <= b", "gt": "a > b", "ge": "a >= b"}
REFL = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow"]
UN = {"neg": "-a", "pos": "+a", "abs": "abs(a)"}
LOGIC = {"and_": "a and b", "or_": "a or b", "not_": "not a"}


class Ops:
    """closed form of runtime operators, by substitution into the interpreter's value graph"""

    def __init__(self):
        self.mod = fold.Mod("interpret", core.pytree(fold.INT))
        self.memo = {}

    def apply(self, op, args):
        n = len(args)
        if (op, n) not in self.memo:
            t = fold.interp_side(self.mod, op, n)
            self.memo[op, n] = _rt(t)
        return real.subst(self.memo[op, n], {T.var(f"a{i}"): ("hole", i) for i in range(n)}) if False else _subst(
            self.memo[op, n], {T.var(f"a{i}"): a for i, a in enumerate(args)})


def _rt(t):
    if t == RAISE:
        return RT
    if isinstance(t, tuple):
        return tuple(_rt(x) if isinstance(x, tuple) else x for x in t)
    return t


def _subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("var",):
        return m.get(t, t)
    k = t[0]
    xs = [(_subst(x, m) if isinstance(x, tuple) else x) for x in t[1:]]
    if k == "add":
        return T.add(*xs)
    if k == "mul":
        return T.mul(*xs)
    if k == "div":
        return T.div(*xs)
    if k == "neg":
        return T.neg(*xs)
    if k == "fn":
        return T.fn(*xs)
    if k == "ite":
        return T.ite(*xs)
    if k == "cmp":
        return T.cmp(*xs)
    if k == "not":
        return T.bnot(*xs)
    if k == "and":
        return T.band(*xs)
    if k == "xor":
        return T.bxor(*xs)
    return (k, *xs)


def has(t, x):
    return t == x or (isinstance(t, tuple) and any(has(y, x) for y in t[1:] if isinstance(y, tuple)))


class Model:
    def __init__(self):
        self.m = MODS["sonolus.script.num"]
        cls = self.m.classes.get("_Num") or self.m.classes.get("Num")
        if cls is None:
            raise core.Vanished("class _Num")
        self.cls = cls
        self.methods = {}
        for st in cls.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = st
        prim = ("_is_py_", "_as_py_", "_as_py_or_none", "ir", "_is_rom_constant", "__init__")
        self.inl = {k: v for k, v in self.methods.items() if k not in prim}
        self.numtype = Obj("numtype", name="Num")
        self.ops = Ops()
        self.ev = Evaluator("py", names={"Num": self.numtype, "_Num": self.numtype, "type": Bi("type"), "ctx": Bi("ctx"),
                                         "IRSet": Bi("IRSet"), "IRPureInstr": Bi("IRPureInstr"), "IRInstr": Bi("IRInstr"),
                                         "IRConst": Bi("IRConst"), "_num_of": Bi("_num_of"), "IRGet": Bi("IRGet"),
                                         "NotImplemented": Obj("NotImplemented"), "InternalError": Bi("InternalError"),
                                         "_is_num": Bi("_is_num"), "_FLOAT_INT_BOOL": Obj("types"), "_FLOAT_INT": Obj("types")},
                            hooks={"call": self.call, "isinstance": self.isinst, "complex": True})
        self.flow = []

    def mk(self, term, py, data=None):
        o = Obj("self", methods=self.inl, mod=self.m, term=term, py=py)
        d = data if data is not None else (term if py else Obj("data"))
        o.attrs["data"] = d
        for p in ("_is_py_", "_as_py_", "_as_py_or_none", "ir"):
            o.attrs[p] = Obj("bm", name=p, num=o)
        return o

    def isinst(self, v, c):
        if isinstance(c, Bi) and c.name == "complex":
            return isinstance(v, Obj) and v.kind == "complex"
        if isinstance(c, Obj) and c.kind == "numtype":
            return isinstance(v, Obj) and v.kind == "self"
        return not isinstance(v, Obj)

    def call(self, ev, f, a, kw, st, c, k, e):
        if isinstance(f, Obj) and f.kind == "bm":
            o, n = f.attrs["num"], f.attrs["name"]
            if n == "_is_py_":
                return k(o.attrs["py"], st)
            if n == "_as_py_or_none":
                return k(T.PyN(o.attrs["term"]) if o.attrs["py"] else None, st)
            if n == "_as_py_":
                return k(T.PyN(o.attrs["term"]), st) if o.attrs["py"] else c.exc("ValueError", st)
            return k(Obj("ir", term=o.attrs["term"]), st)
        if isinstance(f, Obj) and f.kind == "numtype":
            v = a[0]
            if isinstance(v, Obj) and v.kind == "self":
                return k(v, st)
            if isinstance(v, Obj) and v.kind == "complex":
                return c.exc("complex", st)
            if isinstance(v, Obj):
                raise Unsupported(e, "Num of unknown")
            if isinstance(v, T.Grown):
                return ev.fork(("pred", "overflow", tuple(v)), st, lambda: c.exc("OverflowError", st),
                               lambda: k(self.mk(tuple(v), True), st))
            return k(self.mk(tuple(v) if isinstance(v, T.PyN) else T.tonum(v), True), st)
        if isinstance(f, Obj) and f.kind == "ctxm":
            if f.attrs["name"] == "alloc":
                return k(Obj("place"), st)
            if f.attrs["name"] == "add_statements":
                st = dict(st)
                for x in a:
                    if not (isinstance(x, Obj) and x.kind == "set"):
                        raise Unsupported(e, "statement")
                    st[("place", id(x.attrs["place"]))] = x.attrs["term"]
                return k(None, st)
        if isinstance(f, Bi):
            if f.name == "type":
                v = a[0]
                return k(self.numtype if isinstance(v, Obj) and v.kind == "self" else Obj("type"), st)
            if f.name == "_is_num":
                return k(isinstance(a[0], Obj) and a[0].kind == "self", st)
            if f.name == "ctx":
                o = Obj("ctx")
                for n in ("alloc", "add_statements"):
                    o.attrs[n] = Obj("ctxm", name=n)
                return k(o, st)
            if f.name == "IRSet":
                v = a[1]
                if not (isinstance(v, Obj) and v.kind == "ir"):
                    raise Unsupported(e, "IRSet value")
                return k(Obj("set", place=a[0], term=v.attrs["term"]), st)
            if f.name in ("IRPureInstr", "IRInstr"):
                if not isinstance(a[0], OpC):
                    raise Unsupported(e, "operator not constant")
                return k(Obj("ir", term=self.ops.apply(a[0].name, [x.attrs["term"] for x in a[1].items])), st)
            if f.name == "IRConst":
                return k(Obj("ir", term=T.tonum(a[0])), st)
            if f.name == "_num_of":
                if isinstance(a[0], Obj) and a[0].kind == "place":
                    key = ("place", id(a[0]))
                    if key not in st:
                        raise Unsupported(e, "read of a place nothing was written to")
                    return k(self.mk(st[key], False), st)
                if isinstance(a[0], (tuple, int, float)):
                    return k(self.mk(T.tonum(a[0]), True), st)
            if f.name == "InternalError":
                return k(Obj("exc"), st)
        return NotImplemented

    def result(self, v, st):
        if isinstance(v, Obj) and v.kind == "self":
            return v.attrs["term"]
        if isinstance(v, Obj) and v.kind == "NotImplemented":
            return ("undef", "NotImplemented")
        if isinstance(v, Obj):
            return ("undef", v.kind)
        return T.tonum(v)

    def run(self, name, args):
        f = self.methods.get(name)
        if f is None:
            raise core.Vanished(f"Num.{name}")
        self.ev.steps = 0
        return self.ev.call_fn(Fn(f, self.m), args, {}, {}, self.result, lambda kd, s: RAISE)


def spec(src, args):
    fn = ast.parse(f"def f({', '.join('ab'[:len(args)])}):\n    return {src}").body[0]
    from ..veval import Mod
    m = Mod("spec", ast.Module(body=[], type_ignores=[]))
    return Evaluator("py").call_fn(Fn(fn, m), args, {}, {}, lambda v, s: fold.wrap(v), lambda kd, s: RAISE)


def run(rep):
    rep.rule("NUM", "Num operator == Python operator on all finite operands, for each split of compile-time and runtime operands")
    rep.rule("OPTAB", "syntax operators dispatch to the matching special method")
    rep.files |= {NUM, VIS, fold.INT}
    M = Model()
    A, B = T.var("a0"), T.var("a1")
    boolean = [T.ite(("pred", "true", T.var(f"a{i}")), T.num(1), T.num(0)) for i in range(2)]

    def cases(kind):
        if kind == "un":
            return [("constant", [M.mk(A, True)], [A]), ("runtime", [M.mk(A, False)], [A])]
        same = Obj("data")
        x = M.mk(A, False, same)
        return [
            ("constant,constant", [M.mk(A, True), M.mk(B, True)], [A, B]),
            ("runtime,constant", [M.mk(A, False), M.mk(B, True)], [A, B]),
            ("constant,runtime", [M.mk(A, True), M.mk(B, False)], [A, B]),
            ("runtime,runtime", [M.mk(A, False), M.mk(B, False)], [A, B]),
            ("same place twice", [x, M.mk(A, False, same)], [A, A]),
        ]

    jobs = []
    for n, src in BIN.items():
        jobs += [(f"__{n}__", src, a, s, c) for c, a, s in cases("bin")]
    for n in REFL:
        jobs += [(f"__r{n}__", BIN[n], [a[0], a[1]], [s[1], s[0]], c) for c, a, s in cases("bin")]
    for n, src in UN.items():
        jobs += [(f"__{n}__", src, a, s, c) for c, a, s in cases("un")]
    for n, src in LOGIC.items():
        for c, a, s in cases("un" if n == "not_" else "bin"):
            sub = {A: boolean[0], B: boolean[1]}
            a2 = [M.mk(sub[o.attrs["term"]], o.attrs["py"], None if o.attrs["py"] else o.attrs["data"]) for o in a]
            jobs.append((n, src, a2, [sub[t] for t in s], c))

    for name, src, args, sargs, case in jobs:
        where = f"Num.{name} on ({case})"
        try:
            got = M.run(name, args)
            want = spec(src, sargs)
        except (Unsupported, T.Limit) as e:
            rep.undecided("NUM", f"cannot follow {where}: {e}")
            continue

        def leaf(lg, lw, facts):
            if isinstance(lg, tuple) and lg[0] == "undef" and lg != RT:
                return f"no result ({lg[1]})"
            if isinstance(lg, bool):
                lg = T.tonum(lg)
            if isinstance(lw, bool):
                lw = T.tonum(lw)
            if lg == RAISE:
                if case == "constant,constant" and lw == RAISE:
                    return f"the compiler raises where Python's {src} raises; the operation is left to the runtime instead"
                return "the compiler raises"
            if lw == RAISE or has(lg, RT):
                over = any(iv.point() and iv.lo in (T.INF, -T.INF) for iv in facts.iv.values())
                if lw != RAISE and has(lg, RT) and not over:
                    return f"the runtime operator raises where Python computes {T.show(lw)}"
                return None
            if "floordiv" in name:
                if real.same(lg, lw, facts) or real.same(lg, T.fn("floor", T.div(*sargs)), facts):
                    return None
                if lg == T.add(T.fn("floor", T.div(*sargs)), T.num(0)) or _floor_eq(lg, sargs, facts):
                    return None
            elif real.same(lg, lw, facts):
                return None
            return f"compiled to {T.show(lg)}, Python's {src} is {T.show(lw)}"
        try:
            regions, bad = T.expand(got, want, leaf, preset=finite(2))
        except T.Limit as e:
            rep.undecided("NUM", f"{where}: {e}")
            continue
        rep.did("NUM", f"{where}: {regions} regions")
        if bad:
            f = M.methods[name]
            rep.find("NUM", NUM, f.lineno, where, f"{bad[0]} when {bad[1]}")
    rep.need("NUM", 90)
    tables(rep)


def _floor_eq(lg, sargs, facts):
    """floor of the quotient, with the quotient in any real form"""
    t = lg
    while t[0] == "add" and T.num(0) in t[1:]:
        t = t[1] if t[2] == T.num(0) else t[2]
    return t[0] == "fn" and t[1] == "floor" and real.same(t[2], T.div(*sargs), facts)


PYOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
         "LShift": "lshift", "RShift": "rshift", "BitOr": "or", "BitXor": "xor", "BitAnd": "and", "MatMult": "matmul",
         "USub": "neg", "UAdd": "pos", "Invert": "invert",
         "Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
RCMP = {"Eq": "eq", "NotEq": "ne", "Lt": "gt", "LtE": "ge", "Gt": "lt", "GtE": "le"}


def tables(rep):
    """every {ast.X: "__dunder__"} table of the visitor"""
    t = core.pytree(VIS)
    for st in ast.walk(t):
        if not (isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(st.value, ast.Dict) and st.value.keys):
            continue
        tgt = st.targets[0] if isinstance(st, ast.Assign) else st.target
        tab = {}
        for kx, vx in zip(st.value.keys, st.value.values):
            if isinstance(kx, ast.Attribute) and isinstance(vx, ast.Constant) and isinstance(vx.value, str) and vx.value.startswith("__"):
                tab[kx.attr] = (vx.value, vx.lineno)
        if not tab or not isinstance(tgt, ast.Name):
            continue
        # which family? decided by the majority of entries, so a single wrong entry stands out
        fams = {"operator": lambda k: f"__{PYOPS.get(k)}__",
                "reflected": lambda k: f"__r{PYOPS.get(k)}__",
                "in-place": lambda k: f"__i{PYOPS.get(k)}__",
                "swapped comparison": lambda k: f"__{RCMP.get(k)}__"}
        best = max(fams, key=lambda n: sum(fams[n](k) == v for k, (v, _l) in tab.items()))
        for k, (v, line) in tab.items():
            if k not in PYOPS:
                continue
            rep.did("OPTAB", f"{tgt.id}[{k}] = {v} ({best})")
            if fams[best](k) != v:
                rep.find("OPTAB", VIS, line, f"{tgt.id}[ast.{k}]", f"dispatches to {v}; the {best} method is {fams[best](k)}")
    rep.need("OPTAB", 30)
