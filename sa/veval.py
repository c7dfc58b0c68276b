"""Syntax-directed construction of gated value graphs from Python / lowered-Cython functions.

`Evaluator.call(fn, args)` walks a function body once, in continuation-passing form: every branch on a
non-constant condition becomes a gate, every call to a function of the same module is expanded, loops with
literal bounds are unrolled. The result is a term over the arguments -- nothing is executed.
"""
from __future__ import annotations

import ast
import itertools
import math

from . import terms as T

MAX_STEPS = 400000


class Unsupported(Exception):
    def __init__(self, node, why):
        self.node, self.why = node, why
        super().__init__(f"line {getattr(node, 'lineno', '?')}: {why}: {ast.unparse(node)[:120] if isinstance(node, ast.AST) else node}")


class OpC:
    """An opcode constant."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, OpC) and o.name == self.name

    def __hash__(self):
        return hash(("OpC", self.name))

    def __repr__(self):
        return f"Op.{self.name}"


class Fn:
    __slots__ = ("fid", "mod", "node", "self_")

    def __init__(self, node, mod, fid=None, self_=None):
        self.node, self.mod, self.fid, self.self_ = node, mod, fid, self_


class Bi:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class PList:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Ptr:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Obj:
    """An opaque object with known attributes."""

    def __init__(self, kind, **attrs):
        self.kind, self.attrs = kind, attrs


def _static(fn):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)


class Mod:
    """A parsed module: functions, classes, constants, tables."""

    def __init__(self, name, tree, resolver=None):
        self.name, self.tree = name, tree
        self.funcs, self.classes, self.consts, self.imports, self.tables = {}, {}, {}, {}, {}
        self.resolver = resolver
        for st in tree.body:
            self._top(st)
        self._tables()

    def _top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.funcs[st.name] = st
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.consts[st.target.id] = st.value
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.imports[a.asname or a.name.split(".")[0]] = (a.name, None)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.imports[a.asname or a.name] = (st.module or "", a.name)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self._top(s)

    def _tables(self):
        """dict registries filled by a decorator factory:  @D(Op.X) def f -> TABLE[Op.X] = f"""
        facts = {}
        for name, f in self.funcs.items():
            if len(f.args.args) != 1:
                continue
            p = f.args.args[0].arg
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
                    s = n.targets[0]
                    if isinstance(s.value, ast.Name) and isinstance(s.slice, ast.Name) and s.slice.id == p:
                        facts[name] = s.value.id
        for f in list(self.funcs.values()):
            for d in f.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in facts and d.args:
                    self.tables.setdefault(facts[d.func.id], []).append((d.args[0], f))


_TRANS = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "log", "exp", "log2", "log10", "asinh", "acosh", "atanh"}
_C_DIRECT = _TRANS | {"sqrt", "atan2", "fabs", "floor", "ceil", "trunc", "copysign", "fmod", "c_pow", "c_round"}
_C_ALIAS = {"pow": "c_pow", "round": "c_round"}


def isnan_t(x):
    if T.is_num(x):
        return T.numval(x) != T.numval(x)
    return ("pred", "isnan", x)


def isinf_t(x):
    return T.bor(T.cmp("eq", x, T.num(math.inf)), T.cmp("eq", x, T.num(-math.inf)))


def isfinite_t(x):
    return T.band(T.bnot(isnan_t(x)), T.bnot(isinf_t(x)))


RAISE = ("raise",)


class K:
    """continuations of a function activation"""

    __slots__ = ("brk", "cont", "exc", "fid", "mod", "ret")

    def __init__(self, mod, fid, ret, exc, brk=None, cont=None):
        self.mod, self.fid, self.ret, self.exc, self.brk, self.cont = mod, fid, ret, exc, brk, cont

    def sub(self, **kw):
        k = K(self.mod, self.fid, self.ret, self.exc, self.brk, self.cont)
        for a, v in kw.items():
            setattr(k, a, v)
        return k


class Evaluator:
    def __init__(self, lang, names=None, hooks=None, modules=None):
        self.lang = lang  # 'py' | 'c'
        self.names = names or {}
        self.hooks = hooks or {}
        self.modules = modules or {}
        self.fids = itertools.count(1)
        self.steps = 0
        self.depth = 0

    # ------------------------------------------------------------------ entry
    def call_fn(self, fn, args, kwargs, st, k, exc):
        """k(value, st)"""
        node = fn.node
        fid = next(self.fids)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported(node, "call depth")
        try:
            a = node.args
            pos = [*a.posonlyargs, *a.args]
            names = [p.arg for p in pos]
            st = dict(st)
            vals = list(args)
            if fn.self_ is not None:
                vals = [fn.self_, *vals]
            if len(vals) > len(names):
                if a.vararg is None:
                    raise Unsupported(node, "too many arguments")
                st[(fid, a.vararg.arg)] = PList(vals[len(names):])
                vals = vals[: len(names)]
            elif a.vararg is not None:
                st[(fid, a.vararg.arg)] = PList([])
            for n, v in zip(names, vals):
                st[(fid, n)] = v
            defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                names.append(p.arg)
                if d is not None:
                    defaults[p.arg] = d
            kk = K(fn.mod, (fid, fn.fid), lambda v, s: k(v, s), exc)
            kk.fid = Frame(fid, fn.fid)
            for n in names[len(vals):]:
                if n in kwargs:
                    st[(fid, n)] = kwargs[n]
                elif n in defaults:
                    box = []
                    self.eval(defaults[n], st, kk, lambda v, s: box.append(v) or T.num(0))
                    st[(fid, n)] = box[0]
                else:
                    raise Unsupported(node, f"missing argument {n}")
            taken = {p.arg for p in [*a.args, *a.kwonlyargs]}
            rest = [(n, v) for n, v in kwargs.items() if n not in taken]
            if a.kwarg is not None:
                st[(fid, a.kwarg.arg)] = self.rest_of_keywords(rest, node)
            elif rest:
                raise Unsupported(node, "an argument the function does not take")
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, st, kk, k)
            return self.block(node.body, 0, st, kk, lambda s: k(None, s))
        finally:
            self.depth -= 1

    def rest_of_keywords(self, rest, node):
        raise Unsupported(node, "keyword arguments collected")

    # ------------------------------------------------------------------ statements
    def block(self, stmts, i, st, c, nxt):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise T.Limit("evaluation budget")
        if i >= len(stmts):
            return nxt(st)
        s = stmts[i]

        def go(s2):
            return self.block(stmts, i + 1, s2, c, nxt)

        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(s, f"statement {type(s).__name__}")
        return m(s, st, c, go)

    def x_Pass(self, s, st, c, go):
        return go(st)

    def x_Assert(self, s, st, c, go):
        return go(st)

    def x_Import(self, s, st, c, go):
        return go(st)

    x_ImportFrom = x_Import
    x_Global = x_Import

    def x_FunctionDef(self, s, st, c, go):
        st = dict(st)
        st[(c.fid.id, s.name)] = Fn(s, c.mod, c.fid)
        return go(st)

    def x_Expr(self, s, st, c, go):
        if isinstance(s.value, ast.Constant):
            return go(st)
        return self.eval(s.value, st, c, lambda v, s2: go(s2))

    def x_Return(self, s, st, c, go):
        if s.value is None:
            return c.ret(None, st)
        return self.eval(s.value, st, c, c.ret)

    def x_Raise(self, s, st, c, go):
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        return c.exc(e.id if isinstance(e, ast.Name) else "raise", st)

    def x_Break(self, s, st, c, go):
        return c.brk(st)

    def x_Continue(self, s, st, c, go):
        return c.cont(st)

    def x_Assign(self, s, st, c, go):
        def k(v, s2):
            return self.assign_all(s.targets, v, s2, c, go)
        return self.eval(s.value, st, c, k)

    def x_AnnAssign(self, s, st, c, go):
        if s.value is None:
            st = dict(st)
            st.setdefault((c.fid.id, s.target.id), ("undef",)) if isinstance(s.target, ast.Name) else None
            return go(st)
        return self.eval(s.value, st, c, lambda v, s2: self.assign_all([s.target], v, s2, c, go))

    def x_AugAssign(self, s, st, c, go):
        e = ast.BinOp(left=_load(s.target), op=s.op, right=s.value)
        ast.copy_location(e, s)
        return self.eval(e, st, c, lambda v, s2: self.assign_all([s.target], v, s2, c, go))

    def assign_all(self, targets, v, st, c, go):
        if not targets:
            return go(st)
        return self.assign(targets[0], v, st, c, lambda s2: self.assign_all(targets[1:], v, s2, c, go))

    def assign(self, t, v, st, c, go):
        if isinstance(t, ast.Name):
            st = dict(st)
            st[(c.fid.id, t.id)] = v
            return go(st)
        if isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, PList):
                raise Unsupported(t, "unpacking a non-list")
            items = v.items
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            pairs = []
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    return c.exc("unpack", st)
                pairs += list(zip(t.elts[:i], items[:i]))
                pairs.append((t.elts[i].value, PList(items[i: len(items) - after])))
                pairs += list(zip(t.elts[i + 1:], items[len(items) - after:]))
            else:
                if len(items) != len(t.elts):
                    return c.exc("unpack", st)
                pairs = list(zip(t.elts, items))

            def step(j, s2):
                if j == len(pairs):
                    return go(s2)
                return self.assign(pairs[j][0], pairs[j][1], s2, c, lambda s3: step(j + 1, s3))
            return step(0, st)
        if isinstance(t, ast.Subscript):
            def k(b, s2):
                if isinstance(b, Ptr):
                    s2 = dict(s2)
                    s2[b.key] = v
                    return go(s2)
                raise Unsupported(t, "store")
            return self.eval(t.value, st, c, k)
        raise Unsupported(t, "assignment target")

    def fork(self, cond, st, on_true, on_false):
        cond = T.truth(cond) if not isinstance(cond, bool) else cond
        if cond is True:
            return on_true()
        if cond is False:
            return on_false()
        return T.ite(cond, on_true(), on_false())

    def truthy(self, v):
        if isinstance(v, PList):
            return bool(v.items)
        if v is None:
            return False
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, tuple):
            return T.truth(v)
        return True

    def x_If(self, s, st, c, go):
        def k(v, s2):
            return self.fork(
                self.truthy(v), s2,
                lambda: self.block(s.body, 0, s2, c, go),
                lambda: self.block(s.orelse, 0, s2, c, go),
            )
        return self.eval(s.test, st, c, k)

    def x_With(self, s, st, c, go):
        return self.block(s.body, 0, st, c, go)

    def x_Try(self, s, st, c, go):
        def after(s2):
            return self.block(s.finalbody, 0, s2, c, go)

        def handler(kind, s2):
            for h in s.handlers:
                if h.type is None:
                    names = {"BaseException"}
                else:
                    names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)}
                if kind in names or names & {"Exception", "BaseException"} or (
                    kind in ("ZeroDivisionError", "OverflowError") and "ArithmeticError" in names
                ):
                    return self.block(h.body, 0, s2, c, after)
            return self.block(s.finalbody, 0, s2, c, lambda s3: c.exc(kind, s3))
        c2 = c.sub(exc=handler)
        return self.block(s.body, 0, st, c2, lambda s2: self.block(s.orelse, 0, s2, c, after))

    def x_For(self, s, st, c, go):
        def k(v, s2):
            if not isinstance(v, PList):
                raise Unsupported(s, "for over unknown iterable")
            items = v.items

            def step(i, s3):
                if i == len(items):
                    return self.block(s.orelse, 0, s3, c, go)
                c2 = c.sub(brk=lambda s4: go(s4), cont=lambda s4: step(i + 1, s4))
                return self.assign(
                    s.target, items[i], s3, c,
                    lambda s4: self.block(s.body, 0, s4, c2, lambda s5: step(i + 1, s5)),
                )
            return step(0, s2)
        return self.eval(s.iter, st, c, k)

    def x_While(self, s, st, c, go):
        def step(n, s2):
            if n > 64:
                raise Unsupported(s, "loop bound")

            def k(v, s3):
                c2 = c.sub(brk=lambda s4: go(s4), cont=lambda s4: step(n + 1, s4))
                return self.fork(
                    self.truthy(v), s3,
                    lambda: self.block(s.body, 0, s3, c2, lambda s4: step(n + 1, s4)),
                    lambda: self.block(s.orelse, 0, s3, c, go),
                )
            return self.eval(s.test, s2, c, k)
        return step(0, st)

    def x_Match(self, s, st, c, go):
        def k(v, s2):
            def case(i, s3):
                if i == len(s.cases):
                    return go(s3)
                cs = s.cases[i]
                m, binds = self.match(cs.pattern, v, s3, c)
                if m is False:
                    return case(i + 1, s3)
                if m is not True:
                    raise Unsupported(s, "symbolic match")
                s4 = dict(s3)
                for n, b in binds:
                    s4[(c.fid.id, n)] = b
                if cs.guard is not None:
                    return self.eval(
                        cs.guard, s4, c,
                        lambda g, s5: self.fork(
                            self.truthy(g), s5,
                            lambda: self.block(cs.body, 0, s5, c, go),
                            lambda: case(i + 1, s5),
                        ),
                    )
                return self.block(cs.body, 0, s4, c, go)
            return case(0, s2)
        return self.eval(s.subject, st, c, k)

    def match(self, p, v, st, c):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return True, ([(p.name, v)] if p.name else [])
            m, b = self.match(p.pattern, v, st, c)
            return m, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                m, b = self.match(q, v, st, c)
                if m is not False:
                    return m, b
            return False, []
        if isinstance(p, ast.MatchValue):
            box = []
            self.eval(p.value, st, c, lambda x, s: box.append(x) or T.num(0))
            x = box[0]
            if isinstance(x, OpC) and isinstance(v, OpC):
                return x == v, []
            if isinstance(x, (int, float, str)) and isinstance(v, (int, float, str)):
                return x == v, []
        raise Unsupported(p, "pattern")

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, c, k):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise T.Limit("evaluation budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(e, f"expression {type(e).__name__}")
        return m(e, st, c, k)

    def evals(self, es, st, c, k):
        def step(i, acc, s2):
            if i == len(es):
                return k(acc, s2)
            e = es[i]
            if isinstance(e, ast.Starred):
                def ks(v, s3):
                    if not isinstance(v, PList):
                        raise Unsupported(e, "star of unknown")
                    return step(i + 1, acc + v.items, s3)
                return self.eval(e.value, s2, c, ks)
            return self.eval(e, s2, c, lambda v, s3: step(i + 1, [*acc, v], s3))
        return step(0, [], st)

    def e_Constant(self, e, st, c, k):
        v = e.value
        if isinstance(v, float):
            return k(T.num(v), st)
        return k(v, st)

    def lookup(self, name, st, c):
        f = c.fid
        while f is not None:
            if (f.id, name) in st:
                return st[(f.id, name)]
            f = f.parent
        return self.glob(name, c.mod)

    def glob(self, name, mod, node=None):
        if name in self.names:
            return self.names[name]
        if name in mod.tables:
            return Obj("table", mod=mod, name=name)
        if name in mod.funcs:
            return Fn(mod.funcs[name], mod)
        if name in mod.classes:
            return Obj("class", mod=mod, name=name, node=mod.classes[name])
        if name in mod.consts:
            box = []
            kk = K(mod, Frame(next(self.fids), None), None, lambda kd, s: RAISE)
            self.eval(mod.consts[name], {}, kk, lambda v, s: box.append(v) or T.num(0))
            return box[0]
        if name in mod.imports:
            m, a = mod.imports[name]
            if a is None:
                return Obj("module", name=m)
            if m == "math" or m == "libc.math":
                return self.mathattr(a, m)
            if m in self.modules and a in self.modules[m].funcs:
                return Fn(self.modules[m].funcs[a], self.modules[m])
            if m in self.modules and a in self.modules[m].classes:
                return Obj("class", mod=self.modules[m], name=a, node=self.modules[m].classes[a])
            if m in self.modules and (a in self.modules[m].consts or a in self.modules[m].imports):
                return self.glob(a, self.modules[m])
            return Obj("import", mod=m, name=a)
        if name in {"max", "min", "abs", "int", "float", "len", "range", "round", "bool", "tuple", "list", "enumerate",
                    "zip", "isinstance", "sum", "pow", "all", "any", "reversed", "complex",
                    "__cast__", "__addr__", "OverflowError", "ZeroDivisionError", "ValueError"}:
            return Bi(name)
        if name in ("True", "False"):
            return name == "True"
        raise Unsupported(ast.Name(id=name, ctx=ast.Load()), "unknown name")

    def mathattr(self, a, m):
        if a in ("pi", "M_PI"):
            return T.num(math.pi)
        if a == "inf":
            return T.num(math.inf)
        if a == "nan":
            return T.num(math.nan)
        if a == "e":
            return T.num(math.e)
        return Bi(("math." if m == "math" else "c.") + a)

    def e_Name(self, e, st, c, k):
        try:
            v = self.lookup(e.id, st, c)
        except Unsupported as u:
            raise Unsupported(e, u.why) from None
        return k(v, st)

    def e_Attribute(self, e, st, c, k):
        def kk(v, s2):
            if isinstance(v, Obj):
                if v.kind == "module":
                    if v.attrs["name"] == "math":
                        return k(self.mathattr(e.attr, "math"), s2)
                    if v.attrs["name"] == "operator":
                        return k(Bi("operator." + e.attr), s2)
                    return k(Bi(v.attrs["name"] + "." + e.attr), s2)
                if v.kind in ("class", "import") and v.attrs.get("name") in ("Op", "_Op"):
                    return k(OpC(e.attr), s2)
                if v.kind == "self":
                    node = v.attrs["methods"].get(e.attr)
                    if node is not None:
                        return k(Fn(node, v.attrs["mod"], None, None if _static(node) else v), s2)
                if e.attr in v.attrs:
                    return k(v.attrs[e.attr], s2)
                hook = self.hooks.get(("attr", v.kind, e.attr)) or self.hooks.get(("attr", v.kind))
                if hook:
                    return k(hook(v, e.attr), s2)
            raise Unsupported(e, "attribute")
        return self.eval(e.value, st, c, kk)

    def e_Tuple(self, e, st, c, k):
        return self.evals(e.elts, st, c, lambda vs, s2: k(PList(vs), s2))

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Lambda(self, e, st, c, k):
        return k(Fn(e, c.mod, c.fid), st)

    def e_IfExp(self, e, st, c, k):
        return self.eval(
            e.test, st, c,
            lambda v, s2: self.fork(
                self.truthy(v), s2, lambda: self.eval(e.body, s2, c, k), lambda: self.eval(e.orelse, s2, c, k)
            ),
        )

    def e_NamedExpr(self, e, st, c, k):
        def kk(v, s2):
            s2 = dict(s2)
            s2[(c.fid.id, e.target.id)] = v
            return k(v, s2)
        return self.eval(e.value, st, c, kk)

    def e_BoolOp(self, e, st, c, k):
        isand = isinstance(e.op, ast.And)

        def step(i, s2):
            def kk(v, s3):
                if i == len(e.values) - 1:
                    return k(v, s3)
                t = self.truthy(v)
                if isand:
                    return self.fork(t, s3, lambda: step(i + 1, s3), lambda: k(v if not T.is_cond(v) else False, s3))
                return self.fork(t, s3, lambda: k(v if not T.is_cond(v) else True, s3), lambda: step(i + 1, s3))
            return self.eval(e.values[i], s2, c, kk)
        return step(0, st)

    def e_UnaryOp(self, e, st, c, k):
        def kk(v, s2):
            f = self.dunder(v, _UN.get(type(e.op)))
            if f:
                return self.call_fn(f, [], {}, s2, k, c.exc)
            if isinstance(e.op, ast.Not):
                return k(T.bnot(self.truthy(v)), s2)
            if isinstance(e.op, ast.USub):
                if isinstance(v, int) and not isinstance(v, bool):
                    return k(-v, s2)
                return k(T.neg(T.tonum(v)), s2)
            if isinstance(e.op, ast.UAdd):
                return k(v, s2)
            if isinstance(e.op, ast.Invert) and isinstance(v, int):
                return k(~v, s2)
            raise Unsupported(e, "unary")
        return self.eval(e.operand, st, c, kk)

    def e_Compare(self, e, st, c, k):
        def kk(vs, s2):
            f = self.dunder(vs[0], _CMP.get(type(e.ops[0]))) if len(vs) == 2 else None
            if f:
                return self.call_fn(f, [vs[1]], {}, s2, k, c.exc)
            cond = True
            for op, a, b in zip(e.ops, vs, vs[1:]):
                cond = T.band(cond, self.compare(op, a, b, e))
            return k(cond, s2)
        return self.evals([e.left, *e.comparators], st, c, kk)

    def compare(self, op, a, b, e):
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, PList):
                r = False
                for it in b.items:
                    r = T.bor(r, self.compare(ast.Eq(), a, it, e))
                return r if isinstance(op, ast.In) else T.bnot(r)
            if isinstance(b, Obj) and b.kind == "table":
                r = isinstance(a, OpC) and self.table_get(b, a) is not None
                return r if isinstance(op, ast.In) else not r
            raise Unsupported(e, "membership")
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = (a is b) or (a is None and b is None)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                r = isinstance(a, Ptr) and isinstance(b, Ptr) and a.key == b.key
            return r if isinstance(op, ast.Is) else not r
        if isinstance(a, Obj) or isinstance(b, Obj):
            return (a is b) if isinstance(op, ast.Eq) else (a is not b)
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}[type(op)]
        if isinstance(a, OpC) or isinstance(b, OpC):
            r = a == b
            return r if name == "eq" else not r
        if isinstance(a, (int, float, str, type(None))) and isinstance(b, (int, float, str, type(None))):
            if a is None or b is None:
                r = a is b
                return r if name == "eq" else not r
            return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                    "eq": lambda: a == b, "ne": lambda: a != b}[name]()
        if T.is_cond(a) and T.is_cond(b) and name in ("eq", "ne"):
            x = T.bxor(a, b)
            return x if name == "ne" else T.bnot(x)
        return self.float_cmp(name, T.tonum(a), T.tonum(b), e)

    def float_cmp(self, name, a, b, e):
        # v == (float)v : exactly representable in single precision
        for x, y in ((a, b), (b, a)):
            if name in ("eq", "ne") and isinstance(x, tuple) and x[:2] == ("fn", "f32") and x[2] == y:
                r = ("pred", "f32", y)
                return r if name == "eq" else T.bnot(r)
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            raise Unsupported(e, "comparison operands")
        if a == b and name in ("eq", "ne"):  # x != x
            r = isnan_t(a)
            return r if name == "ne" else T.bnot(r)
        return T.cmp(name, a, b)

    def e_Subscript(self, e, st, c, k):
        def kk(b, s2):
            if isinstance(e.slice, ast.Slice):
                def ks(vs, s3):
                    if isinstance(b, PList) and all(v is None or isinstance(v, int) for v in vs):
                        return k(PList(b.items[vs[0]: vs[1]: vs[2]]), s3)
                    raise Unsupported(e, "slice")
                parts = [p or ast.Constant(value=None) for p in (e.slice.lower, e.slice.upper, e.slice.step)]
                return self.evals(parts, s2, c, ks)

            def ki(i, s3):
                if isinstance(b, Ptr):
                    if i == 0:
                        return k(s3[b.key], s3)
                    raise Unsupported(e, "pointer index")
                if isinstance(b, Obj) and b.kind == "table":
                    f = self.table_get(b, i)
                    if f is None:
                        return c.exc("KeyError", s3)
                    return k(Fn(f, b.attrs["mod"]), s3)
                if isinstance(b, PList):
                    if isinstance(i, bool):
                        i = int(i)
                    if isinstance(i, int):
                        if -len(b.items) <= i < len(b.items):
                            return k(b.items[i], s3)
                        return c.exc("IndexError", s3)
                    if T.is_num(i):
                        return k(b.items[int(T.numval(i))], s3)
                    if isinstance(i, tuple) and all(self.as_term(x) is not None for x in b.items):
                        return k(("sel", tuple(self.as_term(x) for x in b.items), i), s3)
                hook = self.hooks.get("subscript")
                if hook:
                    r = hook(b, i)
                    if r is not None:
                        return k(r, s3)
                raise Unsupported(e, "subscript")
            return self.eval(e.slice, s2, c, ki)
        return self.eval(e.value, st, c, kk)

    def as_term(self, x):
        if isinstance(x, Obj) and x.kind == "arg":
            return x.attrs["term"]
        if isinstance(x, tuple):
            return x
        if isinstance(x, (int, float)):
            return T.num(x)
        return None

    def table_get(self, tab, op):
        for key, f in tab.attrs["mod"].tables[tab.attrs["name"]]:
            if isinstance(key, ast.Attribute) and isinstance(op, OpC) and key.attr == op.name:
                return f
        return None

    def comp(self, gens, elt, st, c, k):
        """evaluate comprehension elements in order -> PList"""
        if len(gens) != 1:
            raise Unsupported(elt, "nested comprehension")
        g = gens[0]

        def ki(it, s2):
            if not isinstance(it, PList):
                raise Unsupported(g.iter, "comprehension over unknown")

            def step(i, acc, s3):
                if i == len(it.items):
                    return k(PList(acc), s3)

                def body(s4):
                    def tests(j, s5):
                        if j == len(g.ifs):
                            return self.eval(elt, s5, c, lambda v, s6: step(i + 1, [*acc, v], s6))
                        return self.eval(
                            g.ifs[j], s5, c,
                            lambda t, s6: self.fork(
                                self.truthy(t), s6, lambda: tests(j + 1, s6), lambda: step(i + 1, acc, s6)
                            ),
                        )
                    return tests(0, s4)
                return self.assign(g.target, it.items[i], s3, c, body)
            return step(0, [], s2)
        return self.eval(g.iter, st, c, ki)

    def e_GeneratorExp(self, e, st, c, k):
        return self.comp(e.generators, e.elt, st, c, k)

    e_ListComp = e_GeneratorExp

    def dunder(self, obj, name):
        if isinstance(obj, Obj) and obj.kind == "self":
            n = obj.attrs["methods"].get(name)
            if n is not None:
                return Fn(n, obj.attrs["mod"], None, obj)
        return None

    def e_BinOp(self, e, st, c, k):
        def kk(vs, s2):
            nm = _BIN.get(type(e.op))
            f = self.dunder(vs[0], f"__{nm}__")
            if f:
                return self.call_fn(f, [vs[1]], {}, s2, k, c.exc)
            f = self.dunder(vs[1], f"__r{nm}__")
            if f:
                return self.call_fn(f, [vs[0]], {}, s2, k, c.exc)
            return self.binop(type(e.op), vs[0], vs[1], s2, c, k, e)
        return self.evals([e.left, e.right], st, c, kk)

    def binop(self, op, a, b, st, c, k, e):
        if isinstance(a, (T.PyN, T.Grown)) and isinstance(b, (T.PyN, T.Grown, int)) and op in (ast.Add, ast.Sub, ast.Mult, ast.Pow):
            k0 = k
            k = lambda v, s: k0(T.Grown(v) if isinstance(v, tuple) else v, s)
        if isinstance(a, PList) and isinstance(b, PList) and op is ast.Add:
            return k(PList(a.items + b.items), st)
        if isinstance(a, PList) and isinstance(b, int) and op is ast.Mult:
            return k(PList(a.items * b), st)
        ia = isinstance(a, int) and not isinstance(a, bool)
        ib = isinstance(b, int) and not isinstance(b, bool)
        if ia and ib:
            f = {
                ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
                ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a**b,
            }.get(op)
            if self.lang == "c" and op is ast.Div:
                return k(int(a / b), st)
            if f:
                return k(f(), st)
        x, y = T.tonum(a), T.tonum(b)
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            raise Unsupported(e, "operands")
        zero = T.num(0.0)
        if op is ast.Add:
            return k(T.add(x, y), st)
        if op is ast.Sub:
            return k(T.sub(x, y), st)
        if op is ast.Mult:
            return k(T.mul(x, y), st)
        if op is ast.Div:
            if self.lang == "c":
                return k(T.div(x, y), st)
            return self.fork(T.cmp("eq", y, zero), st, lambda: c.exc("ZeroDivisionError", st), lambda: k(T.div(x, y), st))
        if op is ast.Mod and self.lang == "py":
            return self.fork(T.cmp("eq", y, zero), st, lambda: c.exc("ZeroDivisionError", st),
                             lambda: self.pymod(x, y, st, k))
        if op is ast.FloorDiv and self.lang == "py":
            return self.fork(T.cmp("eq", y, zero), st, lambda: c.exc("ZeroDivisionError", st),
                             lambda: k(T.fn("pyfloordiv", x, y), st))
        if op is ast.Pow and self.lang == "py":
            return self.pypow(x, y, st, c, k)
        raise Unsupported(e, f"operator {op.__name__}")

    def pymod(self, x, y, st, k):
        zero = T.num(0.0)
        m = T.fn("fmod", x, y)
        ne = T.cmp("ne", m, zero)
        flip = T.bxor(T.cmp("lt", y, zero), T.cmp("lt", m, zero))
        return self.fork(
            ne, st,
            lambda: self.fork(flip, st, lambda: k(T.add(m, y), st), lambda: k(m, st)),
            lambda: k(T.fn("copysign", zero, y), st),
        )

    def pypow(self, iv, iw, st, c, k):
        """CPython float_pow"""
        z, one = T.num(0.0), T.num(1.0)
        fk = self.fork

        def odd(w):
            return T.cmp("eq", T.fn("fmod", T.fn("fabs", w), T.num(2.0)), one)

        def finite():
            def zero_base():
                return fk(T.cmp("lt", iw, z), st, lambda: c.exc("ZeroDivisionError", st),
                          lambda: fk(odd(iw), st, lambda: k(iv, st), lambda: k(z, st)))

            def done(ix, negate):
                def ok():
                    return fk(negate, st, lambda: k(T.neg(ix), st), lambda: k(ix, st))
                return fk(isinf_t(ix), st, lambda: c.exc("OverflowError", st), ok)

            def negbase():
                return fk(T.cmp("ne", iw, T.fn("floor", iw)), st,
                          lambda: k(Obj("complex"), st) if self.hooks.get("complex") else c.exc("complex", st),
                          lambda: done(T.fn("c_pow", T.neg(iv), iw), odd(iw)))
            return fk(T.cmp("eq", iv, z), st, zero_base,
                      lambda: fk(T.cmp("lt", iv, z), st, negbase, lambda: done(T.fn("c_pow", iv, iw), False)))

        def inf_w():
            a = T.fn("fabs", iv)
            return fk(T.cmp("eq", a, one), st, lambda: k(one, st),
                      lambda: fk(T.bxor(T.cmp("gt", iw, z), T.cmp("gt", a, one)), st, lambda: k(z, st),
                                 lambda: k(T.fn("fabs", iw), st)))

        def inf_v():
            return fk(T.cmp("gt", iw, z), st,
                      lambda: fk(odd(iw), st, lambda: k(iv, st), lambda: k(T.fn("fabs", iv), st)),
                      lambda: fk(odd(iw), st, lambda: k(T.fn("copysign", z, iv), st), lambda: k(z, st)))
        return fk(T.cmp("eq", iw, z), st, lambda: k(one, st),
                  lambda: fk(isnan_t(iv), st, lambda: k(iv, st),
                             lambda: fk(isnan_t(iw), st,
                                        lambda: fk(T.cmp("eq", iv, one), st, lambda: k(one, st), lambda: k(iw, st)),
                                        lambda: fk(isinf_t(iw), st, inf_w,
                                                   lambda: fk(isinf_t(iv), st, inf_v, finite)))))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, c, k):
        def kf(f, s2):
            def ka(args, s3):
                def kw(vals, s4):
                    return self.apply(f, args, self.keywords([x.arg for x in e.keywords], vals), s4, c, k, e)
                return self.evals([x.value for x in e.keywords], s3, c, kw)
            if isinstance(f, Bi) and f.name == "__addr__":
                n = e.args[0]
                if isinstance(n, ast.Name):
                    return k(Ptr((c.fid.id, n.id)), s2)
                if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                    return self.eval(n.value, s2, c, k)
                raise Unsupported(e, "address-of")
            return self.evals(e.args, s2, c, ka)
        return self.eval(e.func, st, c, kf)

    def keywords(self, names, vals):
        return dict(zip(names, vals))

    def apply(self, f, args, kwargs, st, c, k, e):
        hook = self.hooks.get("call")
        if hook:
            r = hook(self, f, args, kwargs, st, c, k, e)
            if r is not NotImplemented:
                return r
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st, k, c.exc)
        if isinstance(f, Bi):
            return self.builtin(f.name, args, st, c, k, e)
        raise Unsupported(e, "call target")

    def builtin(self, name, args, st, c, k, e):
        if name in ("max", "min"):
            if len(args) == 1 and isinstance(args[0], PList):
                args = args[0].items
            acc = args[0]

            def step(i, acc, s2):
                if i == len(args):
                    return k(acc, s2)
                cond = self.compare(ast.Gt() if name == "max" else ast.Lt(), args[i], acc, e)
                return self.fork(cond, s2, lambda: step(i + 1, args[i], s2), lambda: step(i + 1, acc, s2))
            return step(1, acc, st)
        if name in ("operator.abs", "math.fabs", "c.fabs"):
            name = "abs"
        if name == "abs":
            a = args[0]
            if isinstance(a, int):
                return k(abs(a), st)
            return k(T.fn("fabs", T.tonum(a)), st)
        if name == "len":
            if isinstance(args[0], PList):
                return k(len(args[0].items), st)
            raise Unsupported(e, "len")
        if name == "range":
            if all(isinstance(a, int) for a in args):
                return k(PList(list(range(*args))), st)
            raise Unsupported(e, "range of unknown")
        if name == "enumerate":
            return k(PList([PList([i, v]) for i, v in enumerate(args[0].items, *args[1:])]), st)
        if name == "zip":
            return k(PList([PList(t) for t in zip(*[a.items for a in args])]), st)
        if name in ("tuple", "list"):
            return k(PList(args[0].items if args else []), st)
        if name == "reversed":
            return k(PList(list(reversed(args[0].items))), st)
        if name == "float":
            a = args[0]
            if isinstance(a, T.Grown):
                return self.fork(("pred", "overflow", tuple(a)), st, lambda: c.exc("OverflowError", st), lambda: k(tuple(a), st))
            return k(tuple(a) if isinstance(a, T.PyN) else T.tonum(a), st)
        if name == "bool":
            return k(self.truthy(args[0]), st)
        if name == "int":
            a = args[0]
            if isinstance(a, int):
                return k(int(a), st)
            x = T.tonum(a)
            return self.fork(T.bor(isnan_t(x), isinf_t(x)), st, lambda: c.exc("ValueError", st), lambda: k(T.fn("trunc", x), st))
        if name == "isinstance":
            hook = self.hooks.get("isinstance")
            if hook:
                return k(hook(args[0], args[1]), st)
            raise Unsupported(e, "isinstance")
        if name == "__cast__":
            t, a = args
            base = t.replace("const ", "").strip()
            if base == "double":
                return k(T.tonum(a), st)
            if base == "float":
                return k(T.fn("f32", T.tonum(a)), st)
            if base.endswith("int") or base.endswith("_t") or base in ("long", "Py_ssize_t", "long long"):
                if isinstance(a, int):
                    return k(a, st)
                if isinstance(a, tuple):
                    return k(T.fn("trunc", T.tonum(a)), st)
            return k(a, st)
        if name.startswith("operator."):
            return self.operator(name[9:], args, st, c, k, e)
        if name == "pow" and len(args) == 2:
            return self.operator("pow", args, st, c, k, e)
        if name in ("round", "math.round"):
            if len(args) != 1:
                raise Unsupported(e, "round with digits")
            name = "math.__round"
        if name.startswith("math."):
            return self.pymath(name[5:], [T.tonum(a) for a in args], st, c, k, e)
        if name.startswith("c."):
            return self.cmath(name[2:], [T.tonum(a) for a in args], st, c, k, e)
        raise Unsupported(e, f"builtin {name}")

    def operator(self, n, args, st, c, k, e):
        m = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "mod": ast.Mod, "pow": ast.Pow,
             "floordiv": ast.FloorDiv}.get(n)
        if m:
            return self.binop(m, args[0], args[1], st, c, k, e)
        if n == "neg":
            return k(T.neg(T.tonum(args[0])), st)
        if n == "not_":
            return k(T.bnot(self.truthy(args[0])), st)
        cm = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}.get(n)
        if cm:
            return k(self.compare(cm(), args[0], args[1], e), st)
        raise Unsupported(e, f"operator.{n}")

    def rint(self, x, st, k):
        r = T.fn("c_round", x)
        return self.fork(
            T.cmp("eq", T.fn("fabs", T.sub(x, r)), T.num(0.5)), st,
            lambda: k(T.mul(T.num(2.0), T.fn("c_round", T.div(x, T.num(2.0)))), st), lambda: k(r, st),
        )

    def pymath(self, n, a, st, c, k, e):
        x = a[0]
        exc = lambda: c.exc("ValueError", st)
        if n in _TRANS:
            r = T.fn(n, x)
            bad = T.bor(T.band(isnan_t(r), T.bnot(isnan_t(x))), T.band(isinf_t(r), isfinite_t(x)))
            return self.fork(bad, st, exc, lambda: k(r, st))
        if n == "sqrt":
            return self.fork(T.cmp("lt", x, T.num(0.0)), st, exc, lambda: k(T.fn("sqrt", x), st))
        if n == "atan2":
            r = T.fn("atan2", x, a[1])
            bad = T.bor(
                T.band(isnan_t(r), T.band(T.bnot(isnan_t(x)), T.bnot(isnan_t(a[1])))),
                T.band(isinf_t(r), T.band(isfinite_t(x), isfinite_t(a[1]))),
            )
            return self.fork(bad, st, exc, lambda: k(r, st))
        if n in ("floor", "ceil", "trunc"):
            return self.fork(T.bor(isnan_t(x), isinf_t(x)), st, exc, lambda: k(T.add(T.fn(n, x), T.num(0.0)), st))
        if n == "__round":
            return self.fork(T.bor(isnan_t(x), isinf_t(x)), st, exc,
                             lambda: self.rint(x, st, lambda v, s: k(T.add(v, T.num(0.0)), s)))
        if n == "copysign":
            return k(T.fn("copysign", *a), st)
        if n == "isnan":
            return k(isnan_t(x), st)
        if n == "isinf":
            return k(isinf_t(x), st)
        if n == "isfinite":
            return k(isfinite_t(x), st)
        if n == "degrees":
            return k(T.mul(x, T.num(180.0 / math.pi)), st)
        if n == "radians":
            return k(T.mul(x, T.num(math.pi / 180.0)), st)
        if n == "fmod":
            y = a[1]
            bad = T.bor(T.cmp("eq", y, T.num(0.0)), T.band(isinf_t(x), T.bnot(isnan_t(y))))
            return self.fork(bad, st, exc, lambda: k(T.fn("fmod", x, y), st))
        if n == "modf":
            raise Unsupported(e, "modf")
        if n == "pow":
            return self.pypow(x, a[1], st, c, k)
        raise Unsupported(e, f"math.{n}")

    def cmath(self, n, a, st, c, k, e):
        x = a[0]
        n = _C_ALIAS.get(n, n)
        if n == "isnan":
            return k(isnan_t(x), st)
        if n == "isinf":
            return k(isinf_t(x), st)
        if n == "isfinite":
            return k(isfinite_t(x), st)
        if n in ("rint", "nearbyint", "roundeven"):
            return self.rint(x, st, k)
        if n == "signbit":
            return k(("pred", "signbit", x), st)
        if n in _C_DIRECT:
            return k(T.fn(n, *a), st)
        raise Unsupported(e, f"C function {n}")


_BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
        ast.Pow: "pow", ast.MatMult: "matmul"}
_CMP = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
_UN = {ast.USub: "__neg__", ast.UAdd: "__pos__"}


class Frame:
    __slots__ = ("id", "parent")

    def __init__(self, id_, parent):
        self.id, self.parent = id_, parent


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
