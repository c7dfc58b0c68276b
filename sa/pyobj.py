"""Value graphs of library code over record objects: instances of the library's own classes are tuples of field
terms, methods and operators are expanded, arithmetic is arithmetic over the reals (no rounding, no zero gates)."""
from __future__ import annotations

import ast
import itertools

from . import core
from . import terms as T
from .pymods import MODS
from .veval import Bi, Evaluator, Fn, Mod, Obj, OpC, PList, Unsupported, _BIN, _CMP

_OID = itertools.count(1)
NOTIMPL = Obj("NotImplemented")
CTORS = {"_unchecked", "_raw", "_quick_construct"}


def fields(cls):
    """annotated fields of a record class, in order"""
    return [s.target.id for s in cls.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
            and not (s.target.id.startswith("_") or "ClassVar" in ast.unparse(s.annotation))]


def method(cls, name):
    """last definition of `name` that is not an @overload; (node, kind) with kind 'method'|'property'|'class'|'static'"""
    hit = None
    for n in cls.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            d = {ast.unparse(x).split("(")[0].split(".")[-1] for x in n.decorator_list}
            if "overload" in d or "setter" in d:
                continue
            hit = (n, "property" if "property" in d else "class" if "classmethod" in d else "static" if "staticmethod" in d else "method")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name and isinstance(n.value, ast.Name):
            return method(cls, n.value.id)
    return hit


class ObjEval(Evaluator):
    """ev.ignore: names of functions whose calls are no-ops; ev.number: classes that denote plain numbers"""

    def __init__(self, **kw):
        kw.setdefault("modules", MODS)
        super().__init__("py", **kw)
        self.ignore = {"assert_true", "assert_false", "check_in_loop", "require", "notify"}

    # ---- construction
    def inst(self, cls, args=(), kwargs=None, node=None):
        fs = fields(cls.attrs["node"])
        if len(args) > len(fs):
            raise Unsupported(node, "too many fields")
        vals = dict(zip(fs, args))
        for k, v in (kwargs or {}).items():
            if k not in fs or k in vals:
                raise Unsupported(node, f"field {k}")
            vals[k] = v
        if set(vals) != set(fs):
            raise Unsupported(node, f"fields of {cls.attrs['name']}")
        return Obj("inst", cls=cls, f=vals, oid=next(_OID))

    def zeros(self, cls, node):
        if not (isinstance(cls, Obj) and cls.kind == "class"):
            return 0
        if not self.is_record(cls):
            return 0
        vals = {}
        for s in cls.attrs["node"].body:
            if isinstance(s, ast.AnnAssign) and s.target.id in fields(cls.attrs["node"]):
                a = s.annotation.id if isinstance(s.annotation, ast.Name) else None
                vals[s.target.id] = 0 if a in ("float", "int", "bool", "Num", None) else self.zeros(self.glob(a, cls.attrs["mod"]), node)
        return self.inst(cls, (), vals, node)

    def is_record(self, cls, depth=0):
        for b in cls.attrs["node"].bases:
            n = b.value.id if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) else getattr(b, "id", None)
            if n == "Record":
                return True
        return False

    def getf(self, v, name, st):
        return st.get(("fld", v.attrs["oid"], name), v.attrs["f"].get(name))

    def glob(self, name, mod, node=None):
        if name == "NotImplemented":
            return NOTIMPL
        return super().glob(name, mod, node)

    # ---- attributes
    def e_Attribute(self, e, st, c, k):
        def kk(v, s2):
            if isinstance(v, Obj) and v.kind == "inst":
                if e.attr in v.attrs["f"]:
                    return k(self.getf(v, e.attr, s2), s2)
                m = method(v.attrs["cls"].attrs["node"], e.attr)
                if m:
                    mod = v.attrs["cls"].attrs["mod"]
                    if m[1] == "property":
                        return self.call_fn(Fn(m[0], mod, None, v), [], {}, s2, k, c.exc)
                    if m[1] == "method":
                        return k(Fn(m[0], mod, None, v), s2)
                    if m[1] == "class":
                        return k(Fn(m[0], mod, None, v.attrs["cls"]), s2)
                    return k(Fn(m[0], mod), s2)
            if isinstance(v, Obj) and v.kind == "class" and v.attrs["name"] not in ("Op", "_Op"):
                m = method(v.attrs["node"], e.attr)
                if m:
                    return k(Fn(m[0], v.attrs["mod"], None, v if m[1] == "class" else None), s2)
                if e.attr in CTORS and self.is_record(v):
                    return k(Obj("ctor", cls=v), s2)
            hook = self.hooks.get("attribute")
            if hook:
                r = hook(v, e.attr, s2)
                if r is not None:
                    return k(r, s2)
            return super(ObjEval, self).e_Attribute(ast.copy_location(ast.Attribute(value=_Lit(v), attr=e.attr, ctx=e.ctx), e), s2, c, k)
        if isinstance(e.value, _Lit):
            return super().e_Attribute(e, st, c, k)
        return self.eval(e.value, st, c, kk)

    def e__Lit(self, e, st, c, k):
        return k(e.v, st)

    # ---- calls
    def apply(self, f, args, kwargs, st, c, k, e):
        hook = self.hooks.get("call")
        if hook:
            r = hook(self, f, args, kwargs, st, c, k, e)
            if r is not NotImplemented:
                return r
        if isinstance(f, Fn) and f.node.name in self.ignore if isinstance(f, Fn) and isinstance(f.node, ast.FunctionDef) else False:
            return k(None, st)
        if isinstance(f, Obj) and f.kind == "import" and f.attrs["name"] in self.ignore:
            return k(None, st)
        if isinstance(f, Obj) and (f.kind == "ctor" or (f.kind == "class" and self.is_record(f))):
            cls = f.attrs["cls"] if f.kind == "ctor" else f
            return k(self.inst(cls, args, kwargs, e), st)
        if isinstance(f, Obj) and f.kind == "class" and f.attrs.get("name") == "Array" and f.attrs["mod"].name.endswith("array"):
            return k(PList(list(args)), st)
        if isinstance(f, Fn) and isinstance(f.node, ast.FunctionDef):
            nm = self.native(f)
            if nm:
                return nm(args, st, k, c, e)
        return super().apply(f, args, kwargs, st, c, k, e)

    def native(self, f):
        """real-valued meaning of library functions whose body is a plain Python function of numbers"""
        n, m = f.node.name, f.mod.name
        if m.endswith("math_impls") and n.startswith("_") and n.strip("_") in ("sin", "cos", "tan", "atan2", "atan", "asin", "acos"):
            return lambda a, st, k, c, e: k(T.fn(n.strip("_"), *[T.tonum(x) for x in a]), st)
        if n == "zeros" and m.endswith("values"):
            return lambda a, st, k, c, e: k(self.zeros(a[0], e), st)
        if n in ("_max", "_min") and m.endswith("builtin_impls"):
            return lambda a, st, k, c, e: self.builtin(n[1:], a, st, c, k, e)
        if n == "_abs" and m.endswith("builtin_impls"):
            return lambda a, st, k, c, e: self.builtin("abs", a, st, c, k, e)
        if n == "_round" and m.endswith("math_impls"):
            return lambda a, st, k, c, e: k(T.fn("round", T.tonum(a[0])), st)
        return None

    def builtin(self, name, args, st, c, k, e):
        if name == "len" and isinstance(args[0], PList):
            return k(len(args[0].items), st)
        if name == "isinstance" and "isinstance" not in self.hooks:
            a, cl = args
            names = [x.attrs.get("name") if isinstance(x, Obj) else getattr(x, "name", None) for x in (cl.items if isinstance(cl, PList) else [cl])]
            if isinstance(a, PList):
                return k("tuple" in names, st)
            if isinstance(a, Obj) and a.kind == "inst":
                return k(a.attrs["cls"].attrs["name"] in names, st)
            if isinstance(a, (int, float)) or isinstance(a, tuple):
                return k(bool({"Num", "int", "float"} & set(names)), st)
        return super().builtin(name, args, st, c, k, e)

    # ---- operators
    def dunder(self, obj, name):
        if isinstance(obj, Obj) and obj.kind == "inst":
            m = method(obj.attrs["cls"].attrs["node"], name)
            return Fn(m[0], obj.attrs["cls"].attrs["mod"], None, obj) if m else None
        return super().dunder(obj, name)

    def e_BinOp(self, e, st, c, k):
        nm = _BIN.get(type(e.op))

        def kk(vs, s2):
            f = self.dunder(vs[0], f"__{nm}__")
            g = self.dunder(vs[1], f"__r{nm}__")

            def refl(s3):
                if g:
                    return self.call_fn(g, [vs[0]], {}, s3, k, c.exc)
                return self.binop(type(e.op), vs[0], vs[1], s3, c, k, e)
            if f:
                return self.call_fn(f, [vs[1]], {}, s2, lambda v, s3: refl(s3) if v is NOTIMPL else k(v, s3), c.exc)
            return refl(s2)
        return self.evals([e.left, e.right], st, c, kk)

    def e_UnaryOp(self, e, st, c, k):
        def kk(v, s2):
            f = self.dunder(v, {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}.get(type(e.op), "?"))
            if f:
                return self.call_fn(f, [], {}, s2, k, c.exc)
            if isinstance(v, Obj) and v.kind == "inst" and isinstance(e.op, ast.UAdd):
                return k(v, s2)
            return super(ObjEval, self).e_UnaryOp(ast.copy_location(ast.UnaryOp(op=e.op, operand=_Lit(v)), e), s2, c, k)
        return self.eval(e.operand, st, c, kk)

    def binop(self, op, a, b, st, c, k, e):
        if isinstance(a, bool) or (isinstance(a, tuple) and T.is_cond(a)):
            a = T.tonum(a)
        if isinstance(b, bool) or (isinstance(b, tuple) and T.is_cond(b)):
            b = T.tonum(b)
        ints = isinstance(a, int) and isinstance(b, int)
        if not ints and not isinstance(a, (PList, Obj)) and not isinstance(b, (PList, Obj)):
            x, y = T.tonum(a), T.tonum(b)
            if op is ast.Div:
                return k(T.div(x, y), st)
            if op is ast.Mod:
                return k(T.fn("pymod", x, y), st)
            if op is ast.FloorDiv:
                return k(T.fn("floor", T.div(x, y)), st)
            if op is ast.Pow:
                return k(T.fn("c_pow", x, y), st)
        return super().binop(op, a, b, st, c, k, e)

    # ---- patterns
    def match(self, p, v, st, c):
        if isinstance(p, ast.MatchClass):
            n = p.cls.id if isinstance(p.cls, ast.Name) else ast.unparse(p.cls)
            if n in ("Num", "int", "float"):
                if isinstance(v, (int, float, tuple)) and not isinstance(v, PList):
                    subs = [v]
                else:
                    return False, []
            elif isinstance(v, Obj) and v.kind == "inst":
                if v.attrs["cls"].attrs["name"] != n:
                    return False, []
                subs = [self.getf(v, f, st) for f in fields(v.attrs["cls"].attrs["node"])]
            elif v is None or isinstance(v, (int, float, tuple, PList)):
                return (isinstance(v, PList) and n in ("tuple", "list")), []
            else:
                raise Unsupported(p, "class pattern")
            if p.kwd_patterns or len(p.patterns) > len(subs):
                raise Unsupported(p, "class pattern")
            out = []
            for q, s in zip(p.patterns, subs):
                m, b = self.match(q, s, st, c)
                if m is not True:
                    return m, []
                out += b
            return True, out
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, PList):
                return False, []
            if len(v.items) != len(p.patterns) or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                    raise Unsupported(p, "star pattern")
                return False, []
            out = []
            for q, s in zip(p.patterns, v.items):
                m, b = self.match(q, s, st, c)
                if m is not True:
                    return m, []
                out += b
            return True, out
        if isinstance(p, ast.MatchSingleton):
            return (v is p.value), []
        return super().match(p, v, st, c)

    # ---- stores into instances
    def x_AugAssign(self, s, st, c, go):
        if isinstance(s.op, ast.MatMult):
            def put(v, s2):
                if isinstance(s.target, ast.Attribute):
                    return self.assign(s.target, v, s2, c, go)

                def ktgt(t, s3):  # whole-object copy
                    if isinstance(t, Obj) and t.kind == "inst" and isinstance(v, Obj) and v.kind == "inst":
                        s3 = dict(s3)
                        for f in t.attrs["f"]:
                            s3[("fld", t.attrs["oid"], f)] = self.getf(v, f, s3)
                        return go(s3)
                    raise Unsupported(s, "copy target")
                return self.eval(_ld(s.target), s2, c, ktgt)
            return self.eval(s.value, st, c, put)
        return super().x_AugAssign(s, st, c, go)

    def assign(self, t, v, st, c, go):
        if isinstance(t, ast.Attribute):
            def kb(b, s2):
                if isinstance(b, Obj) and b.kind == "inst" and t.attr in b.attrs["f"]:
                    s2 = dict(s2)
                    s2[("fld", b.attrs["oid"], t.attr)] = v
                    return go(s2)
                hook = self.hooks.get("store")
                if hook:
                    return hook(self, b, t.attr, v, s2, c, go, t)
                raise Unsupported(t, "attribute store")
            return self.eval(t.value, st, c, kb)
        return super().assign(t, v, st, c, go)

    def freeze(self, v, st):
        """nested tuple/dict of terms with all stores applied"""
        if isinstance(v, Obj) and v.kind == "inst":
            return {f: self.freeze(self.getf(v, f, st), st) for f in v.attrs["f"]}
        if isinstance(v, PList):
            return [self.freeze(x, st) for x in v.items]
        if v is None or isinstance(v, Obj):
            return v
        return T.tonum(v)


class _Lit(ast.expr):
    """an already evaluated value in expression position"""
    _fields = ()

    def __init__(self, v):
        super().__init__()
        self.v = v


def _ld(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        ast.copy_location(n, t)
    return t2
