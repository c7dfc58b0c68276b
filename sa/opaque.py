"""Path summaries of imperative functions over opaque data.

`OEval` walks a function body once. Struct fields, array elements and calls it does not expand become uninterpreted
terms (versioned by the stores that may alias them); every branch becomes a gate; loops over unknown ranges are walked
once with a bound variable and leave behind exists/for-all facts. The result of `paths` is a gated tree whose leaves
carry the returned value and the trace of effects of that path, so a rule can demand that the conditions on the way to
an effect imply the condition that makes the effect legal.
"""
from __future__ import annotations

import ast

from . import terms as T
from .veval import Bi, Evaluator, Fn, Frame, K, Obj, OpC, PList, Ptr, Unsupported, _static

PURE_BI = {"len", "min", "max", "abs", "sum", "sorted", "id", "type", "int", "bool", "float", "set", "dict", "list", "tuple", "range",
           "str", "repr", "hasattr", "getattr", "isinstance", "issubclass", "enumerate", "zip", "reversed", "iter", "next"}


def tm(v):
    """any value as a term"""
    if isinstance(v, bool):
        return T.num(1.0 if v else 0.0)
    if isinstance(v, (int, float)):
        return T.num(float(v)) if abs(v) < 2**53 or v in (float("inf"), float("-inf")) else ("str", str(v))
    if v is None:
        return ("none",)
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, OpC):
        return ("str", f"Op.{v.name}")
    if isinstance(v, PList):
        if len(v.items) == 1 and isinstance(v.items[0], tuple) and v.items[0][:2] == ("fn", "splat") and v.items[0][2][0] == "var" and str(v.items[0][2][1]).startswith("%"):
            return v.items[0][2]  # the list a loop built
        return ("list", *[tm(x) for x in v.items])
    if isinstance(v, PDict):
        return ("dict", *[("pair2", tm(a), tm(b)) for a, b in v.pairs])
    if isinstance(v, Fn):
        return ("str", "fn:" + getattr(v.node, "name", "lambda"))
    if isinstance(v, Bi):
        return ("str", "builtin:" + v.name)
    if isinstance(v, Ptr):
        return ("str", f"ptr:{v.key}")
    if isinstance(v, Obj):
        return v.attrs["term"] if "term" in v.attrs else ("str", f"obj:{v.kind}:{v.attrs.get('name', '')}")
    if isinstance(v, tuple):
        return T.tonum(v) if T.is_cond(v) else v
    return ("str", repr(v))


class PDict:
    """a dict whose keys are all known (in insertion order)"""
    __slots__ = ("pairs",)

    def __init__(self, pairs):
        self.pairs = list(pairs)

    def find(self, k):
        for i, (a, _v) in enumerate(self.pairs):
            if type(a) is type(k) and a == k or (isinstance(a, (int, float)) and isinstance(k, (int, float)) and a == k):
                return i
        return None

    def put(self, k, v):
        i = self.find(k)
        if i is None:
            return PDict([*self.pairs, (k, v)])
        return PDict([(a, v if j == i else b) for j, (a, b) in enumerate(self.pairs)])

    def keys(self):
        return PList([a for a, _v in self.pairs])


def O_tm(v):
    return tm(v)


def constant(k):
    return k is None or isinstance(k, (bool, int, float, str, OpC))


def assigned(body):
    """names assigned, and names appended to, in a statement list"""
    names, lists = set(), set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is None:
                names.discard(n.target.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and isinstance(n.func.value, ast.Name):
                lists.add(n.func.value.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
                lists.add(n.target.id)
    return names, lists


CHANGING = ("update", "pop", "clear", "insert", "remove", "add", "discard", "setdefault", "popitem", "sort", "reverse", "appendleft", "popleft", "extendleft",
            "difference_update", "intersection_update")


def forks(body):
    return sum(isinstance(n, (ast.If, ast.While, ast.For, ast.Try, ast.IfExp, ast.match_case)) for s in body for n in ast.walk(s))


def cells(body):
    """names whose elements are assigned"""
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    *CHANGING,):
                out.add(n.func.value.id)
    return out


def mentions(t, pre):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "var" and isinstance(t[1], str):
            return t[1].startswith(pre)
        return any(mentions(x, pre) for x in t)
    return False


def tree_cond(tree, pred):
    """condition under which the gated tree ends in a leaf satisfying pred"""
    if tree[0] == "ite":
        return T.bite(tree[1], tree_cond(tree[2], pred), tree_cond(tree[3], pred))
    return bool(pred(tree))


def tree_map(tree, f):
    if tree[0] == "ite":
        return T.ite(tree[1], tree_map(tree[2], f), tree_map(tree[3], f))
    return f(tree)


def tree_leaves(tree, out=None):
    out = [] if out is None else out
    if tree[0] == "ite":
        tree_leaves(tree[2], out)
        tree_leaves(tree[3], out)
    else:
        out.append(tree)
    return out


class Leaf:
    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st

    @property
    def events(self):
        return self.st.get(("ev",), ())


def named(kwargs):
    """keyword arguments, in the order of their names"""
    return [("fn", "kw", ("str", n or "**"), tm(v)) for n, v in sorted(kwargs.items(), key=lambda p: p[0] or "")]


def bound(node, args, kwargs, method):
    """arguments of a known function by position where they can be"""
    a = getattr(node, "args", None)
    if a is None or not kwargs:
        return [*args, *named(kwargs)]
    ps = [p.arg for p in [*a.posonlyargs, *a.args]][1 if method else 0:]
    out, rest = list(args), dict(kwargs)
    while len(out) < len(ps) and ps[len(out)] in rest and not any(  # positions are only known without a splat
            isinstance(x, tuple) and x[:2] == ("fn", "splat") for x in out):
        out.append(rest.pop(ps[len(out)]))
    return [*out, *named(rest)]


def fresh(v):
    """a sequence nothing else refers to: converting it to a list or a tuple changes nothing"""
    return isinstance(v, (PList, PDict)) or isinstance(v, tuple) and v[:1] == ("fn",) and v[1] in (
        "map", "mapg", "dictof", "range", "sorted", "list", "tuple", "enumerate", "zip", "reversed", "slice", ".items()", ".keys()", ".values()") or isinstance(v, tuple) and v[:1] == ("list",)


def _takes_rest(node):
    """every keyword the function takes goes into its collection of keywords"""
    a = node.args
    return a.kwarg is not None and not a.kwonlyargs and len(a.args) <= 1


class OEval(Evaluator):
    converts = False  # int(x) and list(x) of something that exists are not x
    dotted = False  # calls of own methods that are not expanded look like calls of methods of other objects

    def __init__(self, mod, names=None, opaque=(), pure=(), hooks=None, modules=None, lang="c", self_cls=None):
        super().__init__(lang, names or {}, hooks or {}, modules or {})
        self.mod, self.opaque, self.pure = mod, set(opaque), set(pure)
        self.leaves, self.active, self.depth_loop, self.loops, self.pc = [], [], 0, 0, []
        self.self_methods = {}
        if self_cls is not None:
            self.self_methods = {m.name: m for m in self_cls.body if isinstance(m, ast.FunctionDef)}

    # ---- entry
    def paths(self, fn, args=None, st=None):
        """gated tree of ("leaf", i); params without a given value become variables of their own name"""
        node = fn.node
        ps = [p.arg for p in [*node.args.posonlyargs, *node.args.args]]
        vals = []
        for i, p in enumerate(ps[1:] if fn.self_ is not None else ps):
            vals.append(args[i] if args is not None and i < len(args) and args[i] is not None else T.var(p))
        return self.call_fn(fn, vals, {}, dict(st or {}), lambda v, s: self.leaf("ret", v, s), lambda kd, s: self.leaf("raise", kd, s))

    def leaf(self, kind, v, st):
        self.leaves.append(Leaf(kind, v, st))
        return ("leaf", len(self.leaves) - 1)

    def me(self):
        return Obj("self", methods=self.self_methods, mod=self.mod, term=T.var("self"))

    def expr(self, text, env, st=None):
        """value of an expression text over given names in the state st"""
        fid = next(self.fids)
        st = dict(st or {})
        for n, v in env.items():
            st[(fid, n)] = v
        box = []
        k = K(self.mod, Frame(fid, None), None, lambda kd, s: ("raise",))
        r = self.eval(ast.parse(text, mode="eval").body, st, k, lambda v, s: box.append(v) or ("box", len(box) - 1))
        return tree_map(r, lambda l: self.truthy(box[l[1]]) if False else tm(box[l[1]])) if r[0] == "ite" else box[r[1]]

    def cond(self, text, env, st=None):
        """expr as a condition"""
        r = self.expr(text, env, st)
        return r if isinstance(r, bool) else T.truth(O_tm(r))

    # ---- events
    def emit(self, st, ev):
        st = dict(st)
        st[("ev",)] = (*st.get(("ev",), ()), ev)
        return st

    # ---- locations
    def field_key(self, loc):
        return loc[1] if loc[1].startswith(".") else "[]"

    def load(self, loc, st):
        n = 0
        for ev in reversed(st.get(("ev",), ())):
            if ev[0] == "store":
                if ev[1] == loc:
                    if n == 0 and isinstance(ev[2], (PList, PDict, Obj, Fn)):
                        return ev[2]
                    return tm(ev[2]) if n == 0 else ("fn", "ver", loc, T.num(n))
                if self.may_alias(ev[1], loc):
                    n += 1
            elif ev[0] == "loop":
                n += sum(1 for x in ev[3] if self.may_alias(x, loc))
        return loc if not n else ("fn", "ver", loc, T.num(n + 0.0))

    def may_alias(self, a, b):
        if a[1] != b[1]:
            return False
        if a[1] == "[]":
            if a[2] != b[2]:
                return False
            if T.is_num(a[3]) and T.is_num(b[3]):
                return a[3] == b[3]
        return True

    def e_Attribute(self, e, st, c, k):
        def kk(v, s2):
            if isinstance(v, PDict):
                return k(Obj("dictm", name=e.attr, d=v), s2)
            if isinstance(v, Obj) and v.kind == "self" and e.attr in self.self_methods:
                return k(Fn(self.self_methods[e.attr], self.mod, None, None if _static(self.self_methods[e.attr]) else v), s2)
            hook = self.hooks.get("attr")
            if hook:
                r = hook(self, v, e.attr, s2)
                if r is not NotImplemented:
                    return k(r, s2)
            if isinstance(v, Obj) and v.kind in ("class", "import") and v.attrs.get("name") in ("Op", "_Op"):
                return k(OpC(e.attr), s2)
            if isinstance(v, Obj) and e.attr in v.attrs and e.attr not in ("term", "name", "mod", "methods", "node"):
                return k(v.attrs[e.attr], s2)
            return k(self.load(("fn", "." + e.attr, tm(v)), s2), s2)
        return self.eval(e.value, st, c, kk)

    def e_Subscript(self, e, st, c, k):
        def kk(b, s2):
            if isinstance(e.slice, ast.Slice):
                parts = [p or ast.Constant(value=None) for p in (e.slice.lower, e.slice.upper, e.slice.step)]

                def ks(vs, s3):
                    if isinstance(b, PList) and all(v is None or isinstance(v, int) for v in vs):
                        lead = next((i for i, x in enumerate(b.items) if _map(x)), None)
                        if lead is None or 0 <= (vs[0] or 0) <= lead and (vs[1] is None or 0 <= vs[1] <= lead) and vs[2] in (None, 1):
                            return k(PList(b.items[vs[0]: vs[1]: vs[2]]), s3)
                    if len(vs) == 3 and vs[0] is None and vs[1] is None and vs[2] == -1:
                        return k(("fn", "reversed", tm(b)), s3)
                    return k(("fn", "slice", tm(b), *[tm(v) for v in vs]), s3)
                return self.evals(parts, s2, c, ks)

            def ki(i, s3):
                if isinstance(b, Ptr) and i == 0:
                    return k(s3[b.key], s3)
                if isinstance(b, PDict) and constant(i):
                    j = b.find(i)
                    return c.exc("KeyError", s3) if j is None else k(b.pairs[j][1], s3)
                if isinstance(b, PList) and isinstance(i, int) and -len(b.items) <= i < len(b.items) and not any(
                        _map(x) for x in (b.items[: i + 1] if i >= 0 else b.items[i:])):
                    return k(b.items[i], s3)
                hook = self.hooks.get("subscript")
                if hook:
                    r = hook(b, i)
                    if r is not None:
                        return k(r, s3)
                return k(self.load(("fn", "[]", tm(b), tm(i)), s3), s3)
            return self.eval(e.slice, s2, c, ki)
        return self.eval(e.value, st, c, kk)

    def assign(self, t, v, st, c, go):
        if isinstance(t, ast.Name):
            return super().assign(t, v, st, c, go)
        if isinstance(t, (ast.Tuple, ast.List)) and (not isinstance(v, PList) or any(_map(x) for x in v.items) and not any(isinstance(x, ast.Starred) for x in t.elts)):
            return super().assign(t, PList([("fn", "[]", tm(v), T.num(float(i))) for i in range(len(t.elts))]), st, c, go)
        if isinstance(t, ast.Attribute):
            return self.eval(t.value, st, c, lambda b, s2: go(self.emit(s2, ("store", ("fn", "." + t.attr, tm(b)), v, t.lineno))))
        if isinstance(t, ast.Subscript):
            def kb(b, s2):
                if isinstance(b, Ptr):
                    s2 = dict(s2)
                    s2[b.key] = v
                    return go(s2)

                def ks(i, s3):
                    if isinstance(t.value, ast.Attribute) and (isinstance(b, PDict) and constant(i) or isinstance(b, PList) and isinstance(i, int) and 0 <= i < len(b.items)):
                        if isinstance(b, PDict):
                            nb = b.put(i, v)
                        else:
                            nb = PList(b.items)
                            nb.items[i] = v
                        return self.assign(t.value, nb, s3, c, go)
                    if isinstance(b, PDict) and constant(i) and isinstance(t.value, ast.Name):
                        return Evaluator.assign(self, t.value, b.put(i, v), s3, c, go)
                    if isinstance(b, PList) and isinstance(i, int) and isinstance(t.value, ast.Name) and -len(b.items) <= i < len(b.items):
                        xs = list(b.items)
                        xs[i] = v
                        return Evaluator.assign(self, t.value, PList(xs), s3, c, go)
                    return go(self.emit(s3, ("store", ("fn", "[]", tm(b), tm(i)), v, t.lineno)))
                return self.eval(t.slice, s2, c, ks)
            return self.eval(t.value, st, c, kb)
        return super().assign(t, v, st, c, go)

    def x_Delete(self, s, st, c, go):
        def step(i, s2):
            if i == len(s.targets):
                return go(s2)
            t = s.targets[i]
            if isinstance(t, ast.Name):
                return step(i + 1, s2)
            if isinstance(t, ast.Subscript):
                # removing an entry is popping it
                call = ast.Call(func=ast.Attribute(value=t.value, attr="pop", ctx=ast.Load()), args=[t.slice], keywords=[])
                if isinstance(t.slice, ast.Slice):
                    call = ast.Call(func=ast.Attribute(value=t.value, attr="__delitem__", ctx=ast.Load()),
                                    args=[p or ast.Constant(value=None) for p in (t.slice.lower, t.slice.upper, t.slice.step)], keywords=[])
                e = ast.fix_missing_locations(ast.copy_location(ast.Expr(value=call), s))
                return self.eval(e.value, s2, c, lambda _v, s3: step(i + 1, s3))
            if isinstance(t, ast.Attribute):
                call = ast.Call(func=ast.Attribute(value=t.value, attr="__delattr__", ctx=ast.Load()), args=[ast.Constant(value=t.attr)], keywords=[])
                e = ast.fix_missing_locations(ast.copy_location(ast.Expr(value=call), s))
                return self.eval(e.value, s2, c, lambda _v, s3: step(i + 1, s3))
            raise Unsupported(s, "del")
        return step(0, st)

    def x_Raise(self, s, st, c, go):
        return c.exc("raise", st)

    # ---- names
    def glob(self, name, mod, node=None):
        try:
            return super().glob(name, mod, node)
        except Unsupported:
            return Bi(name) if name in PURE_BI else T.var("g:" + name)

    # ---- calls
    def keywords(self, names, vals):
        """keyword arguments; unpacked mappings of known keys are spread, others stay one item"""
        out = {}
        for n, v in zip(names, vals):
            if n is None and isinstance(v, PDict) and all(isinstance(a, str) for a, _b in v.pairs):
                out.update(v.pairs)
            elif n is None:
                out[None] = v if None not in out else ("fn", "dict", ("fn", "splat", tm(out[None])), ("fn", "splat", tm(v)))
            else:
                out[n] = v
        return out

    def rest_of_keywords(self, rest, node):
        if len(rest) == 1 and rest[0][0] is None:
            return rest[0][1]
        d = PDict([])
        if all(n is not None for n, _v in rest):
            for n, v in rest:
                d = d.put(n, v)
            return d
        return ("fn", "dict", *[x for n, v in rest for x in ([("fn", "splat", tm(v))] if n is None else [("str", n), tm(v)])])

    def e_Call(self, e, st, c, k):
        # list building on a local name
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ("append", "extend") and isinstance(f.value, ast.Name):
            try:
                cur = self.lookup(f.value.id, st, c)
            except Unsupported:
                cur = None
            if isinstance(cur, PList):
                def add(vs, s2):
                    s2 = dict(s2)
                    items = [vs[0]] if f.attr == "append" else (vs[0].items if isinstance(vs[0], PList) else [("fn", "splat", tm(vs[0]))])
                    fr = c.fid
                    while fr is not None and (fr.id, f.value.id) not in s2:
                        fr = fr.parent
                    s2[(fr.id, f.value.id)] = PList([*cur.items, *items])
                    return k(None, s2)
                return self.evals(e.args, st, c, add)
        if isinstance(f, ast.Name) and f.id in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            return self.quantifier(f.id, e.args[0], st, c, k)
        return super().e_Call(e, st, c, k)

    def apply(self, f, args, kwargs, st, c, k, e):
        hook = self.hooks.get("call")
        if hook:
            r = hook(self, f, args, kwargs, st, c, k, e)
            if r is not NotImplemented:
                return r
        if isinstance(f, Fn):
            name = getattr(f.node, "name", "<lambda>")
            if name not in self.opaque and f.node not in self.active and (None not in kwargs or _takes_rest(f.node)) and not any(isinstance(a, tuple) and a[:2] == ("fn", "splat") for a in args):
                self.active.append(f.node)
                try:
                    return self.call_inline(f, args, kwargs, st, k, c)
                finally:
                    self.active.remove(f.node)
            args = bound(f.node, args, kwargs, f.self_ is not None)
            if self.dotted and f.self_ is not None:
                return self.unknown("." + name, [f.self_, *args], st, k, e)
            return self.unknown(name, args, st, k, e)
        if isinstance(f, Obj) and f.kind == "dictm":
            return self.dict_method(f.attrs["d"], f.attrs["name"], args, st, k, c, e)
        if isinstance(f, Bi):
            if f.name == "__cast__":
                return k(args[1], st)
            kwargs = {n: v for n, v in kwargs.items() if (f.name, n) != ("zip", "strict")}
            if f.name == "enumerate" and len(args) == 1 and set(kwargs) == {"start"}:
                args, kwargs = [*args, kwargs["start"]], {}
            if f.name == "dict" and not args and None not in kwargs:
                return k(PDict(list(kwargs.items())), st)
            if kwargs:
                return k(("fn", f.name, *[tm(a) for a in args], *named(kwargs)), st)
            if f.name != "dict":
                args = [a.keys() if isinstance(a, PDict) else a for a in args]
            if f.name == "int" and len(args) == 1 and isinstance(args[0], float) and abs(args[0]) < 2**53:
                return k(int(args[0]), st)
            if f.name == "int" and len(args) == 1 and isinstance(args[0], float) and (args[0] != args[0] or abs(args[0]) == float("inf")):
                return c.exc("OverflowError", st)
            if f.name == "dict" and len(args) == 1 and isinstance(args[0], PDict):
                return k(PDict(args[0].pairs), st)
            if f.name in ("min", "max") and len(args) == 1 and isinstance(args[0], PList) and args[0].items and all(isinstance(x, (int, float)) for x in args[0].items):
                return k({"min": min, "max": max}[f.name](args[0].items), st)
            if f.name in ("len", "range", "list", "tuple", "enumerate", "zip", "reversed", "min", "max", "abs", "bool") and all(
                (isinstance(a, PList) and not any(_map(x) for x in a.items)) or isinstance(a, int) for a in args
            ) and not (f.name in ("min", "max") and any(isinstance(a, PList) and not all(isinstance(x, int) for x in a.items) for a in args)):
                return self.builtin(f.name, args, st, c, k, e)
            if f.name in ("int", "float", "list", "tuple") and len(args) == 1 and (not self.converts or f.name in ("list", "tuple") and fresh(args[0])):
                return k(args[0], st)
            if f.name in PURE_BI:
                return k(("fn", f.name, *[tm(a) for a in args]), st)
            return k(("fn", f.name, *[tm(a) for a in args]), st)
        t = tm(f)
        if t[0] == "fn" and len(t) > 2 and t[1].startswith("."):
            return self.unknown(t[1], [t[2], *args, *named(kwargs)], st, k, e)
        if t[0] == "fn" and t[1] in ("[]", "ver", "at", "after", "item", "elem") or t[0] == "ite":
            return self.unknown("()", [t, *args, *named(kwargs)], st, k, e)
        name = t[1][2:] if t[0] == "var" and str(t[1]).startswith("g:") else str(t[1]) if len(t) > 1 else t[0]
        if t[0] == "str":
            name = t[1].split(":")[-1]
        return self.unknown(name, [*args, *named(kwargs)], st, k, e)

    def call_inline(self, f, args, kwargs, st, k, c):
        # the continuation runs after the callee is done: it must not count as part of the activation
        node = f.node

        def back(v, s):
            had = node in self.active
            if had:
                self.active.remove(node)
            try:
                return k(v, s)
            finally:
                if had:
                    self.active.append(node)
        return self.call_fn(f, args, kwargs, st, back, c.exc)

    def dict_method(self, d, name, args, st, k, c, e):
        if name == "items":
            return k(PList([PList([a, b]) for a, b in d.pairs]), st)
        if name == "keys":
            return k(d.keys(), st)
        if name == "values":
            return k(PList([b for _a, b in d.pairs]), st)
        if name == "copy":
            return k(PDict(d.pairs), st)
        if name == "get" and args and constant(args[0]):
            j = d.find(args[0])
            return k(d.pairs[j][1] if j is not None else (args[1] if len(args) > 1 else None), st)
        return self.unknown("." + name, [d, *args], st, k, e)

    def unknown(self, name, args, st, k, e):
        ts = tuple(tm(a) for a in args)
        r = ("fn", name + "()", *ts)
        if name.lstrip(".") in self.pure:
            return k(r, st)
        n = sum(1 for ev in st.get(("ev",), ()) if ev[0] == "call" and ev[1] == name and ev[2] == ts)
        return k(r if not n else ("fn", name + f"()#{n}", *ts), self.emit(st, ("call", name, ts, getattr(e, "lineno", 0))))

    def e_Dict(self, e, st, c, k):
        if all(x is not None for x in e.keys):
            def kd(vs, s):
                ks, xs = vs[0::2], vs[1::2]
                if all(constant(x) for x in ks):
                    d = PDict([])
                    for a, b in zip(ks, xs):
                        d = d.put(a, b)
                    return k(d, s)
                return k(("fn", "dict", *[tm(v) for v in vs]), s)
            return self.evals([x for p in zip(e.keys, e.values) for x in p], st, c, kd)
        def ks(vs, s):
            vs = iter(vs)
            d, out = PDict([]), []
            for key in e.keys:
                if key is None:
                    v = next(vs)
                    out.append(("fn", "splat", tm(v)))
                    if d is not None and isinstance(v, PDict):
                        for a, b in v.pairs:
                            d = d.put(a, b)
                    else:
                        d = None
                else:
                    a, b = next(vs), next(vs)
                    out += [tm(a), tm(b)]
                    d = d.put(a, b) if d is not None and constant(a) else None
            return k(d if d is not None else ("fn", "dict", *out), s)
        return self.evals([x for p in zip(e.keys, e.values) for x in (p if p[0] is not None else p[1:])], st, c, ks)

    def e_JoinedStr(self, e, st, c, k):
        return k(("str", ast.unparse(e)), st)

    # ---- operators
    def compare(self, op, a, b, e):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a is None or b is None:
                o = b if a is None else a
                r = True if o is None else (("pred", "isnone", tm(o)) if isinstance(o, tuple) else False)
                if isinstance(o, tuple) and o[:1] == ("fn",) and len(o) == 3 and o[1][:1] == "." and o[2][:2] == ("fn", ".blocks"):
                    r = False  # a block of the mode
            else:
                r = T.cmp("eq", tm(a), tm(b)) if tm(a) != tm(b) else True
            return T.bnot(r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, PDict):
                if constant(a):
                    r = b.find(a) is not None
                    return (not r) if isinstance(op, ast.NotIn) else r
                b = b.keys()
            if isinstance(b, PList) and not any(_map(x) for x in b.items):
                r = False
                for it in b.items:
                    r = T.bor(r, self.compare(ast.Eq(), a, it, e))
            else:
                r = ("pred", "in", tm(a), tm(b))
            return T.bnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return super().compare(op, a, b, e)
        x, y = tm(a), tm(b)
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}[type(op)]
        if name in ("eq", "ne") and T.is_cond(a) and T.is_cond(b):
            r = T.bxor(a, b)
            return r if name == "ne" else T.bnot(r)
        if name in ("eq", "ne") and (x == y or {x[0], y[0]} <= {"str", "none", "num"}):
            return (x == y) == (name == "eq")
        if x[0] == "ite" or y[0] == "ite":
            if x[0] == "ite":
                return T.bite(x[1], self.compare(op, x[2], y, e), self.compare(op, x[3], y, e))
            return T.bite(y[1], self.compare(op, x, y[2], e), self.compare(op, x, y[3], e))
        if x[0] == y[0] == "list" and not any(_map(v) or v[:2] == ("fn", "splat") for v in (*x[1:], *y[1:])):
            # displays compare element by element
            same, less = True, False
            for v, w in zip(x[1:], y[1:]):
                if name not in ("eq", "ne"):
                    less = T.bor(less, T.band(same, self.compare(ast.Lt() if name in ("lt", "le") else ast.Gt(), v, w, e)))
                same = T.band(same, self.compare(ast.Eq(), v, w, e))
            if name in ("eq", "ne"):
                return (same if name == "eq" else T.bnot(same)) if len(x) == len(y) else name == "ne"
            if len(x) == len(y):
                return less if name in ("lt", "gt") else T.bor(less, same)
        return T.cmp(name, x, y)

    def binop(self, op, a, b, st, c, k, e):
        if isinstance(a, PList) and isinstance(b, PList) and op is ast.Add:
            return k(PList([*a.items, *b.items]), st)
        if op is ast.Add and (isinstance(a, PList) or isinstance(b, PList)):
            # list + unknown list
            x = a.items if isinstance(a, PList) else [("fn", "splat", tm(a))]
            y = b.items if isinstance(b, PList) else [("fn", "splat", tm(b))]
            return k(PList([*x, *y]), st)
        if op is ast.Mult and isinstance(a, PList) and isinstance(b, int) and b <= 64:
            return k(PList(a.items * b), st)
        if isinstance(a, PList) or isinstance(b, PList):
            return k(("fn", type(op).__name__ if not isinstance(op, type) else op.__name__, tm(a), tm(b)), st)
        if isinstance(a, int) and isinstance(b, int):
            return super().binop(op, a, b, st, c, k, e)
        x, y = tm(a), tm(b)
        if op in (ast.Add, ast.Sub) and y == T.num(0.0):
            return k(a, st)
        if op is ast.Add and x == T.num(0.0):
            return k(b, st)
        if op is ast.Add and any(z[:2] == ("fn", "fstr") or z[0] == "str" and len(z) > 1 for z in (x, y)):
            return k(fstr([x, y]), st)
        if op in (ast.Add, ast.Sub, ast.Mult) and all(z[0] not in ("str", "none", "list") for z in (x, y)):
            return k({ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul}[op](x, y), st)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            x, y = sorted((x, y), key=repr)
        return k(("fn", op.__name__, x, y), st)

    def e_UnaryOp(self, e, st, c, k):
        def kk(v, s2):
            if isinstance(e.op, ast.Not):
                return k(T.bnot(self.truthy(v)), s2)
            if isinstance(v, int):
                return k({ast.USub: lambda: -v, ast.Invert: lambda: ~v, ast.UAdd: lambda: v}[type(e.op)](), s2)
            if isinstance(e.op, ast.USub):
                return k(T.neg(tm(v)), s2)
            return k(("fn", type(e.op).__name__, tm(v)), s2)
        return self.eval(e.operand, st, c, kk)

    def truthy(self, v):
        if isinstance(v, PDict):
            return bool(v.pairs)
        if isinstance(v, PList) and v.items and all(_map(x) for x in v.items):
            if len(v.items) == 1:
                x = v.items[0]
                if x[1] == "map" and x[2][:1] == ("iter",):
                    kept = filtered(x[3])
                    if kept is True:
                        return T.truth(x[2][1])
                    if kept is not None:
                        return self.exists(x[2], kept)
                if x[1] == "splat":
                    return T.truth(x[2])
            return T.truth(("fn", "len", tm(v)))
        if isinstance(v, tuple):
            if T.is_cond(v):
                return v
            if v[0] in ("none",):
                return False
            if v[:1] == ("fn",) and len(v) == 2 and v[1].split("#")[0] == "ctx()":
                # a context is an object without a truth value of its own
                return T.bnot(("pred", "isnone", v))
            if v[0] == "list" and len(v) > 1 and all(_map(x) for x in v[1:]):
                return self.truthy(PList(v[1:]))
            if v[0] in ("str", "list"):
                return len(v) > 1 and bool(v[1])
            if v[0] == "fn" and v[1].replace("c.", "").replace("()", "") in ("isnan", "isinf", "isfinite", "in", "callable", "isinstance", "issubclass", "hasattr"):
                return ("pred", v[1].replace("c.", "").replace("()", ""), *v[2:])
            return T.truth(v)
        return super().truthy(v)

    def fork(self, cond, st, on_true, on_false):
        if isinstance(cond, tuple) and cond[0] == "and":
            # keep gates atomic
            return self.fork(cond[1], st, lambda: self.fork(cond[2], st, on_true, on_false), on_false)
        if isinstance(cond, tuple) and cond[0] == "not":
            return self.fork(cond[1], st, on_false, on_true)
        cond = self.truthy(cond) if not isinstance(cond, bool) else cond
        if isinstance(cond, tuple) and cond[0] in ("and", "not"):
            return self.fork(cond, st, on_true, on_false)
        if isinstance(cond, tuple):
            cond = self.known(cond)
        if cond is True:
            return on_true()
        if cond is False:
            return on_false()
        self.pc.append((cond, True))
        try:
            a = on_true()
        finally:
            self.pc.pop()
        self.pc.append((cond, False))
        try:
            b = on_false()
        finally:
            self.pc.pop()
        return T.ite(cond, a, b)

    def known(self, cond):
        """decide a condition from the branches already taken on this path"""
        for c, v in self.pc:
            if c == cond:
                return v
            if v and c[0] == cond[0] == "cmp" and c[1] == cond[1] == "eq":
                # x == k1 taken, x == k2 asked
                x, y = set(c[2:]), set(cond[2:])
                rest = (x - y) | (y - x)
                if len(x & y) == 1 and len(rest) == 2 and all(T.is_num(z) for z in rest):
                    return False
        return cond

    # ---- loops
    def quantifier(self, which, g, st, c, k):
        if len(g.generators) != 1:
            raise Unsupported(g, "nested generator")
        gen = g.generators[0]

        def ki(it, s2):
            it = it.keys() if isinstance(it, PDict) else it
            if isinstance(it, PList) and not any(_map(x) for x in it.items):
                def kl(pl, s3):
                    r = which == "all"
                    for x in pl.items:
                        r = T.band(r, self.truthy(x)) if which == "all" else T.bor(r, self.truthy(x))
                    return k(r, s3)
                return self.comp(g.generators, g.elt, s2, c, kl)
            desc, elem = self.iteration(it)
            outs = []

            def body(s3):
                test = ast.BoolOp(op=ast.And(), values=[*gen.ifs, g.elt]) if gen.ifs else g.elt
                if which == "all" and gen.ifs:
                    test = ast.BoolOp(op=ast.Or(), values=[ast.UnaryOp(op=ast.Not(), operand=x) for x in gen.ifs] + [g.elt])
                return self.eval(test, s3, c, lambda v, s4: outs.append(self.truthy(v)) or ("o", len(outs) - 1))
            self.depth_loop += 1
            try:
                tree = self.assign(gen.target, elem, dict(s2), c, body)
            finally:
                self.depth_loop -= 1
            cond = self.flat(tree, outs)
            if which == "any":
                return k(self.exists(desc, cond), s2)
            return k(T.bnot(self.exists(desc, T.bnot(cond))), s2)
        return self.eval(gen.iter, st, c, ki)

    def flat(self, tree, outs):
        if tree[0] == "ite":
            return T.bite(tree[1], self.flat(tree[2], outs), self.flat(tree[3], outs))
        return outs[tree[1]]

    def exists(self, desc, cond):
        if cond is False:
            return False
        if cond is True:
            return ("pred", "exists", desc, T.num(1.0))
        return ("pred", "exists", desc, ("cond", cond))

    def iteration(self, it):
        """(descriptor, element for the bound variable)"""
        v = T.var(f"%{self.depth_loop}")
        t = tm(it)
        if t[0] == "fn" and t[1] == "range":
            a = t[2:]
            lo, hi, step = (T.num(0), a[0], T.num(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else T.num(1))
            return ("range", lo, hi, step), v
        if t[0] == "fn" and t[1] == "enumerate":
            return ("iter", t[2]), PList([T.add(v, t[3]) if len(t) > 3 else v, ("fn", "elem", t[2], v)])
        return ("iter", t), ("fn", "elem", t, v)

    def comp(self, gens, elt, st, c, k):
        if len(gens) == 1:
            g = gens[0]

            def ki(it, s2):
                it = it.keys() if isinstance(it, PDict) else it
                if isinstance(it, PList) and not any(_map(x) for x in it.items):
                    return Evaluator.comp(self, [ast.comprehension(target=g.target, iter=_Lit(it), ifs=g.ifs, is_async=0)], elt, s2, c, k)
                desc, elem = self.iteration(it)
                outs = []

                def body(s3):
                    def tests(j, s4):
                        if j == len(g.ifs):
                            return self.eval(elt, s4, c, lambda v, s5: outs.append(v) or ("o", len(outs) - 1))
                        return self.eval(g.ifs[j], s4, c, lambda v, s5: self.fork(self.truthy(v), s5, lambda: tests(j + 1, s5), lambda: ("skip",)))
                    return tests(0, s3)
                self.depth_loop += 1
                try:
                    tree = self.assign(g.target, elem, dict(s2), c, body)
                finally:
                    self.depth_loop -= 1
                return k(PList([("fn", "map", desc, tree_map(tree, lambda l: tm(outs[l[1]]) if l[0] == "o" else l))]), s2)
            return self.eval(g.iter, st, c, ki)
        raise Unsupported(elt, "nested comprehension")

    def e_DictComp(self, e, st, c, k):
        def done(l, s):
            if isinstance(l, PList) and all(isinstance(x, PList) and len(x.items) == 2 and constant(x.items[0]) for x in l.items):
                d = PDict([])
                for x in l.items:
                    d = d.put(x.items[0], x.items[1])
                return k(d, s)
            return k(("fn", "dictof", tm(l)), s)
        return self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), st, c, done)

    def e__Lit(self, e, st, c, k):
        return k(e.v, st)

    def x_For(self, s, st, c, go):
        def k(it, s2):
            it = it.keys() if isinstance(it, PDict) else it
            if isinstance(it, PList) and not any(_map(x) for x in it.items) and (1 + forks(s.body)) ** len(it.items) <= 400:
                return Evaluator.x_For(self, ast.copy_location(ast.For(target=s.target, iter=_Lit(it), body=s.body, orelse=s.orelse), s), s2, c, go)
            return self.loop(s, it, s2, c, go)
        return self.eval(s.iter, st, c, k)

    def x_While(self, s, st, c, go):
        return self.loop(s, None, st, c, go)

    def loop(self, s, it, st, c, go):
        self.loops += 1
        lid = self.loops
        names, lists = assigned(s.body)
        if it is not None:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fid = c.fid.id
        st2 = dict(st)
        base_lists = {}
        for n in names:
            if (fid, n) in st2 or True:
                st2[(fid, n)] = T.var(f"%{lid}.{n}")
        for n in cells(s.body):
            if isinstance(st.get((fid, n)), (PDict, PList)):
                st2[(fid, n)] = T.var(f"%d{lid}.{n}")
        for n in lists:
            cur = st.get((fid, n))
            if isinstance(cur, PList):
                base_lists[n] = cur
                st2[(fid, n)] = PList([])
        ev0 = st.get(("ev",), ())
        st2[("ev",)] = ev0
        outs = []

        def leaf(kind):
            def f(*a):
                v, s3 = (a if len(a) == 2 else (None, a[0]))
                outs.append((kind, v, s3))
                return ("l", len(outs) - 1)
            return f
        c2 = K(c.mod, c.fid, leaf("ret"), lambda kd, s3: leaf("exc")(kd, s3), leaf("brk"), leaf("norm"))
        self.depth_loop += 1
        try:
            if it is not None:
                desc, elem = self.iteration2(it)
                tree = self.assign(s.target, elem, st2, c, lambda s3: self.block(s.body, 0, s3, c2, leaf("norm")))
            else:
                desc = ("while", T.num(lid))
                tree = self.eval(s.test, st2, c, lambda v, s3: self.fork(
                    self.truthy(v), s3, lambda: self.block(s.body, 0, s3, c2, leaf("norm")), lambda: leaf("exit")(s3)))
        finally:
            self.depth_loop -= 1
        after = dict(st)
        for n in cells(s.body):
            if isinstance(st.get((fid, n)), (PDict, PList)):
                after[(fid, n)] = T.var(f"%d{lid}.{n}")
        # effects of the body
        stores, effects = [], False
        for _k, _v, s3 in outs:
            for ev in s3.get(("ev",), ())[len(ev0):]:
                effects = True
                if ev[0] == "store":
                    stores.append(ev[1])
                elif ev[0] == "loop":
                    stores.extend(ev[3])
        if effects:
            et = tree_map(tree, lambda l: ("evs", outs[l[1]][0], outs[l[1]][2].get(("ev",), ())[len(ev0):]))
            after = self.emit(after, ("loop", desc, et, stores, s.lineno))
        hav = f"%{lid}."
        for n in names:
            vals = {}
            for j, (kd, _v, s3) in enumerate(outs):
                if kd in ("norm", "brk", "exit"):
                    x = s3.get((fid, n))
                    if x != T.var(f"%{lid}.{n}"):
                        vals.setdefault(tm(x), []).append(j)
            if not vals:
                if (fid, n) in st:
                    after[(fid, n)] = st[(fid, n)]
                continue
            new = T.var(f"%a{lid}.{n}")
            if len(vals) == 1 and (fid, n) in st and all(not mentions(x, "%") for x in vals):
                (val, js), = vals.items()
                cond = tree_cond(tree, lambda l: l[1] in js)
                if not (isinstance(cond, tuple) and mentions(cond, hav)) and it is not None:
                    old = st[(fid, n)]
                    raw = outs[js[0]][2].get((fid, n))
                    g = self.exists(desc, cond)
                    if T.is_cond(raw) and T.is_cond(old):
                        new = T.bite(g, raw, old)
                    else:
                        new = T.ite(g, tm(raw), tm(old))
            after[(fid, n)] = new
        for n, base in base_lists.items():
            ends = [j for j, o in enumerate(outs) if o[0] in ("norm", "brk", "exit")]
            lens = {j: outs[j][2].get((fid, n)).items for j in ends}
            if len(ends) == 1:
                after[(fid, n)] = PList([*base.items, *[("fn", "map", desc, tm(x)) for x in lens[ends[0]]]])
            else:
                after[(fid, n)] = PList([*base.items, ("fn", "mapg", desc, tree_map(tree, lambda l: ("list", *[tm(x) for x in lens[l[1]]]) if l[1] in lens else ("none",)))])

        def done(s4):
            if it is None:
                # leaving by the test: the test is false afterwards
                if not any(o[0] == "brk" for o in outs):
                    return self.eval(s.test, s4, c, lambda v, s5: self.fork(self.truthy(v), s5, lambda: ("dead",), lambda: self.block(s.orelse, 0, s5, c, go)))
                return go(s4)
            if s.orelse:
                bc = tree_cond(tree, lambda l: outs[l[1]][0] == "brk")
                return self.fork(self.exists(desc, bc), s4, lambda: go(s4), lambda: self.block(s.orelse, 0, s4, c, go))
            return go(s4)

        # early exits
        kinds = [o for o in outs if o[0] in ("ret", "exc")]
        if kinds:
            rc = tree_cond(tree, lambda l: outs[l[1]][0] == "ret")
            xc = tree_cond(tree, lambda l: outs[l[1]][0] == "exc")
            rvals = {tm(o[1]) for o in outs if o[0] == "ret"}
            if len(rvals) == 1 and not mentions(next(iter(rvals)), hav) :
                rv = next(o[1] for o in outs if o[0] == "ret")
            else:
                rv = T.var(f"%ret{lid}")

            def normal():
                return done(after)
            if isinstance(rc, tuple) and mentions(rc, hav):
                rc_t = ("pred", "loopexit", T.num(lid))
            else:
                rc_t = self.exists(desc, rc) if rc is not False else False
            if isinstance(xc, tuple) and mentions(xc, hav):
                xc_t = ("pred", "loopexc", T.num(lid))
            else:
                xc_t = self.exists(desc, xc) if xc is not False else False
            return self.fork(xc_t, after, lambda: c.exc("raise", after), lambda: self.fork(rc_t, after, lambda: c.ret(rv, after), normal))
        return done(after)

    def iteration2(self, it):
        self.depth_loop -= 1
        try:
            return self.iteration(it)
        finally:
            self.depth_loop += 1


def fstr(parts):
    """text put together from parts"""
    out = []
    for p in parts:
        for q in p[2:] if p[:2] == ("fn", "fstr") else (p,):
            if q[0] == "str" and out and out[-1][0] == "str":
                out[-1] = ("str", str(out[-1][1]) + str(q[1]))
            else:
                out.append(q)
    return out[0] if len(out) == 1 and out[0][0] == "str" else ("fn", "fstr", *out)


def filtered(tree):
    """when an element is kept, by the body of a comprehension; None where it keeps several"""
    if tree[0] == "ite":
        a, b = filtered(tree[2]), filtered(tree[3])
        return None if a is None or b is None else T.bite(tree[1], a, b)
    if tree[0] == "skip":
        return False
    return None if _map(tree) else True


def _map(x):
    return isinstance(x, tuple) and x[:1] == ("fn",) and x[1] in ("map", "mapg", "splat")


class _Lit(ast.expr):
    _fields = ()

    def __init__(self, v):
        super().__init__()
        self.v = v
        self.lineno = 0


_Lit.__name__ = "_Lit"


# ---------------------------------------------------------------- obligations
def implied(tree, obligation, budget=60000):
    """For every leaf of the tree the obligation (leaf index -> condition | True | None) must hold under the gates on
    the way to it. Returns (regions, None | (leaf, description of a region reaching it without the condition))."""
    def f(l):
        if l[0] != "leaf":
            return T.num(1.0)
        r = obligation(l[1])
        if r is None or r is True:
            return T.num(1.0)
        r = T.truth(r) if not isinstance(r, bool) else r
        return T.ite(r, T.num(1.0), ("bad", l[1]))
    t = tree_map(tree, f)
    n, bad = expand_bool(t, budget)
    return n, bad


class Ints(T.Facts):
    def copy(self):
        return Ints(dict(self.iv), dict(self.pair), dict(self.preds))


def expand_bool(t, budget):
    n, stack = 0, [Ints()]
    while stack:
        facts = stack.pop()
        n += 1
        if n > budget:
            raise T.Limit("region budget exceeded")
        try:
            x = t
            while x[0] == "ite":
                x = x[2] if cond_eval(x[1], facts) else x[3]
        except T.Unknown as u:
            stack.extend(split(u.atom, facts))
            continue
        if x[0] == "bad":
            return n, (x[1], facts.describe())
    return n, None


def cond_eval(c, facts):
    if isinstance(c, bool):
        return c
    k = c[0]
    if k == "not":
        return not cond_eval(c[1], facts)
    if k == "and":
        return cond_eval(c[1], facts) and cond_eval(c[2], facts)
    if k == "xor":
        return cond_eval(c[1], facts) != cond_eval(c[2], facts)
    if k == "pred":
        p = rep(c, facts)
        if p in facts.preds:
            return facts.preds[p]
        raise T.Unknown(("pred", p))
    if k == "cmp":
        a, b = rep(resolve(c[2], facts), facts), rep(resolve(c[3], facts), facts)
        if a == b:
            return c[1] != "lt"
        if T.is_num(a) and T.is_num(b):
            return T.cmp(c[1], a, b)
        if a[0] in ("str", "none", "num") and b[0] in ("str", "none", "num"):
            return False
        for x, y in ((a, b), (b, a)):
            if x[0] in ("str", "none", "list") or (x[0] == "num" and y[0] == "num"):
                p = ("pred", "eq", *sorted((a, b), key=repr))
                if p in facts.preds:
                    return facts.preds[p]
                raise T.Unknown(("pred", p))
        # linear normal form:  body (op) constant
        from . import real
        try:
            nm, d = real.quot(T.sub(a, b))
        except real.NoForm:
            counted = next((x for x in (a, b) if x[:1] == ("fn",) and x[1].split("#")[0] in ("len", "len()", "c.len()")), None)
            if counted is None or not T.is_num(b if counted is a else a):
                p = ("pred", c[1], a, b)
                if p in facts.preds:
                    return facts.preds[p]
                raise T.Unknown(("pred", p)) from None
            nm, d = ({((counted, 1),): 1, (): -T.numval(b)} if counted is a else {((counted, 1),): -1, (): T.numval(a)}), {(): 1}
        nm = {m: x / d[()] for m, x in nm.items()} if set(d) == {()} else nm
        c0 = -nm.get((), 0)
        body = {m: x for m, x in nm.items() if m != ()}
        if not body:
            return {"lt": 0 < c0, "le": 0 <= c0, "eq": c0 == 0}[c[1]]
        lead = body[min(body, key=repr)]
        bk = ("fn", "lin", real._pkey(body, lead))
        c0 = T.num(float(c0 / lead))
        op = c[1]
        lo, hi = (bk, c0) if lead > 0 or op == "eq" else (c0, bk)
        return T.eval_pair(op, lo, hi, facts)
    raise AssertionError(c)


def resolve(t, facts):
    while isinstance(t, tuple) and t[0] == "ite":
        t = t[2] if cond_eval(t[1], facts) else t[3]
    return t


def rep(t, facts):
    """representative under the equalities recorded in facts"""
    eqs = [(p, v) for p, v in facts.preds.items() if p[0] == "eqsub"]
    for (_e, a), b in eqs:
        t = _sub(t, a, b)
    return t


def _sub(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(_sub(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def split(atom, facts):
    out = T.split(atom, facts)
    real_only = []
    for f in out:
        # no NaN among ids, counts and flags
        bad = False
        if atom[0] in ("const", "nan"):
            iv = f.iv.get(atom[1])
            bad = iv is not None and iv.nan and iv.empty_num()
        if atom[0] == "pair":
            bad = f.pair.get(atom[1]) == "un"
        if bad:
            continue
        g = Ints(dict(f.iv), dict(f.pair), dict(f.preds))
        if atom[0] == "const":
            t, cst = atom[1], atom[2]
            iv = g.iv[t]
            if iv.point() and t[:2] == ("fn", "lin"):
                # single-variable equality: substitute
                from . import real
                body = t[2]
                if len(body) == 1 and len(body[0][0]) == 1 and body[0][0][0][1] == 1:
                    v = body[0][0][0][0]
                    if isinstance(v, tuple) and v[0] == "var":
                        g.preds[("eqsub", v)] = T.num(iv.lo / body[0][1])
        real_only.append(g)
    return real_only
