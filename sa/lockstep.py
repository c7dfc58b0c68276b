"""Equivalence of two functions as labelled transition systems with back edges.

`LEval` turns a function into a tree of gates whose ends are returns, raises and loop heads; a loop head carries the
initial values of the variables it carries and a body tree whose ends may jump back with the next values. Effects
(stores, calls that are not expanded) are kept in order on the edges. Counting variables are rewritten as
start + step * k, dead and unchanged ones are dropped. `compare` walks two such trees together: every branch condition
splits the space into regions, in each region both sides must reach the same kind of end with equal values and equal
effects, and two loops correspond when some pairing of their variables makes start, body and next values agree.
"""
from __future__ import annotations

import ast
import functools
import itertools
import re

from . import opaque as O
from . import terms as T
from .pymods import MODS
from .veval import Bi, Evaluator, Fn, Frame, K, Obj, PList, Ptr, Unsupported

MAX_NODES = 400000


class Line(tuple):
    """a line number that does not take part in comparisons"""
    def __eq__(self, o):
        return isinstance(o, Line)

    def __ne__(self, o):
        return not isinstance(o, Line)

    def __hash__(self):
        return 7


FRESH = ("set", "dict", "list", "deque()", "defaultdict()", "OrderedDict()", "Counter()")


def owned(v):
    """a container made by the function itself"""
    return isinstance(v, (PList, O.PDict)) or isinstance(v, tuple) and (
        v[0] == "dict" or v[0] == "var" and str(v[1]).startswith("%") or v[0] == "fn" and (v[1] in FRESH or v[1].endswith("!")))


@functools.lru_cache(None)
def generator(f):
    def inside(n):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) or not isinstance(x, (ast.FunctionDef, ast.Lambda)) and inside(x) for x in ast.iter_child_nodes(n))
    return isinstance(f, ast.FunctionDef) and inside(f)


def stub(f):
    """natives and abstract methods have no body of their own, generators run when they are asked"""
    if generator(f):
        return True
    for d in getattr(f, "decorator_list", ()):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "native_function" or isinstance(d, ast.Name) and d.id == "abstractmethod":
            return True
    body = [s for s in getattr(f, "body", ()) if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and isinstance(body[-1], ast.Raise) and "NotImplementedError" in ast.unparse(body[-1]) and all(
        isinstance(s, ast.Pass) or isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Constant) for s in body[:-1])


class LEval(O.OEval):
    converts = True
    """records of the same class: `self` (and names in `mine`) resolve methods of the class"""

    def __init__(self, mod, cls=None, opaque=(), pure=(), hooks=None, modules=None, unchecked=True, ends=("error", "assert_unreachable", "assert_never"), methods=None, unroll=None, calm=None):
        super().__init__(mod, opaque=opaque, pure=pure, hooks=hooks, modules=modules or {}, lang="py", self_cls=None)
        self.self_methods = dict(methods or {})
        self.props = {n for n, m in self.self_methods.items() if any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in m.decorator_list)}
        self.unchecked, self.ends, self.unroll, self.calm = unchecked, set(ends), unroll, calm
        self.carried = {}
        self.dotted = True
        self.changed = {}
        self.present = set()
        self.nodes, self.hold = {}, []
        self.opaque |= {n for n, f in [*mod.funcs.items(), *self.self_methods.items()] if stub(f)}

    def glob(self, name, mod, node=None):
        if name not in self.names and isinstance(mod.consts.get(name), ast.Dict) and len(mod.consts[name].keys) > 8:
            return T.var("g:" + name)  # a table: compared as a declaration
        v = super().glob(name, mod, node)
        if isinstance(v, Obj) and v.kind in ("import", "module", "class"):
            return T.var("g:" + str(v.attrs["name"]))
        return v

    # ---- memory
    def may_alias(self, a, b):
        arr = ("[]", "u[]")
        if a[1] in arr and b[1] in arr:
            if a[2] != b[2]:
                return False
            x, y = a[3], b[3]
            if T.is_num(x) and T.is_num(y):
                return x == y
            return True
        return a[1] == b[1]

    def load(self, loc, st):
        while loc[:2] == ("fn", "[]") and loc[2][:2] == ("fn", "[]=!"):
            _f, _n, b, j, w = loc[2]
            if j == loc[3]:
                return w
            if not (T.is_num(j) and T.is_num(loc[3]) or {j[0], loc[3][0]} <= {"str", "num", "none"}):
                break
            loc = (*loc[:2], b, loc[3])
        n = 0
        for ev in reversed(st.get(("ev",), ())):
            if ev[0] == "store":
                if ev[1] == loc:
                    if n == 0 and isinstance(ev[2], (PList, O.PDict, Obj, Fn)):
                        return ev[2]
                    return O.tm(ev[2]) if n == 0 else ("fn", "ver", loc, T.num(float(n)))
                if self.may_alias(ev[1], loc):
                    n += 1
            elif ev[0] == "head" and any(self.may_alias(x, loc) for x in ev[2]):
                base = ("fn", "at", loc, ev[1])
                return base if not n else ("fn", "ver", base, T.num(float(n)))
            elif ev[0] == "clobber" and self.clobbers(ev, loc):
                base = ("fn", "after", loc, ev[1])
                return base if not n else ("fn", "ver", base, T.num(float(n)))
        return loc if not n else ("fn", "ver", loc, T.num(float(n)))

    def clobbers(self, ev, loc):
        return False

    # ---- objects of the class itself
    def e_Attribute(self, e, st, c, k):
        def kk(v, s2):
            if isinstance(v, Obj) and v.kind == "self" and e.attr in self.props:
                return self.apply(Fn(self.self_methods[e.attr], self.mod, None, v), [], {}, s2, c, k, e)
            return super(LEval, self).e_Attribute(ast.copy_location(ast.Attribute(value=_lit(v), attr=e.attr, ctx=e.ctx), e), s2, c, k)
        return self.eval(e.value, st, c, kk)

    def truthy(self, v):
        if isinstance(v, tuple) and v[:1] == ("fn",) and len(v) == 3 and v[1] in SYNTAX and v[2][:1] == ("var",) and v[2] != ("var", "self") and self.mod.name.endswith("visitor"):
            # a node of a syntax tree has no truth value of its own
            return T.bnot(("pred", "isnone", v))
        return super().truthy(v)

    def method(self, v, name):
        if isinstance(v, Obj) and v.kind == "self" and name in self.self_methods:
            return Fn(self.self_methods[name], self.mod, None, v)
        return None

    def e_Subscript(self, e, st, c, k):
        def kk(b, s2):
            f = self.method(b, "__getitem__")
            if f is not None and not isinstance(e.slice, ast.Slice):
                return self.eval(e.slice, s2, c, lambda i, s3: self.apply(f, [i], {}, s3, c, k, e))
            return super(LEval, self).e_Subscript(ast.copy_location(ast.Subscript(value=_lit(b), slice=e.slice, ctx=e.ctx), e), s2, c, k)
        return self.eval(e.value, st, c, kk)

    def assign(self, t, v, st, c, go):
        if isinstance(t, ast.Name):
            if t.id in st.get(("global", c.fid.id), ()):
                return go(self.emit(st, ("store", _gloc(t.id), v, t.lineno)))
            fr = st.get(("nonlocal", c.fid.id, t.id))
            if fr is not None:
                st = dict(st)
                st[(fr, t.id)] = v
                return go(st)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and not isinstance(t.value, (ast.Name, ast.Attribute)) or (
                isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
            def kb(b, s2):
                f = self.method(b, "__setitem__")
                if f is not None:
                    return self.eval(t.slice, s2, c, lambda i, s3: self.apply(f, [i, v], {}, s3, c, lambda _r, s4: go(s4), t))
                key = self.frame_of(t.value.id, s2, c) if isinstance(t.value, ast.Name) else None
                cur = s2.get(key) if key is not None else None
                if not owned(cur):
                    return super(LEval, self).assign(t, v, s2, c, go)

                def kept(s3):
                    ev = s3.get(("ev",), ())
                    if s3.get(key) is cur and ev and ev[-1][0] == "store" and ev[-1][1][:2] == ("fn", "[]"):
                        s3 = dict(s3)
                        s3[key] = ("fn", "[]=!", *ev[-1][1][2:], O.tm(ev[-1][2]))
                    return go(s3)
                return super(LEval, self).assign(t, v, s2, c, kept)
            return self.eval(t.value, st, c, kb)
        return super().assign(t, v, st, c, go)

    def e_Compare(self, e, st, c, k):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            def kk(vs, s2):
                f = self.method(vs[1], "__contains__")
                neg = isinstance(e.ops[0], ast.NotIn)
                if f is not None:
                    return self.apply(f, [vs[0]], {}, s2, c, lambda r, s3: k(T.bnot(self.truthy(r)) if neg else r, s3), e)
                return k(self.compare(e.ops[0], vs[0], vs[1], e), s2)
            return self.evals([e.left, e.comparators[0]], st, c, kk)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
            def kq(vs, s2):
                f = self.method(vs[0], "__eq__")
                neg = isinstance(e.ops[0], ast.NotEq)
                if f is not None and f.node not in self.active:
                    return self.apply(f, [vs[1]], {}, s2, c, lambda r, s3: k(T.bnot(self.truthy(r)) if neg else r, s3), e)
                return k(self.compare(e.ops[0], vs[0], vs[1], e), s2)
            return self.evals([e.left, e.comparators[0]], st, c, kq)
        return super().e_Compare(e, st, c, k)

    def e_Call(self, e, st, c, k):
        if isinstance(e.func, ast.Name) and e.func.id == "__addr__" and len(e.args) == 1 and not isinstance(e.args[0], ast.Name):
            return self.eval(e.args[0], st, c, k)
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in O.CHANGING and isinstance(f.value, ast.Name):
            # a local container changed by one of its methods is another value afterwards
            key = self.frame_of(f.value.id, st, c)
            cur = st.get(key) if key is not None else None
            if owned(cur):
                k0 = k

                def k(v, s2):
                    if s2.get(key) is cur:
                        s2 = dict(s2)
                        last = next((ev for ev in reversed(s2.get(("ev",), ())) if ev[0] == "call"), None)
                        args = last[2] if last is not None and last[1] == "." + f.attr else (O.tm(cur),)
                        s2[key] = ("fn", "." + f.attr + "!", *args)
                    return k0(v, s2)
        return super().e_Call(e, st, c, k)

    @staticmethod
    def frame_of(name, st, c):
        fr = c.fid
        while fr is not None:
            if (fr.id, name) in st:
                return (fr.id, name)
            fr = fr.parent
        return None

    # ---- containers changed by helpers
    def changes(self, node, mod, depth=0):
        """parameters whose container the function changes in place"""
        if depth > 3 or not isinstance(node, ast.FunctionDef):
            return frozenset()
        if node not in self.changed:
            self.changed[node] = frozenset()
            a = node.args
            ps = {p.arg for p in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
            out = (O.assigned(node.body)[1] | O.cells(node.body)) & ps
            out |= self.passed(node.body, mod, depth + 1) & ps
            self.changed[node] = frozenset(out - {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        return self.changed[node]

    def callee(self, func, mod):
        """(function, module, parameters taken by the receiver) a call reaches, where its name says so"""
        if isinstance(func, ast.Name):
            if func.id in mod.funcs:
                return mod.funcs[func.id], mod, 0
            src = mod.imports.get(func.id)
            if src and src[1] and src[0] in MODS:
                m = MODS[src[0]]
                return (m.funcs.get(src[1]), m, 0)
        elif isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name):
            g = self.self_methods.get(func.attr)
            return g, mod, 0 if g is not None and any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in g.decorator_list) else 1
        return None, mod, 0

    def passed(self, body, mod, depth=0):
        """names given to helpers that change them"""
        out = set()
        for b in body:
            for n in ast.walk(b):
                if not isinstance(n, ast.Call):
                    continue
                g, m, skip = self.callee(n.func, mod)
                ch = self.changes(g, m, depth) if g is not None else ()
                if ch:
                    out |= {x.id for p, x in self.byname(g, n, skip) if p in ch and isinstance(x, ast.Name)}
        return out

    @staticmethod
    def byname(g, call, skip):
        ps = [p.arg for p in [*g.args.posonlyargs, *g.args.args]][skip:]
        return [*zip(ps, call.args), *((k.arg, k.value) for k in call.keywords)]

    def apply(self, f, args, kwargs, st, c, k, e):
        if isinstance(f, Fn) and generator(f.node):
            # what it yields comes out when it is asked
            head = [self.close(f, st)] if f.fid is not None and f.node not in self.active else []
            args = [*head, *O.bound(f.node, args, kwargs, f.self_ is not None)]
            return self.unknown(f.node.name, [f.self_, *args] if f.self_ is not None else args, st, k, e)
        if isinstance(f, Fn) and isinstance(e, ast.Call) and getattr(f.node, "name", None) not in self.opaque and f.node not in self.active:
            ch = self.changes(f.node, f.mod)
            if ch:
                outs = [(p, (c.fid.id, x.id)) for p, x in self.byname(f.node, e, 0 if f.self_ is None else 1)
                        if p in ch and isinstance(x, ast.Name) and owned(st.get((c.fid.id, x.id)))]
                if outs:
                    frame = next(self.fids)
                    self.fids = itertools.chain([frame], self.fids)
                    k0 = k

                    def k(v, s2):
                        s2 = dict(s2)
                        for p, key in outs:
                            s2[key] = s2[(frame, p)]
                        return k0(v, s2)
        elif isinstance(e, ast.Call) and not isinstance(f, (Bi, Obj)):
            # a call that stays a call fills the containers it is given
            g, m, skip = self.callee(e.func, c.mod)
            ch = self.changes(g, m) if g is not None else ()
            keys = [(c.fid.id, x.id) for p, x in self.byname(g, e, skip) if p in ch and isinstance(x, ast.Name) and owned(st.get((c.fid.id, x.id)))] if ch else ()
            if keys:
                k1 = k

                def k(v, s2):
                    s2 = dict(s2)
                    for key in keys:
                        s2[key] = ("fn", g.name + "!", O.tm(st[key]), *[O.tm(x) for x in args], *O.named(kwargs))
                    return k1(v, s2)
        if isinstance(f, Bi):
            args = [self.close(x, st) for x in args]
            kwargs = {n: self.close(v, st) for n, v in kwargs.items()}
        if isinstance(f, Bi) and f.name == "len" and len(args) == 1:
            g = self.method(args[0], "__len__")
            if g is not None:
                return self.apply(g, [], {}, st, c, k, e)
        if (self.calm is not None or self.unroll is not None) and isinstance(f, Bi) and f.name in ("min", "max") and len(args) == 2 and not kwargs and not any(isinstance(x, (PList, O.PDict)) for x in args):
            x, y = (O.tm(v) for v in args)
            return k(("ite", T.cmp("lt", y, x) if f.name == "min" else T.cmp("lt", x, y), y, x), st)
        if isinstance(f, Bi) and f.name == "sum" and 0 < len(args) < 3 and not kwargs and isinstance(args[0], PList) and not any(O._map(x) for x in args[0].items):
            def added(i, acc, s2):
                if i == len(args[0].items):
                    return k(acc, s2)
                return self.binop(ast.Add, acc, args[0].items[i], s2, c, lambda v, s3: added(i + 1, v, s3), e)
            return added(0, args[1] if len(args) > 1 else 0, st)
        if isinstance(f, Bi) and f.name in ("isinstance", "issubclass") and len(args) == 2:
            if f.name == "isinstance":
                return k(self.instance(args[0], args[1]), st)
        if isinstance(f, tuple) and f[0] == "var" and str(f[1])[2:] in self.ends:
            return c.exc("raise", st)
        if isinstance(f, tuple) and f[:1] == ("fn",) and f[1] in (".get", ".setdefault") and not kwargs and len(args) in (1, 2) and not any(isinstance(x, ast.Starred) for x in getattr(e, "args", ())):
            return self.looked_up(f[2], f[1], args, st, c, k, e)
        if self.unchecked and isinstance(f, tuple) and f[:1] == ("fn",) and f[1] in (".get_unchecked", ".set_unchecked", ".swap_unchecked"):
            b = f[2]

            def loc(i):
                return ("fn", "u[]", b, O.tm(i))
            if f[1] == ".get_unchecked" and len(args) == 1:
                return k(self.load(loc(args[0]), st), st)
            if f[1] == ".set_unchecked" and len(args) == 2:
                return k(None, self.emit(st, ("store", loc(args[0]), O.tm(args[1]), getattr(e, "lineno", 0))))
            if f[1] == ".swap_unchecked" and len(args) == 2:
                x, y = self.load(loc(args[0]), st), self.load(loc(args[1]), st)
                st = self.emit(st, ("store", loc(args[0]), y, e.lineno))
                return k(None, self.emit(st, ("store", loc(args[1]), x, e.lineno)))
        return super().apply(f, args, kwargs, st, c, k, e)

    def e_List(self, e, st, c, k):
        """[*x] and (*x,) are list(x) and tuple(x)"""
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred) and isinstance(e.ctx, ast.Load):
            f = Bi("list" if isinstance(e, ast.List) else "tuple")
            return self.eval(e.elts[0].value, st, c, lambda v, s2: self.apply(f, [v], {}, s2, c, k, e))
        return super().e_List(e, st, c, k) if isinstance(e, ast.List) else super().e_Tuple(e, st, c, k)

    e_Tuple = e_List

    def looked_up(self, d, how, args, st, c, k, e):
        """d.get(key) and d.setdefault(key, value): the test and the subscript they stand for"""
        loc = ("fn", "[]", d, O.tm(args[0]))
        default = args[1] if len(args) == 2 else None

        def there():
            v = self.load(loc, st)
            if default is None and isinstance(v, tuple):
                self.present.add(v)
            return k(v, st)

        def absent():
            if how == ".get":
                return k(default, st)
            t = ast.copy_location(ast.Subscript(value=_lit(d), slice=_lit(args[0]), ctx=ast.Store()), e)
            return self.assign(t, default, st, c, lambda s2: k(self.load(loc, s2), s2))
        return self.fork(self.compare(ast.In(), args[0], d, e), st, there, absent)

    def compare(self, op, a, b, e):
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            o = b if a is None else a
            if isinstance(o, tuple) and o in self.present:
                return isinstance(op, ast.IsNot)
        return super().compare(op, a, b, e)

    def evals(self, es, st, c, k):
        def step(i, acc, s2):
            if i == len(es):
                return k(acc, s2)
            x = es[i]
            if isinstance(x, ast.Starred):
                def ks(v, s3):
                    v = v.keys() if isinstance(v, O.PDict) else v
                    return step(i + 1, [*acc, *(v.items if isinstance(v, PList) else [("fn", "splat", O.tm(v))])], s3)
                return self.eval(x.value, s2, c, ks)
            return self.eval(x, s2, c, lambda v, s3: step(i + 1, [*acc, v], s3))
        return step(0, [], st)

    # ---- structural matching
    def x_Match(self, s, st, c, go):
        def k(v, s2):
            def case(i, s3):
                if i == len(s.cases):
                    return go(s3)
                cs = s.cases[i]

                def yes(s4):
                    if cs.guard is None:
                        return self.block(cs.body, 0, s4, c, go)
                    return self.eval(cs.guard, s4, c, lambda g, s5: self.fork(
                        self.truthy(g), s5, lambda: self.block(cs.body, 0, s5, c, go), lambda: case(i + 1, s3)))
                return self.pattern(cs.pattern, v, s3, c, yes, lambda: case(i + 1, s3))
            return case(0, s2)
        return self.eval(s.subject, st, c, k)

    def pattern(self, p, v, st, c, yes, no):
        if isinstance(p, ast.MatchAs):
            def bind(s2):
                if p.name:
                    s2 = dict(s2)
                    s2[(c.fid.id, p.name)] = v
                return yes(s2)
            return bind(st) if p.pattern is None else self.pattern(p.pattern, v, st, c, bind, no)
        if isinstance(p, ast.MatchOr):
            def alt(i):
                if i == len(p.patterns):
                    return no()
                return self.pattern(p.patterns[i], v, st, c, yes, lambda: alt(i + 1))
            return alt(0)
        if isinstance(p, ast.MatchValue):
            return self.eval(p.value, st, c, lambda x, s2: self.fork(self.compare(ast.Eq(), v, x, p), s2, lambda: yes(s2), no))
        if isinstance(p, ast.MatchSingleton):
            return self.fork(self.compare(ast.Is() if p.value is None else ast.Eq(), v, p.value, p), st, lambda: yes(st), no)
        if isinstance(p, ast.MatchClass):
            def kc(cl, s2):
                def fields(i, s3):
                    if i == len(p.patterns) + len(p.kwd_attrs):
                        return yes(s3)
                    if i < len(p.patterns):
                        x = v if len(p.patterns) == 1 and ast.unparse(p.cls) in ("int", "float", "str", "bool", "tuple", "list", "dict", "Num") else ("fn", "matcharg", O.tm(v), T.num(float(i)))
                        return self.pattern(p.patterns[i], x, s3, c, lambda s4: fields(i + 1, s4), no)
                    j = i - len(p.patterns)
                    e = ast.Attribute(value=_lit(v), attr=p.kwd_attrs[j], ctx=ast.Load(), lineno=p.lineno, col_offset=0)
                    return self.eval(e, s3, c, lambda x, s4: self.pattern(p.kwd_patterns[j], x, s4, c, lambda s5: fields(i + 1, s5), no))
                return self.fork(self.instance(v, cl), s2, lambda: fields(0, s2), no)
            return self.eval(p.cls, st, c, kc)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if isinstance(v, PList) and not star:
                if len(v.items) != len(p.patterns):
                    return no()
                items = v.items
                cond = True
            else:
                t = O.tm(v)
                n = len(p.patterns)
                cond = ("pred", "sequence", t, T.num(float(n - len(star))), T.num(float(bool(star))))
                items = [("fn", "[]", t, T.num(float(i if not star or i <= star[0] else i - n))) for i in range(n)]

            def step(i, s2):
                if i == len(p.patterns):
                    return yes(s2)
                q = p.patterns[i]
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        s2 = dict(s2)
                        s2[(c.fid.id, q.name)] = ("fn", "starred", O.tm(v), T.num(float(i)), T.num(float(len(p.patterns) - i - 1)))
                    return step(i + 1, s2)
                return self.pattern(q, items[i], s2, c, lambda s3: step(i + 1, s3), no)
            return self.fork(cond, st, lambda: step(0, st), no)
        if isinstance(p, ast.MatchMapping):
            def keyed(i, ks, s2):
                if i < len(p.keys):
                    return self.eval(p.keys[i], s2, c, lambda k, s3: keyed(i + 1, [*ks, O.tm(k)], s3))
                t = O.tm(v)
                cond = ("pred", "mapping", t)
                for k in ks:
                    cond = T.band(cond, ("pred", "in", k, t))

                def part(j, s3):
                    if j == len(ks):
                        if p.rest:
                            s3 = dict(s3)
                            s3[(c.fid.id, p.rest)] = ("fn", "rest", t, *ks) if ks else v
                        return yes(s3)
                    return self.pattern(p.patterns[j], ("fn", "[]", t, ks[j]), s3, c, lambda s4: part(j + 1, s4), no)
                return self.fork(cond, s2, lambda: part(0, s2), no)
            return keyed(0, [], st)
        raise Unsupported(p, "pattern")

    def instance(self, v, cl):
        if isinstance(cl, PList):
            r = False
            for x in cl.items:
                r = T.bor(r, self.instance(v, x))
            return r
        if isinstance(cl, tuple) and cl[:2] == ("fn", "BitOr"):
            return T.bor(self.instance(v, cl[2]), self.instance(v, cl[3]))
        return ("pred", "isinstance", O.tm(v), O.tm(cl))

    # ---- contexts, exceptions, scopes
    def x_With(self, s, st, c, go):
        def item(i, s2, c2):
            if i == len(s.items):
                return self.block(s.body, 0, s2, c2, lambda s3: c2.done(s3))
            it = s.items[i]

            def entered(v, s3):
                s3 = self.emit(s3, ("call", "with", (O.tm(v),), s.lineno))

                def out(k):
                    return lambda *a: k(*a[:-1], self.emit(a[-1], ("call", "end with", (O.tm(v),), s.lineno)))
                c3 = c2.sub(ret=out(c2.ret), exc=out(c2.exc), brk=c2.brk and out(c2.brk), cont=c2.cont and out(c2.cont))
                c4 = _With(c3, out(c2.done if isinstance(c2, _With) else go))
                if it.optional_vars is None:
                    return item(i + 1, s3, c4)
                return self.assign(it.optional_vars, ("fn", "entered", O.tm(v)), s3, c, lambda s4: item(i + 1, s4, c4))
            return self.eval(it.context_expr, s2, c2, entered)
        return item(0, st, c)

    def x_Raise(self, s, st, c, go):
        if s.exc is None:
            return c.exc("raise", st)
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        return c.exc(e.id if isinstance(e, ast.Name) else "raise", st)

    def x_Try(self, s, st, c, go):
        if s.finalbody:
            def out(k):
                return lambda *a: self.block(s.finalbody, 0, a[-1], c, lambda s2: k(*a[:-1], s2))
            c = c.sub(ret=out(c.ret), exc=out(c.exc), brk=c.brk and out(c.brk), cont=c.cont and out(c.cont))
            go = out(go)

        def handle(h, kind, s2):
            if h.name:
                s2 = dict(s2)
                s2[(c.fid.id, h.name)] = T.var("exception")
            return self.block(h.body, 0, s2, c, go)

        def names(h):
            return sorted({n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))}) if h.type is not None else ["BaseException"]

        def handler(kind, s2):
            for h in s.handlers:
                if kind in names(h) or {"Exception", "BaseException"} & set(names(h)):
                    return handle(h, kind, s2)
            return c.exc(kind, s2)
        n = st.get(("try",), 0)
        st = dict(st)
        st[("try",)] = n + 1
        c2 = c.sub(exc=handler)

        def attempt(i):
            if i == len(s.handlers):
                return self.block(s.body, 0, st, c2, lambda s2: self.block(s.orelse, 0, s2, c, go))
            h = s.handlers[i]
            return self.fork(("pred", "fails", T.num(float(n)), *[("str", x) for x in names(h)]), st, lambda: handle(h, "raise", st), lambda: attempt(i + 1))
        calls = any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for b in s.body for x in ast.walk(b))
        return attempt(0 if calls else len(s.handlers))

    def x_Global(self, s, st, c, go):
        st = dict(st)
        st[("global", c.fid.id)] = frozenset({*st.get(("global", c.fid.id), ()), *s.names})
        return go(st)

    def x_Nonlocal(self, s, st, c, go):
        st = dict(st)
        for n in s.names:
            fr = c.fid.parent
            while fr is not None and (fr.id, n) not in st:
                fr = fr.parent
            if fr is None:
                raise Unsupported(s, "nonlocal")
            st[("nonlocal", c.fid.id, n)] = fr.id
        return go(st)

    def e_Name(self, e, st, c, k):
        if e.id in st.get(("global", c.fid.id), ()) or (c.fid.id, e.id) not in st and any(
                ev[0] == "store" and ev[1] == _gloc(e.id) for ev in st.get(("ev",), ())):
            return k(self.load(_gloc(e.id), st), st)
        return super().e_Name(e, st, c, k)

    def x_FunctionDef(self, s, st, c, go):
        if not s.decorator_list:
            return super().x_FunctionDef(s, st, c, go)
        return self.evals(s.decorator_list, st, c, lambda ds, s2: Evaluator.x_FunctionDef(
            self, s, self.emit(s2, ("call", "decorate", (("str", s.name), *[O.tm(d) for d in ds]), s.lineno)), c, go))

    def x_ClassDef(self, s, st, c, go):
        """a class made at run time: its bases, keywords, attributes and methods are what making it does"""
        frame = Frame(next(self.fids), c.fid)
        c2 = K(c.mod, frame, c.ret, c.exc, c.brk, c.cont)
        exprs = [*s.bases, *[k.value for k in s.keywords], *s.decorator_list]

        def made(vs, s2):
            def body(i, items, s3):
                if i == len(s.body):
                    s3 = self.emit(s3, ("call", "class", (("str", s.name), *[O.tm(self.close(v, s3)) for v in vs], *items), s.lineno))
                    s3 = dict(s3)
                    s3[(c.fid.id, s.name)] = T.var("class:" + s.name)
                    return go(s3)
                b = s.body[i]
                if isinstance(b, ast.AnnAssign) and b.value is None or isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    return body(i + 1, items, s3)

                def then(s4):
                    names = [b.name] if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else [
                        n.id for t in (b.targets if isinstance(b, ast.Assign) else [getattr(b, "target", b)]) for n in ast.walk(t) if isinstance(n, ast.Name)]
                    new = [("fn", "kw", ("str", n), O.tm(self.close(s4.get((frame.id, n)), s4))) for n in names]
                    return body(i + 1, [*items, *new], s4)
                return self.block([b], 0, s3, c2, then)
            return body(0, [], s2)
        return self.evals(exprs, st, c, made)

    def each(self, g, it, st, c, got, end):
        """the first elements of an iterable that pass the tests of a comprehension, one after the other: got(state, next)"""
        it = it.keys() if isinstance(it, O.PDict) else it
        plain = it.items if isinstance(it, PList) and not any(O._map(x) for x in it.items) else None
        src = self.source(it) if plain is None else None
        mine = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        had = {n: st[(c.fid.id, n)] for n in mine if (c.fid.id, n) in st}

        def over(s):
            s = {q: v for q, v in s.items() if q not in {(c.fid.id, n) for n in mine}}
            s.update({(c.fid.id, n): v for n, v in had.items()})
            return end(s)

        def step(n, s2):
            def tests(j, s3):
                if j == len(g.ifs):
                    return got(s3, lambda s4: step(n + 1, s4))
                return self.eval(g.ifs[j], s3, c, lambda v, s4: self.fork(self.truthy(v), s4, lambda: tests(j + 1, s4), lambda: step(n + 1, s4)))
            if plain is not None:
                return over(s2) if n == len(plain) else self.assign(g.target, plain[n], s2, c, lambda s3: tests(0, s3))
            first, by, guard, elem = src
            h = T.add(first, T.mul(by, T.num(float(n)))) if n else first
            return self.fork(guard(h), s2, lambda: ("beyond",) if n >= self.unroll else self.assign(g.target, elem(h), s2, c, lambda s3: tests(0, s3)), lambda: over(s2))
        return step(0, st)

    def quantifier(self, which, g, st, c, k):
        if self.unroll is None or len(g.generators) != 1:
            return super().quantifier(which, g, st, c, k)
        hit = which == "any"

        def got(s2, more):
            def judge(v, s3):
                on, off = (lambda: k(hit, s3)), (lambda: more(s3))
                return self.fork(self.truthy(v), s3, on if hit else off, off if hit else on)
            return self.eval(g.elt, s2, c, judge)
        return self.eval(g.generators[0].iter, st, c, lambda it, s2: self.each(g.generators[0], it, s2, c, got, lambda s3: k(not hit, s3)))

    def comp(self, gens, elt, st, c, k):
        if self.unroll is not None and len(gens) == 1:
            def items(it, s2):
                acc = ("#acc", len(st))

                def got(s3, more):
                    return self.eval(elt, s3, c, lambda v, s4: more({**s4, acc: (*s4.get(acc, ()), v)}))

                def end(s3):
                    s3 = dict(s3)
                    vs = s3.pop(acc, ())
                    return k(PList(list(vs)), s3)
                return self.each(gens[0], it, s2, c, got, end)
            return self.eval(gens[0].iter, st, c, items)
        if len(gens) == 1:
            return super().comp(gens, elt, st, c, k)
        g = gens[1]
        if self.unroll is not None and len(gens) == 2 and isinstance(elt, ast.Name) and isinstance(g.target, ast.Name) and g.target.id == elt.id and not g.ifs:
            # all that each gives, one after the other
            return self.comp(gens[:1], ast.copy_location(ast.List(elts=[ast.Starred(value=g.iter, ctx=ast.Load())], ctx=ast.Load()), elt), st, c,
                             lambda v, s: k(PList([y for x in v.items for y in (x.items if isinstance(x, PList) else [("fn", "splat", x[2] if O.tm(x)[:2] == ("fn", "list") else O.tm(x))])]), s))
        inner = ast.copy_location(ast.ListComp(elt=elt, generators=gens[1:]), elt)

        def flat(v, s):
            if isinstance(v, PList) and all(isinstance(x, PList) for x in v.items):
                return k(PList([y for x in v.items for y in x.items]), s)
            return k(PList([("fn", "splat", ("fn", "flat", O.tm(v)))]), s)
        return (super() if self.unroll is None else self).comp(gens[:1], inner, st, c, flat)

    def e_SetComp(self, e, st, c, k):
        return self.comp(e.generators, e.elt, st, c, lambda v, s: k(("fn", "set", O.tm(v)), s))

    def e_GeneratorExp(self, e, st, c, k):
        return self.comp(e.generators, e.elt, st, c, k)

    e_ListComp = e_GeneratorExp

    def e_Yield(self, e, st, c, k):
        if e.value is None:
            return k(("none",), self.emit(st, ("call", "yield", (), e.lineno)))
        return self.eval(e.value, st, c, lambda v, s: k(("fn", "sent"), self.emit(s, ("call", "yield", (O.tm(v),), e.lineno))))

    def e_YieldFrom(self, e, st, c, k):
        return self.eval(e.value, st, c, lambda v, s: k(("fn", "result", O.tm(v)), self.emit(s, ("call", "yield from", (O.tm(v),), e.lineno))))

    def e_JoinedStr(self, e, st, c, k):
        parts = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]

        def shown(x, v):
            if isinstance(x, ast.FormattedValue) and (x.format_spec is not None or x.conversion not in (-1, 115)):
                return ("fn", "format", O.tm(v), ("str", f"{x.conversion}:{ast.unparse(x.format_spec) if x.format_spec is not None else ''}"))
            return O.tm(v)
        return self.evals(parts, st, c, lambda vs, s: k(O.fstr([shown(x, v) for x, v in zip(e.values, vs)]), s))

    # ---- functions as values
    def close(self, v, st):
        if isinstance(v, Fn) and (v.fid is not None or isinstance(v.node, ast.Lambda)):
            return self.closure(v, st)
        if isinstance(v, PList) and any(isinstance(x, (Fn, PList)) for x in v.items):
            return PList([self.close(x, st) for x in v.items])
        if isinstance(v, O.PDict) and any(isinstance(x, (Fn, PList, O.PDict)) for _, x in v.pairs):
            return O.PDict([(n, self.close(x, st)) for n, x in v.pairs])
        return v

    def closure(self, f, st):
        d = getattr(self, "lam", 0)
        if d > 3 or f.node in self.active:
            return f
        a = f.node.args
        names = [p.arg for p in [*a.posonlyargs, *a.args]]
        given = []
        if isinstance(f.node, ast.Lambda) and a.defaults:
            # values bound when the function is made
            names = names[:-len(a.defaults)]
            a = None
        if isinstance(f.node, ast.Lambda) and late(f.node, f.mod):
            given.append(("str", "sees the last element"))
        for x in [] if a is None else [*a.defaults, *[x for x in a.kw_defaults if x is not None]]:
            self.eval(x, st, K(f.mod, Frame(next(self.fids), f.fid), None, None), lambda v, s: given.append(O.tm(v)) or T.num(0.0))
        vals = [T.var(f"^{d}.{i}") for i in range(len(names))]
        kwv = {p.arg: T.var(f"^{d}:{p.arg}") for p in (a.kwonlyargs if a is not None else ())}
        self.lam = d + 1
        self.active.append(f.node)
        pc, self.pc = self.pc, list(self.pc)
        try:
            st2 = {k: v for k, v in st.items()}
            st2[("ev",)] = (*st.get(("ev",), ()), ("head", T.var("^"), ()))
            tree = _call(self, f, vals, kwv, st2)
            return ("closure", T.num(float(len(names))), prune(canon(tree)), *given)
        finally:
            self.lam, self.pc = d, pc
            self.active.remove(f.node)

    def unknown(self, name, args, st, k, e):
        args = [self.close(a, st) for a in args]
        if name in VIEWS and len(args) == 1:
            # what it shows changes with the container only
            d = O.tm(args[0])
            loc = ("fn", "[]", d, ("var", "*"))
            v = self.load(loc, st)
            return k(("fn", name + "()", d) if v == loc else ("fn", name + "()", d, O.tm(v)), st)
        if name == ".add_statements" and len(args) != 2 and args and not any(O._map(x) or isinstance(x, tuple) and x[:2] in (("fn", "splat"), ("fn", "starred")) for x in args):
            # one after the other
            for a in args[1:]:
                st = self.emit(st, ("call", name, (O.tm(args[0]), O.tm(a)), getattr(e, "lineno", 0)))
            return k(None, st)
        if name in TEXTUAL and name[1:] not in self.self_methods:
            return k(("fn", name + "()", *[O.tm(a) for a in args]), st)
        ptrs = [a.key for a in args if isinstance(a, Ptr)]
        if ptrs:
            args = [("fn", "&", O.tm(st.get(a.key))) if isinstance(a, Ptr) else a for a in args]
            k0, r = k, ("fn", "out", ("str", name), *[O.tm(a) for a in args])

            def k(v, s2):
                s2 = dict(s2)
                for i, key in enumerate(ptrs):
                    s2[key] = (*r, T.num(float(i)))
                return k0(v, s2)
        if name in ("assert_true", "error", "notify"):
            args = args[:1]
        if self.calm is not None and name.lstrip(".") not in self.calm and name.lstrip(".") not in self.pure:
            # asking again what nothing has changed since (an accessor read into a variable once, or every time)
            ts = tuple(O.tm(a) for a in args)
            for ev in reversed(st.get(("ev",), ())):
                if ev[0] != "call":
                    continue
                if ev[1] == name and ev[2] == ts:
                    n = sum(1 for x in st[("ev",)] if x[0] == "call" and x[1] == name and x[2] == ts) - 1
                    return k(("fn", name + (f"()#{n}" if n else "()"), *ts), st)
                if ev[1].lstrip(".") in self.calm and any(_mentions(x, y) or _mentions(y, x) for x in ts for y in ev[2] if x[:1] in (("var",), ("fn",))):
                    break
        return super().unknown(name, args, st, k, e)

    def x_While(self, s, st, c, go):
        n = self.trips(s, st, c)
        if n is not None and (1 + O.forks(s.body)) ** n <= 400:
            each = ast.For(target=ast.Name(id="#trip", ctx=ast.Store()), iter=O._Lit(PList(list(range(n)))), body=s.body, orelse=s.orelse)
            return Evaluator.x_For(self, ast.copy_location(each, s), st, c, go)
        return super().x_While(s, st, c, go)

    def trips(self, s, st, c):
        """how often a counting loop between known numbers runs"""
        def known(e):
            v = e.value if isinstance(e, ast.Constant) else st.get((c.fid.id, e.id)) if isinstance(e, ast.Name) else None
            if isinstance(v, tuple) and T.is_num(v):
                v = T.numval(v)
            return int(v) if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 1e6 and v == int(v) else None
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(last, ast.AugAssign) and isinstance(last.op, (ast.Add, ast.Sub))
                and isinstance(last.target, ast.Name) and last.target.id == t.left.id and isinstance(last.value, ast.Constant)):
            return None
        changed = O.assigned(s.body[:-1])[0]
        end = t.comparators[0]
        if t.left.id in changed or isinstance(end, ast.Name) and end.id in changed | {t.left.id} or any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            return None
        i, stop, step = known(t.left), known(end), known(last.value)
        op = {ast.Lt: int.__lt__, ast.LtE: int.__le__, ast.Gt: int.__gt__, ast.GtE: int.__ge__, ast.NotEq: int.__ne__}.get(type(t.ops[0]))
        if i is None or stop is None or step is None or op is None:
            return None
        n = 0
        while op(i, stop):
            i += step if isinstance(last.op, ast.Add) else -step
            n += 1
            if n > 64:
                return None
        return n

    def x_AugAssign(self, s, st, c, go):
        if isinstance(s.op, ast.MatMult) and isinstance(s.target, ast.Name):
            # copies into the object the name stands for
            return self.evals([ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s), s.value], st, c, lambda vs, s2: go(
                self.emit(s2, ("call", "@=", tuple(O.tm(v) for v in vs), s.lineno))))
        return super().x_AugAssign(s, st, c, go)

    def emit(self, st, ev):
        if ev[0] == "store":
            ev = (*ev[:2], self.close(ev[2], st), *ev[3:])
        return super().emit(st, ev)

    def x_Assert(self, s, st, c, go):
        return self.eval(s.test, st, c, lambda v, s2: self.fork(self.truthy(v), s2, lambda: go(s2), lambda: c.exc("raise", s2)))

    # ---- loops
    def unrolled(self, s, it, st, c, go):
        """the first `unroll` times round, then no answer"""
        if it is not None:
            first, by, guard, elem = self.source(it)

        def step(n, s2):
            def enter(s3):
                if n >= self.unroll:
                    return ("beyond",)
                c2 = c.sub(brk=go, cont=lambda s4: step(n + 1, s4))
                if it is None:
                    return self.block(s.body, 0, s3, c2, lambda s4: step(n + 1, s4))
                return self.assign(s.target, elem(h), s3, c, lambda s4: self.block(s.body, 0, s4, c2, lambda s5: step(n + 1, s5)))

            def leave(s3):
                return self.block(s.orelse, 0, s3, c, go)
            if it is None:
                return self.eval(s.test, s2, c, lambda v, s3: self.fork(self.truthy(v), s3, lambda: enter(s3), lambda: leave(s3)))
            h = T.add(first, T.mul(by, T.num(float(n)))) if n else first
            return self.fork(guard(h), s2, lambda: enter(s2), lambda: leave(s2))
        return step(0, st)

    def loop(self, s, it, st, c, go):
        if self.unroll is not None:
            return self.unrolled(s, it, st, c, go)
        names, lists = O.assigned(s.body)
        given = self.passed(s.body, c.mod)
        lists = lists | given
        if it is not None:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        else:
            for n in ast.walk(getattr(s, "test", s.body[0])):
                if isinstance(n, ast.NamedExpr):
                    names.add(n.target.id)
        fid = c.fid.id
        ev0 = st.get(("ev",), ())
        loclists = {n for n in lists if isinstance(st.get((fid, n)), PList)}
        loccells = {n for n in O.cells(s.body) | given if owned(st.get((fid, n)))}
        carry = sorted(names | loclists | loccells)
        start = {n: O.tm(self.close(st[(fid, n)], st)) if (fid, n) in st else ("undef",) for n in carry}
        if it is not None:
            src = self.source(it)
            start["#"] = src[0]

        def run(stores, dry):
            self.loops += 1
            self.hold.append(s)
            L = f"{self.loops}@{self.nodes.setdefault(id(s), len(self.nodes))}"
            ref = T.var(f"%{L}")

            def hv(n):
                return T.var(f"%{L}.{n}")
            st2 = dict(st)
            for n in carry:
                st2[(fid, n)] = PList([("fn", "splat", hv(n))]) if n in loclists else hv(n)
            st2[("ev",)] = (*ev0, ("head", ref, tuple(stores)))
            ends = []

            def again(s3):
                if dry:
                    ends.append(s3)
                    return ("dry",)
                nxt = {n: O.tm(self.close(s3[(fid, n)], s3)) if (fid, n) in s3 else ("undef",) for n in carry}
                if it is not None:
                    nxt["#"] = T.add(hv("#"), src[1])
                return ("again", ref, tuple(sorted(nxt.items())), effects(s3))
            dead = (lambda *a: ("dry",)) if dry else None
            c2 = K(c.mod, c.fid, dead or c.ret, dead or c.exc, dead or go, again)

            def leave(s3):
                if dry:
                    return ("dry",)
                if it is not None:
                    s3 = dict(s3)
                return self.block(s.orelse, 0, s3, c, go)

            def enter(s3):
                return self.block(s.body, 0, s3, c2, again)
            if it is not None:
                h = hv("#")
                cond, elem = src[2](h), src[3](h)
                tree = self.fork(cond, st2, lambda: self.assign(s.target, elem, st2, c, enter), lambda: leave(st2))
            else:
                tree = self.eval(s.test, st2, c, lambda v, s3: self.fork(self.truthy(v), s3, lambda: enter(s3), lambda: leave(s3)))
            if dry:
                found = []
                for s3 in ends:
                    for ev in s3.get(("ev",), ())[len(ev0) + 1:]:
                        for x in ([ev[1]] if ev[0] == "store" else ev[2] if ev[0] == "head" else []):
                            if x not in found:
                                found.append(x)
                return found
            return ("loop", ref, tuple(sorted(start.items())), effects(st), tree)
        stores = run((), True)
        return run(stores, False)

    def source(self, it):
        """(start, step, guard(h), element(h)) of an iterable"""
        t = O.tm(it)
        one = T.num(1.0)
        if t[0] == "fn" and t[1] == "range":
            a = t[2:]
            lo, hi, step = (T.num(0.0), a[0], one) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else one)
            if not T.is_num(step):
                raise Unsupported(None, "range step")
            up = T.numval(step) > 0
            return lo, step, (lambda h: T.cmp("lt", h, hi) if up else T.cmp("lt", hi, h)), (lambda h: h)
        if t[0] == "fn" and t[1] == "reversed" and t[2][:2] == ("fn", "range") and len(t[2]) <= 4:
            a = t[2][2:]
            lo, hi = (T.num(0.0), a[0]) if len(a) == 1 else a
            return T.sub(hi, one), T.num(-1.0), (lambda h: T.cmp("le", lo, h)), (lambda h: h)

        if t[:2] == ("fn", "slice") and len(t) == 6 and t[4:] == (("none",), ("none",)) and (t[3] == ("none",) or T.is_num(t[3]) and T.numval(t[3]) >= 0):
            x = t[2]
            return T.num(0.0) if t[3] == ("none",) else t[3], one, (lambda h: T.cmp("lt", h, ("fn", "len", x))), (lambda h: ("fn", "elem" if self.calm is None and x[:1] != ("list",) else "[]", x, h))

        def elem(x, h):
            if x[0] == "fn" and x[1] == "enumerate":
                return PList([T.add(h, x[3]) if len(x) > 3 else h, elem(x[2], h)])
            if x[0] == "fn" and x[1] == "zip":
                return PList([elem(y, h) for y in x[2:]])
            if x[0] == "fn" and x[1] == "range" and len(x) == 3:
                return h
            return ("fn", "elem" if self.calm is None and x[:1] != ("list",) else "[]", x, h)

        def guard(x, h):
            if x[0] == "fn" and x[1] == "enumerate":
                return guard(x[2], h)
            if x[0] == "fn" and x[1] == "zip":
                r = True
                for y in x[2:]:
                    r = T.band(r, guard(y, h))
                return r
            return T.cmp("lt", h, ("fn", "len", x))
        return T.num(0.0), one, (lambda h: guard(t, h)), (lambda h: elem(t, h))


LATE = {}


def late(node, mod):
    """does a lambda read what a comprehension around it goes on to rebind"""
    if id(mod) not in LATE:
        seen = LATE[id(mod)] = (mod, set())

        def walk(n, bound):
            if isinstance(n, ast.Lambda):
                mine = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
                if bound & {x.id for x in ast.walk(n.body) if isinstance(x, ast.Name)} - mine:
                    seen[1].add(n)
                bound = bound - mine
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bound = frozenset()
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                bound = bound | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for x in ast.iter_child_nodes(n):
                walk(x, bound)
        walk(mod.tree, frozenset())
    return node in LATE[id(mod)][1]


def _gloc(n):
    return ("fn", "." + n, T.var("globals"))


class _With(K):
    """continuations inside a with block; `done` leaves it normally"""
    __slots__ = ("done",)

    def __init__(self, c, done):
        super().__init__(c.mod, c.fid, c.ret, c.exc, c.brk, c.cont)
        self.done = done

    def sub(self, **kw):
        return _With(super().sub(**kw), self.done)


def _lit(v):
    return O._Lit(v)


def effects(st):
    out = []
    for ev in reversed(st.get(("ev",), ())):
        if ev[0] == "head":
            break
        if ev[0] == "store":
            out.append(("store", ev[1], O.tm(ev[2]), Line(("line", ev[3]))))
        elif ev[0] == "call":
            out.append(("call", ("str", ev[1]), ("args", *ev[2]), Line(("line", ev[3]))))
        elif ev[0] == "delete":
            out.append(("call", ("str", "del"), ("str", ev[1]), Line(("line", ev[2]))))
    return tuple(reversed(out))


def tidy(effs):
    """a store overwritten by a later one with nothing but stores to other places between is no effect"""
    out = []
    for i, e in enumerate(effs):
        if e[0] == "store":
            dead = False
            for f in effs[i + 1:]:
                if f[0] == "call":
                    break
                if f[0] == "store" and f[1] == e[1]:
                    dead = True
                    break
            if dead:
                continue
        if e[0] == "call" and e[1] == ("str", "end with") and len(out) >= 2 and out[-1][:2] == ("call", ("str", "with")) and out[-1][2] == e[2] and out[-2][:2] == ("call", ("str", "using_ctx")):
            # a context made current for nothing
            del out[-2:]
            continue
        out.append(e)
    return out


# ---------------------------------------------------------------- building
def build(mod, fn, cls=None, **kw):
    """transition tree of a function; parameters are named by position"""
    methods = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef)} if cls is not None else {}
    kw.setdefault("methods", methods)
    E = LEval(mod, **kw)
    a = fn.args
    ps = [p.arg for p in [*a.posonlyargs, *a.args]]
    st, vals = {}, []
    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
    for i, p in enumerate(ps):
        if i == 0 and cls is not None and not static:
            vals.append(Obj("self", methods=E.self_methods, mod=mod, term=T.var("self")))
        else:
            vals.append(T.var(f"a{i}"))
    kwv = {p.arg: T.var("k:" + p.arg) for p in a.kwonlyargs}
    f = Fn(fn, mod)
    E.active.append(fn)
    tree = _call(E, f, vals, kwv, st)
    return relabel(prune(canon(tree)))


def _call(E, f, vals, kwv, st):
    ret = lambda v, s: ("ret", O.tm(E.close(v, s)), effects(s))
    exc = lambda kd, s: ("exc",)
    a = f.node.args
    if a.vararg is not None or a.kwarg is not None:
        f2 = ast.FunctionDef(name=f.node.name, args=ast.arguments(posonlyargs=a.posonlyargs, args=a.args, vararg=None, kwonlyargs=a.kwonlyargs,
                             kw_defaults=a.kw_defaults, kwarg=None, defaults=a.defaults), body=f.node.body, decorator_list=[], lineno=f.node.lineno)
        fid = next(E.fids)
        st = dict(st)
        if a.vararg is not None:
            st[(fid, a.vararg.arg)] = T.var("*args")
        if a.kwarg is not None:
            st[(fid, a.kwarg.arg)] = T.var("**kwargs")
        return E.call_fn(Fn(f2, f.mod, Frame(fid, f.fid)), vals, kwv, st, ret, exc)
    return E.call_fn(f, vals, kwv, st, ret, exc)


def _mentions(t, v):
    if t == v:
        return True
    return isinstance(t, tuple) and any(_mentions(x, v) for x in t if isinstance(x, tuple))


def _subst(t, m):
    """variables for terms"""
    if not m:
        return t
    memo = {}

    def sub(t):
        if isinstance(t, Line):
            return t
        if len(t) == 2 and t[0] == "var":
            return m.get(t, t)
        r = memo.get(id(t))
        if r is None:
            out = [sub(x) if isinstance(x, tuple) else x for x in t]
            r = memo[id(t)] = t if all(a is b for a, b in zip(out, t)) else tuple(out)
        return r
    return sub(t) if isinstance(t, tuple) else t


def _agains(t, ref, out):
    if t[0] == "ite":
        _agains(t[2], ref, out)
        _agains(t[3], ref, out)
    elif t[0] == "loop":
        _agains(t[4], ref, out)
    elif t[0] == "again" and t[1] == ref:
        out.append(t)
    return out


def _map_agains(t, ref, f):
    if t[0] == "ite":
        return ("ite", t[1], _map_agains(t[2], ref, f), _map_agains(t[3], ref, f))
    if t[0] == "loop":
        return (*t[:4], _map_agains(t[4], ref, f))
    if t[0] == "again" and t[1] == ref:
        return f(t)
    return t


def _conds(t, out):
    """every term of the tree except the next values of back edges"""
    if t[0] == "ite":
        out.append(t[1])
        _conds(t[2], out)
        _conds(t[3], out)
    elif t[0] == "loop":
        out.append(("i", *[v for _n, v in t[2]]))
        out.append(("e", *t[3]))
        _conds(t[4], out)
    elif t[0] == "again":
        out.append(("e", *t[3]))
        out.append(("n", t[1], t[2]))
    else:
        out.append(t)
    return out


ONCE = [0]  # loops met that never go round


def canon(t):
    if t[0] == "ite":
        a, b = canon(t[2]), canon(t[3])
        return a if a == b else ("ite", t[1], a, b)
    if t[0] != "loop":
        return t
    _l, ref, init, eff, body = t
    body = canon(body)
    backs = _agains(body, ref, [])
    if not backs:
        # runs at most once
        m = {T.var(f"{ref[1]}.{n}"): v for n, v in init}
        ONCE[0] += 1
        return _prefix(_subst(body, m), eff)
    m, keep = {}, []
    k = T.var(f"{ref[1]}.#k")
    start = dict(init)
    for n, v in init:
        h = T.var(f"{ref[1]}.{n}")
        ns = [dict(b[2])[n] for b in backs]
        if all(x == h for x in ns):
            m[h] = v
            continue
        steps = [_step(x, h) for x in ns]
        if all(s is not None and s == steps[0] for s in steps) and v != ("undef",) and v[0] not in ("none", "str", "list"):
            m[h] = T.add(v, T.mul(T.num(steps[0]), k))
            continue
        keep.append(n)
    drop = lambda names: (lambda b: ("again", b[1], tuple((n, x) for n, x in b[2] if n in names), b[3]))
    body = _subst(_map_agains(body, ref, drop(keep)), m)
    return ("loop", ref, tuple((n, start[n]) for n in keep), eff, body)


def prune(t):
    """without the carried variables that only feed each other"""
    memo, live, feeds = {}, set(), {}

    def names(x):
        if not isinstance(x, tuple):
            return frozenset()
        r = memo.get(id(x))
        if r is None:
            r = frozenset((x[1],)) if len(x) == 2 and x[0] == "var" else frozenset().union(*[names(y) for y in x if isinstance(y, tuple)])
            memo[id(x)] = r
        return r

    def walk(t):
        if t[0] == "ite":
            live.update(names(t[1]))
            walk(t[2])
            walk(t[3])
        elif t[0] in ("loop", "again"):
            for n, v in t[2]:
                feeds.setdefault(f"{t[1][1]}.{n}", set()).update(names(v))
            live.update(names(t[3]))
            if t[0] == "loop":
                walk(t[4])
        else:
            live.update(names(t))

    def cut(t):
        if t[0] == "ite":
            return ("ite", t[1], cut(t[2]), cut(t[3]))
        if t[0] in ("loop", "again"):
            kept = tuple((n, v) for n, v in t[2] if f"{t[1][1]}.{n}" in live)
            return ("loop", t[1], kept, t[3], cut(t[4])) if t[0] == "loop" else ("again", t[1], kept, t[3])
        return t
    walk(t)
    if not feeds:
        return t
    todo = [n for n in feeds if n in live]
    while todo:
        for m in feeds[todo.pop()]:
            if m not in live:
                live.add(m)
                if m in feeds:
                    todo.append(m)
    return cut(t)


def relabel(t):
    """loops named by how deep they lie: trees that differ only in numbering become equal"""
    new, memo = {}, {}

    def term(x, d):
        if not isinstance(x, tuple) or isinstance(x, Line):
            return x
        if len(x) == 2 and x[0] == "var":
            if isinstance(x[1], str) and x[1].startswith("%"):
                a, dot, b = x[1].partition(".")
                return ("var", new.get(a, a) + dot + b)
            return x
        r = memo.get((id(x), d))
        if r is None:
            if x[:1] == ("closure",):
                r = ("closure", x[1], tree(x[2], d + 1), *[term(y, d) for y in x[3:]])
            else:
                r = tuple([term(y, d) for y in x])
            memo[id(x), d] = r
        return r

    def tree(t, d):
        if t[0] == "ite":
            return ("ite", term(t[1], d), tree(t[2], d), tree(t[3], d))
        if t[0] == "loop":
            init, eff = term(t[2], d), term(t[3], d)
            n, at, m = t[1][1].partition("@")
            new[t[1][1]] = f"%{d + 1}{at}{m}"
            return ("loop", ("var", new[t[1][1]]), init, eff, tree(t[4], d + 1))
        return term(t, d)
    return tree(t, 0)


def _prefix(t, eff):
    """put effects in front of every end of a tree"""
    if not eff:
        return t
    if t[0] == "ite":
        return ("ite", t[1], _prefix(t[2], eff), _prefix(t[3], eff))
    if t[0] == "loop":
        return (*t[:3], (*eff, *t[3]), t[4])
    if t[0] == "ret":
        return ("ret", t[1], (*eff, *t[2]))
    if t[0] == "again":
        return (*t[:3], (*eff, *t[3]))
    return t


def _step(x, h):
    """constant c with x = h + c"""
    from . import real
    try:
        n, d = real.quot(T.sub(x, h))
    except (real.NoForm, OverflowError, TypeError, IndexError, KeyError):
        return None
    if set(d) != {()} or set(n) - {()}:
        return None
    return float(n.get((), 0) / d[()])


# ---------------------------------------------------------------- comparison
class Differ(Exception):
    def __init__(self, what, got, want, facts, line=None, soft=False):
        super().__init__(what)
        self.why, self.inloop, self.shape, self.loops = None, False, False, False
        self.what, self.got, self.want, self.facts, self.line, self.soft = what, got, want, facts, line, soft


class Cells(O.Ints):
    """regions of integer-valued bodies"""
    def copy(self):
        return Cells(dict(self.iv), dict(self.pair), dict(self.preds))


BOOLEAN = re.compile(r"\.?(is_[a-z_]+|has_[a-z_]+|exists|startswith|endswith|isdigit|isidentifier)\(\)")


def _calls_stored(t):
    """results of calls that the effects of an end store into"""
    return {e[1][2] for e in (t[2] if t[0] == "ret" else t[3] if t[0] in ("loop", "again") else ()) if e[0] == "store" and e[1][1] == "[]" and e[1][2][:1] == ("fn",) and e[1][2][1].split("#")[0].endswith("()")}


def _asked(t, p):
    return isinstance(t, tuple) and (t == p or any(_asked(x, p) for x in t))


class Cmp:
    def __init__(self, budget=40000, odd=None):
        self.budget, self.regions, self.odd = budget, 0, odd or (lambda t, w: None)

    def trees(self, a, b, facts):
        """a (code) against b (reference, already renamed)"""
        stack, soft = [facts], None
        while stack:
            f = stack.pop()
            self.regions += 1
            if self.regions > self.budget:
                raise T.Limit("region budget")
            try:
                x, y = a, b
                while x[0] == "ite" or y[0] == "ite":
                    if x == y:
                        break
                    if x[0] == "ite":
                        x = x[2] if O.cond_eval(x[1], f) else x[3]
                    if y[0] == "ite":
                        y = y[2] if O.cond_eval(y[1], f) else y[3]
                if x != y:
                    self.ends(x, y, f)
            except T.Unknown as u:
                stack.extend(_split(u.atom, f))
            except Differ as d:
                if not d.soft:
                    d.why = self.odd(d.got, d.want)
                    if not d.why and any(p[:2] in (("pred", "mapping"), ("pred", "sequence")) and not v and not _asked(a, p) for p, v in f.preds.items()):
                        d.why = "other tests than the pattern's"
                    if not d.why and any(z[:1] == ("call",) and z[1] == ("str", ".pop") and z[2][1][:1] == ("list",) for z in (d.got, d.want)):
                        d.why = "what a list display loses"
                    if not d.why and x[0] == y[0] and _calls_stored(x) - _calls_stored(y):
                        d.why = "a store into the result of a call"
                    d.soft = bool(d.why)
                if not d.soft:
                    raise
                soft = soft or d
        if soft:
            raise soft

    def ends(self, x, y, f):
        if x[0] == "beyond" or y[0] == "beyond":
            return
        if x[0] != y[0]:
            raise Differ("the code " + _end(x) + " where the meaning " + _end(y), x, y, f, soft="loop" in (x[0], y[0]) and "exc" not in (x[0], y[0]) and False)
        if x[0] == "exc":
            return
        if x[0] == "ret":
            try:
                self.effects(x[2], y[2], f)
            except Differ as d:
                if d.soft:
                    # whichever order the effects have, the value is the same one
                    self.value("the returned value", plain(x[1]), plain(y[1]), f, None)
                raise
            self.value("the returned value", x[1], y[1], f, None)
            return
        if x[0] == "again":
            if x[1] != y[1]:
                raise Differ("jumps to a different loop", x, y, f)
            self.effects(x[3], y[3], f)
            xs = dict(x[2])
            for n, yn in y[2]:
                self.value(f"the next value of {n}", xs[n], yn, f, None)
            return
        if x[0] == "loop":
            try:
                self.effects(x[3], y[3], f)
                self.loops(x, y, f)
            except Differ as d:
                d.inloop = True
                raise
            return
        raise T.Limit(f"end {x[0]}")

    def loops(self, x, y, f):
        xi, yi = dict(x[2]), dict(y[2])
        if len(xi) != len(yi):
            raise Differ(f"the loop carries {sorted(xi)}, the meaning {sorted(yi)}", ("loop", *x[1:3], x[3]), ("loop", *y[1:3], y[3]), f, soft=len(xi) > len(yi))
        if _counts(x) != _counts(y):
            raise Differ("the loop has " + ("a" if _counts(x) else "no") + " counter", x[:4], y[:4], f, soft=_counts(x))
        best = None
        names = list(yi)
        fits, at = {}, {xn: i for i, xn in enumerate(xi)}

        def fit(n, xn):
            if (n, xn) not in fits:
                fits[n, xn] = self.same(xi[xn], yi[n], f)
            return fits[n, xn]

        def pairings(i, used):
            if i == len(names):
                yield ()
                return
            n = names[i]
            # same names first, then the same place in the order
            for xn in sorted(xi, key=lambda c: (c != n, c in yi, abs(at[c] - i))):
                if xn not in used and fit(n, xn):
                    for rest in pairings(i + 1, used | {xn}):
                        yield (xn, *rest)
        cands = list(itertools.islice(pairings(0, frozenset()), 4 if set(xi) == set(yi) else 40))
        if not cands:
            bad = [(n, xn) for (n, xn), ok in fits.items() if not ok]
            n, xn = min(bad, key=lambda p: p[0] != p[1])
            raise Differ(f"the start of {xn}", xi[xn], yi[n], f)
        for p in cands:
            try:
                m = {T.var(f"{y[1][1]}.{n}"): T.var(f"{x[1][1]}.{xn}") for n, xn in zip(names, p)}
                m[T.var(f"{y[1][1]}.#k")] = T.var(f"{x[1][1]}.#k")
                body = _subst_ref(y[4], {**m, y[1]: x[1]}, y[1], dict(zip(names, p)))
                self.trees(x[4], body, f.copy())
                return
            except Differ as d:
                if best is None or (not best.soft and d.soft and set(xi) != set(yi)):
                    best = d
        raise best

    # ---- values
    def value(self, what, x, y, f, line):
        if not self.same(x, y, f):
            raise Differ(what, x, y, f, line)

    def same(self, x, y, f):
        x, y = O.resolve(x, f), O.resolve(y, f)
        if x == y:
            return True
        if O.rep(x, f) == O.rep(y, f):
            return True
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            return False
        if T.is_cond(x) or T.is_cond(y):
            if T.is_cond(x) and T.is_cond(y):
                return O.cond_eval(x, f) == O.cond_eval(y, f)
            return False
        if x[0] == y[0] == "closure":
            if x[1] != y[1] or len(x) != len(y) or not all(self.same(a, b, f) for a, b in zip(x[3:], y[3:])):
                return False
            try:
                self.trees(x[2], y[2], f.copy())
            except Differ as d:
                self.inner = d
                return False
            return True
        if x[0] in ("str", "none", "undef") or y[0] in ("str", "none", "undef"):
            return False
        for p, q in ((x, y), (y, x)):
            if q in (T.num(0.0), T.num(1.0)) and p[0] == "fn" and BOOLEAN.match(p[1]):
                return bool(O.cond_eval(T.truth(p), f)) == (q == T.num(1.0))
        if x[0] == y[0] and x[0] in ("fn", "list", "args", "pair2", "dict") and len(x) == len(y) and (x[0] != "fn" or x[1] == y[1]):
            lo = 2 if x[0] == "fn" else 1
            if all(self.same(a, b, f) for a, b in zip(x[lo:], y[lo:])):
                return True
        if x[0] in ("list", "dict", "pair2") or y[0] in ("list", "dict", "pair2"):
            return False
        from . import real
        try:
            n, d = real.quot(T.sub(_deep(x, f), _deep(y, f)))
            return not n or not {m: c for m, c in n.items() if abs(float(c)) > 1e-12}
        except (real.NoForm, OverflowError, TypeError, IndexError, KeyError, ValueError):
            return False

    def effects(self, xs, ys, f):
        xs, ys = self.idle(tidy(xs), f), self.idle(tidy(ys), f)
        i = 0
        rest = list(xs)
        for j, b in enumerate(ys):
            # the first effect of the code that is this one, past effects that commute with it
            for i, a in enumerate(rest):
                if self.effect(a, b, f):
                    rest.pop(i)
                    break
                if not commute(a, b):
                    later = any(self.effect(z, b, f) for z in rest[i + 1:])
                    raise Differ("an effect" + (" out of order" if later else ""), a, b, f, _line(a), soft=later and not ordered(a, b))
            else:
                raise Differ("an effect is missing", ("none",), b, f)
        if rest:
            raise Differ("an additional effect", rest[0], ("none",), f, _line(rest[0]))

    def idle(self, effs, f):
        """without leading stores of what the place holds already"""
        effs = list(effs)

        def held(loc, v):
            seen = [loc, *[x for x in _versions(v, []) if x[2] == loc or self.same(x[2], loc, f)]]
            for x in seen:
                try:
                    if x != v and O.cond_eval(T.cmp("eq", v, x), f):
                        return True
                except T.Unknown:
                    pass
            return False
        while effs and effs[0][0] == "store" and effs[0][1][:2] in (("fn", "[]"), ("fn", "u[]")) and isinstance(effs[0][2], tuple) and held(effs[0][1], effs[0][2]):
            effs.pop(0)
        return effs

    def effect(self, a, b, f):
        if a[0] != b[0]:
            return False
        if a[0] == "store":
            return a[1][1] == b[1][1] and self.same(a[1], b[1], f) and self.same(a[2], b[2], f)
        return a[1] == b[1] and len(a[2]) == len(b[2]) and self.same(a[2], b[2], f)


def plain(t):
    """calls without their numbers"""
    if not isinstance(t, tuple) or isinstance(t, Line):
        return t
    if t[:1] == ("fn",) and "()#" in t[1]:
        t = ("fn", t[1].partition("#")[0], *t[2:])
    return tuple([plain(x) if isinstance(x, tuple) else x for x in t])


def commute(a, b):
    if a[0] == "store" and b[0] == "store":
        x, y = a[1], b[1]
        arr = ("[]", "u[]")
        if x[1] in arr and y[1] in arr:
            return x[2] != y[2] or (T.is_num(x[3]) and T.is_num(y[3]) and x[3] != y[3])
        return x[1] != y[1]
    return False


def _deep(t, f):
    t = O.resolve(t, f)
    if isinstance(t, tuple) and t[0] in ("add", "mul", "div", "neg"):
        return (t[0], *[_deep(x, f) for x in t[1:]])
    return O.rep(t, f)


def _subst_ref(t, m, ref, names):
    """rename a loop's label and what it carries"""
    if not isinstance(t, tuple):
        return t
    if t[0] == "ite":
        return ("ite", _subst(t[1], m), _subst_ref(t[2], m, ref, names), _subst_ref(t[3], m, ref, names))
    if t[0] == "loop":
        return ("loop", t[1], tuple((n, _subst(v, m)) for n, v in t[2]), _subst(t[3], m), _subst_ref(t[4], m, ref, names))
    if t[0] == "again":
        return ("again", m.get(t[1], t[1]), tuple(sorted((names[n] if t[1] == ref else n, _subst(v, m)) for n, v in t[2])), _subst(t[3], m))
    return _subst(t, m)


def _constant(t):
    """a named constant: CAPITALS, or a member of a class written so"""
    return isinstance(t, tuple) and (t[:1] == ("var",) and str(t[1]).startswith("g:") and CAPITALS.match(str(t[1])[2:].split(".")[-1]) is not None
                                     or t[:1] == ("fn",) and len(t) == 3 and t[1][:1] == "." and CAPITALS.match(t[1][1:]) is not None and t[2][:1] == ("var",) and str(t[2][1]).startswith("g:"))


SYNTAX = {"." + n for n in ("value", "returns", "annotation", "msg", "exc", "cause", "lower", "upper", "step", "optional_vars", "guard", "pattern", "vararg", "kwarg")}
CAPITALS = re.compile(r"_?[A-Z][A-Z0-9]*_?([A-Z0-9]\w*)?$")


def _several(g):
    """one value equal to two different constants"""
    found = {}
    for t, iv in g.iv.items():
        if t[:2] == ("fn", "lin") and iv.point() and iv.lo == 0 and len(t[2]) == 2:
            (m, c), (n, d) = t[2]
            if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1 and c == -d:
                for x, y in ((m[0][0], n[0][0]), (n[0][0], m[0][0])):
                    if _constant(y) and not _constant(x):
                        found.setdefault(x, set()).add(y)
    for p, v in g.preds.items():
        if v and p[:2] == ("pred", "eq") and len(p) == 4:
            for x, y in ((p[2], p[3]), (p[3], p[2])):
                if y[:1] in (("str",), ("num",)) and x[:1] not in (("str",), ("num",)):
                    found.setdefault(x, set()).add(y)
    return any(len(v) > 1 for v in found.values())


def _versions(t, out):
    """what places held, as parts of a term"""
    if isinstance(t, tuple):
        if t[:2] == ("fn", "at") and len(t) > 2:
            out.append(t)
        for x in t:
            _versions(x, out)
    return out


def _length(t):
    return isinstance(t, tuple) and t[:1] == ("fn",) and t[1].split("#")[0] in ("len", "len()", "c.len()")


def _split(atom, f):
    out = []
    for g in O.split(atom, f):
        bad = False
        if _several(g):
            continue
        sizes = {}
        for p, v in g.preds.items():
            if v and p[:2] == ("pred", "sequence"):
                sizes.setdefault(p[2], []).append((T.numval(p[3]), T.numval(p[4])))
        for ns in sizes.values():
            # one length only
            exact = {n for n, more in ns if not more}
            bad |= len(exact) > 1 or bool(exact) and any(more and n > min(exact) for n, more in ns)
        for t, iv in g.iv.items():
            below = iv.hi < 0 or iv.hi == 0 and iv.hio
            if below and (_length(t) or t[:2] == ("fn", "lin") and all(c > 0 and all(_length(v) for v, _p in m) for m, c in t[2])):
                # how many there are is never negative
                bad = True
            if t[:2] == ("fn", "lin") and iv.hi - iv.lo <= 1 and not iv.point():
                from math import floor, ceil
                body = t[2]
                if all(float(c).is_integer() for _m, c in body):
                    lo = floor(iv.lo) + 1 if iv.loo or iv.lo != floor(iv.lo) else iv.lo
                    hi = ceil(iv.hi) - 1 if iv.hio or iv.hi != ceil(iv.hi) else iv.hi
                    bad |= lo > hi
        if not bad:
            out.append(Cells(dict(g.iv), dict(g.pair), dict(g.preds)))
    return out


def _end(x):
    return {"exc": "stops with an error", "ret": "returns", "loop": "enters a loop", "again": "goes round the loop again"}.get(x[0], x[0])


def _line(e):
    return e[3][1] if isinstance(e, tuple) and len(e) > 3 and isinstance(e[3], tuple) and e[3][:1] == ("line",) else None


def symbols(t, out):
    if isinstance(t, tuple) and t:
        if len(t) > 1 and t[0] in ("fn", "pred") and isinstance(t[1], str):
            out.add(t[1].split("#")[0])
        if len(t) == 2 and t[0] == "var" and str(t[1]).startswith("g:"):
            out.add(t[1])
        if t[0] == "call":
            out.add(t[1][1].split("#")[0])
        if t[0] == "store":
            out.add(t[1][1])
        for x in t:
            symbols(x, out)
    return out


COMMON = {n for n in O.PURE_BI} | {"at", "ver", "lin", "elem", "splat", "[]", "u[]", "isnone", "in", "eq", "slice", "item", "Add", "Sub", "Mult", "Not", "USub", "UAdd", "Invert", "Mod", "FloorDiv", "Div", "Pow",
                                   "BitAnd", "BitOr", "BitXor", "LShift", "RShift", "map", "mapg", "exists", "isinstance", "trunc", "floor", "ceil", "fabs", "kw",
                                   "fstr", "fails", "starred", "rest", "mapping", "sequence", "matcharg"}


VIEWS = {".items", ".values", ".keys"}
TEXTUAL = {"." + n for n in ("strip lstrip rstrip lower upper title casefold startswith endswith split rsplit partition rpartition encode decode replace removeprefix removesuffix join isdigit isidentifier "
                             "is_integer bit_length").split()}


MUTATORS = {"append", "add", "pop", "write", "extend", "insert", "remove", "clear", "update", "setdefault", "popleft", "appendleft", "discard", "next", "send",
            "add_statement", "add_statements", "connect_to", "emit", "branch", "set_ctx", "alloc", "push", "put", "visit", "_set_", "_copy_from_", "reserve", "@="}


ORDERED = {"@=", "visit", "add_statement", "add_statements", "emit", "set_ctx", "push", "put", "handle_call", "handle_getattr", "handle_setitem", "handle_getitem"}
ORDERED_ON = {"write", "_set_", "_copy_from_", "send", "pop", "append", "next"}


def ordered(a, b):
    """two effects whose order is their meaning"""
    if a[0] != "call" or b[0] != "call":
        return False
    x, y = (e[1][1].lstrip(".").removesuffix("()") for e in (a, b))
    if x in ORDERED and y in ORDERED:
        return True
    return x in ORDERED_ON and y in ORDERED_ON and len(a[2]) > 1 and len(b[2]) > 1 and a[2][1] == b[2][1]


def acts(mod):
    """names of functions called for what they do, not for what they return"""
    out = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            out.add(f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "")
    return out


def align(x, y):
    """the reference with its carried variables named like those of the code, where the shapes agree"""
    if x == y:
        return y
    if x[0] == y[0] == "ite":
        return ("ite", y[1], align(x[2], y[2]), align(x[3], y[3]))
    if x[0] == y[0] == "loop" and x[1] == y[1] and len(x[2]) == len(y[2]):
        xi, yi = dict(x[2]), dict(y[2])
        free = [n for n in xi if n not in yi]
        names = {n: n for n in yi if n in xi}
        for n in yi:
            if n not in names:
                best = next((m for m in free if xi[m] == yi[n]), free[0])
                free.remove(best)
                names[n] = best
        if any(n != m for n, m in names.items()):
            m = {T.var(f"{y[1][1]}.{n}"): T.var(f"{x[1][1]}.{xn}") for n, xn in names.items()}
            y = ("loop", y[1], tuple(sorted((names[n], v) for n, v in y[2])), y[3], _subst_ref(y[4], m, y[1], names))
        return (*y[:4], align(x[4], y[4]))
    return y


def compare(code, ref, budget=40000, odd=None, calm=None):
    """None, or the Differ"""
    ref = align(code, ref)
    r, n = _compare(code, ref, budget, odd)
    if r is not None and not r.soft:
        try:
            a, b = calm() if calm is not None else (code, ref)
        except (T.Limit, RecursionError):
            a, b = code, ref
        r.loops = bool(shape(ref)[0] or shape(code)[0])
        r.shape = shape(code) != shape(ref) or "loop" in (r.got[0], r.want[0]) and r.got[0] != r.want[0]
        if (a, b) != (code, ref):
            b = align(a, b)
            try:
                if _compare(a, b, min(budget, 20000), odd)[0] is None:
                    r.soft, r.what = True, "a call repeated or not: " + r.what
            except (T.Limit, RecursionError):
                pass
    return r, n


def _compare(code, ref, budget, odd):
    c = Cmp(budget, odd)
    try:
        c.trees(code, ref, Cells())
    except Differ as d:
        if {d.got[0], d.want[0]} & {"loop", "again"} and (_loops(code) != _loops(ref) or len(_maps(code, set())) != len(_maps(ref, set()))):
            # a comprehension written as a loop, or the other way round
            d.soft = True
        if d.inloop and _regrouped(code, ref):
            d.soft = True
        return d, c.regions
    return None, c.regions


def _counts(t):
    """a counter runs through the loop"""
    return _mentions(t[4], T.var(f"{t[1][1]}.#k"))


def _loops(t):
    """does the tree have back edges"""
    return t[0] == "loop" or (t[0] == "ite" and (_loops(t[2]) or _loops(t[3])))


def _maps(t, out):
    """comprehensions"""
    if isinstance(t, tuple):
        if t[:2] == ("fn", "map"):
            out.add(t)
        for x in t:
            if isinstance(x, tuple):
                _maps(x, out)
    return out


def shape(t):
    """the loops and comprehensions of a tree"""
    loops, comps = {}, set()

    def terms(x):
        if isinstance(x, tuple) and not isinstance(x, Line):
            if x[:2] in (("fn", "map"), ("fn", "mapg"), ("pred", "exists")):
                comps.add(x[2])
            for y in x:
                terms(y)

    def tree(t):
        if t[0] == "ite":
            terms(t[1])
            tree(t[2])
            tree(t[3])
        elif t[0] == "loop":
            loops.setdefault(t[1][1], set()).add((len(t[2]), _counts(t)))
            terms(t[2])
            terms(t[3])
            tree(t[4])
        else:
            terms(t)
    tree(t)
    return sorted(map(sorted, loops.values())), len(comps)


def _refs(t, out):
    """loops met on the paths of a tree, by the loop statements they come from"""
    if t[0] == "loop":
        out.append(t[1])
        _refs(t[4], out)
    elif t[0] == "ite":
        _refs(t[2], out)
        _refs(t[3], out)
    return out


def _regrouped(a, b):
    """loops were fused, split or replaced: the pairing is not the right one"""
    x, y = _refs(a, []), _refs(b, [])
    return len(x) != len(y) and len({r[1].split("@")[1] for r in x}) != len({r[1].split("@")[1] for r in y})


def _pk(k):
    if k == ("zero",):
        return "0"
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and isinstance(k[1], tuple):
        return _poly(k[0]) + ("" if k[1] == (((), 1.0),) else "/" + _poly(k[1]))
    return str(k)


def _poly(p):
    out = []
    for mono, c in p:
        m = "*".join(_atom(a) + ("" if e == 1 else f"^{e}") for a, e in mono)
        out.append(m if c == 1 and m else (f"-{m}" if c == -1 and m else (f"{c:g}*{m}" if m else f"{c:g}")))
    return " + ".join(out) or "0"


def _atom(a):
    if a[0] == "fn":
        n, xs = a[1], [_pk(x) for x in a[2:]]
        return f"{xs[0]}{n}" if n.startswith(".") and len(xs) == 1 else f"{n}({', '.join(xs)})"
    if a[0] == "var":
        return str(a[1])
    return str(a[1])[:60]


def describe(f):
    """the region, readable"""
    out = []
    for t, iv in f.iv.items():
        n = _poly(t[2]) if t[:2] == ("fn", "lin") else show(t, 60)
        if iv.point():
            out.append(f"{n} = {iv.lo:g}")
        else:
            lo = "" if iv.lo == float("-inf") else f"{iv.lo:g} {'<' if iv.loo else '<='} "
            hi = "" if iv.hi == float("inf") else f" {'<' if iv.hio else '<='} {iv.hi:g}"
            out.append(f"{lo}{n}{hi}")
    for (a, b), o in f.pair.items():
        out.append(f"{_sh(a)} {o} {_sh(b)}")
    for p, v in f.preds.items():
        if p[0] == "pred":
            out.append(("" if v else "not ") + show(p, 60))
    return "; ".join(out) or "always"


def _sh(t):
    return _poly(t[2]) if t[:2] == ("fn", "lin") else show(t, 60)


def show(t, n=170):
    return T.show(_strip(t))[:n] if isinstance(t, tuple) else str(t)


def _strip(t):
    if not isinstance(t, tuple):
        return t
    return tuple(_strip(x) for x in t if not (isinstance(x, tuple) and x[:1] == ("line",)))
