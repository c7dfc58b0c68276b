"""Emitted node trees mean what the arena says: addresses, constants, terminators, statement order, interning."""
from __future__ import annotations

import ast
import math

from .. import core, cyconst, opaque as O, real
from .. import terms as T
from ..veval import Bi, Fn, Mod, Obj, OpC, PList, RAISE, Unsupported
from . import fold, rmw

EMI = rmw.EMI
BLK = "sonolus/backend/blocks.py"
CTX = "sonolus/script/internal/context.py"
REQ = ("_intern_fn", "_emit_value", "_emit_numeric", "_emit_get", "_emit_set", "_emit_fused_rmw", "_terminator_node", "_flatten_left_spine")


class Emit(O.OEval):
    """Walks an _Emitter method; nodes become Obj("node"/"leaf"/"val") values that can be interpreted."""

    def __init__(self, mod, cls, names, stop=("_emit_value", "_emit_numeric"), attrs=None, start=None):
        self.stop, self.fixed = set(stop), attrs or {}
        super().__init__(mod, names, hooks={"call": self.on_call, "attr": self.on_attr}, self_cls=cls)
        self.byid = {i: n for i, (n, *_x) in enumerate(fold.op_table())}
        self.start = start

    def on_attr(self, ev, v, attr, st):
        key = (attr, O.tm(v)) if not isinstance(v, Obj) or "term" in v.attrs else None
        if key in self.fixed:
            return self.fixed[key]
        if isinstance(v, Obj) and v.kind == "node":
            return {"func": OpC(v.attrs["op"]), "args": PList(v.attrs["args"])}.get(attr, NotImplemented)
        return NotImplemented

    def on_call(self, ev, f, a, kw, st, c, k, e):
        name = f.node.name if isinstance(f, Fn) and hasattr(f.node, "name") else f.name if isinstance(f, Bi) else None
        if name is None:
            t = O.tm(f)
            name = t[1][2:] if t[0] == "var" and str(t[1]).startswith("g:") else None
        if name == "_intern_fn" and "_intern_fn" in (self.stop | {"_intern_fn"}) and self.start != "_intern_fn":
            return k(self.node(a[-2], a[-1], e), st)
        if name in ("_int_leaf", "_float_leaf") and self.start != name:
            return k(Obj("leaf", term=O.tm(a[-1]), form=name[1:4]), st)
        if name in self.stop and name in ("_emit_numeric", "_leaf_cond"):
            return k(Obj("leaf", term=O.tm(a[-1]), form="num"), st)
        if name in self.stop and name == "_emit_value":
            return k(Obj("val", term=("fn", "val", O.tm(a[-1]))), st)
        name = name.replace("c.", "") if name else name
        if name in ("isfinite", "isnan", "isinf") and isinstance(a[0], (int, float)):
            return k(getattr(math, name)(a[0]), st)
        if name == "type" and len(a) == 1:
            v = a[0]
            if isinstance(v, Obj) and v.kind == "node":
                return k(Bi("FunctionNode"), st)
            if isinstance(v, bool):
                return k(Bi("bool"), st)
            if isinstance(v, (int, float)):
                return k(Bi(type(v).__name__), st)
            if isinstance(v, Obj) and v.kind in ("val", "leaf"):
                return k(Bi("int" if v.kind == "leaf" else "node?"), st)
        if name == "is_integer":
            return NotImplemented
        return NotImplemented

    def node(self, op, kids, e):
        if isinstance(op, OpC):
            n = op.name
        else:
            t = O.tm(op)
            n = None
            if t[:2] == ("fn", "[]") and t[2] in (T.var("g:_ID_TO_OP"), ("str", "table")) and T.is_num(t[3]):
                n = self.byid.get(int(T.numval(t[3])))
            if n is None and t[0] == "str" and t[1].startswith("Op."):
                n = t[1][3:]
            if n is None:
                raise Unsupported(e, f"operator of a node: {T.show(t)}")
        if not isinstance(kids, PList) or any(O._map(x) for x in kids.items):
            raise Unsupported(e, "children of a node")
        return Obj("node", op=n, args=list(kids.items))

    def compare(self, op, a, b, e):
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a, Bi):
            n = b.name if isinstance(b, Bi) else O.tm(b)[1].replace("g:", "") if O.tm(b)[0] == "var" else b.attrs.get("name") if isinstance(b, Obj) else None
            r = a.name == n
            return (not r) if isinstance(op, ast.IsNot) else r
        if isinstance(a, OpC) and isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(b, OpC):
            return (a == b) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None) and isinstance(b if a is None else a, Obj):
            return isinstance(op, ast.IsNot)
        return super().compare(op, a, b, e)

    def glob(self, name, mod, node=None):
        if name == "_ID_TO_OP":
            return ("str", "table")
        return super().glob(name, mod, node)


class NodeMeaning:
    def __init__(self, M):
        self.M = M

    def term(self, x):
        """plain value of a child (leaf or value); nested nodes are interpreted"""
        if isinstance(x, Obj) and x.kind in ("leaf", "val"):
            return x.attrs["term"]
        if isinstance(x, Obj) and x.kind == "node":
            r = self.run(x)
            if r[:2] == ("undef", "out") and not r[3]:
                return r[2]
            raise Unsupported(None, f"effect or branch inside an operand ({x.attrs['op']})")
        raise Unsupported(None, f"not a node: {O.tm(x)}")

    def run(self, x):
        if x.kind != "node":
            return ("undef", "out", x.attrs["term"], (), ())
        return self.M.run(x.attrs["op"], [self.term(a) for a in x.attrs["args"]])


def setup():
    mod = Mod(EMI, core.cytree(EMI))
    cls = mod.classes.get("_Emitter")
    if cls is None:
        raise core.Vanished("class _Emitter in emit.pyx")
    ms = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef)}
    for r in REQ:
        if r not in ms:
            raise core.Vanished(f"_Emitter.{r}")
    return mod, cls, ms


def run(rep):
    rep.files |= {EMI, fold.INT, BLK, CTX}
    mod, cls, ms = setup()
    C = dict(cyconst.enums())
    M = rmw.Memory()
    NM = NodeMeaning(M)
    addresses(rep, mod, cls, ms, C, NM)
    constants(rep, mod, cls, ms, C)
    spine(rep, mod, cls, ms, C, M)
    terminators(rep, mod, cls, ms, C, NM)
    assembly(rep, mod, cls, ms, C)


def addresses(rep, mod, cls, ms, C, NM):
    rep.rule("EMIT-ADDR", "an emitted read, store or fused update addresses (block, index + offset) of its place and stores its own operand")
    f = T.var("self")
    func = ("fn", ".func", f)
    names = [n for n, *_ in fold.op_table()]

    def place_env(ev, pid):
        return {"self": ev.me(), "pid": pid}

    def alternatives(ev, pid):
        X = lambda t: ev.expr(t, place_env(ev, pid))
        B = lambda t: ev.cond(t, place_env(ev, pid))
        P = "self.func.places[pid]"
        blocks = [(B(f"{P}.kind == PLACE_REAL_BLOCK"), O.tm(X(f"{P}.block_ref"))),
                  (B(f"{P}.kind == PLACE_DYNAMIC_BLOCK"), ("fn", "val", O.tm(X(f"{P}.block_ref"))))]
        iv, off = O.tm(X(f"{P}.index_val")), O.tm(X(f"{P}.offset"))
        neg = B(f"{P}.index_val < 0")
        mulc = B(f"self.func.instrs[{P}.index_val].op == OP_Multiply and self.func.instrs[{P}.index_val].nargs == 2")
        a = [O.tm(X(f"self.func.args[self.func.instrs[{P}.index_val].arg_start + {k}]")) for k in (0, 1)]
        val = ("fn", "val", iv)
        mul = T.mul(("fn", "val", a[0]), ("fn", "val", a[1]))
        off0 = B(f"{P}.offset == 0")
        idx = [(neg, off)]
        for cond, v in ((True, val), (mulc, mul)):
            c1 = T.band(T.bnot(neg), cond) if cond is not True else T.bnot(neg)
            idx.append((c1, T.add(v, off)))
            idx.append((T.band(c1, off0), v))
        return blocks, idx

    def match(got, blocks, idx, mk):
        """condition under which the interpreted node equals one of the correct alternatives"""
        ok = False
        for bc, b in blocks:
            for ic, i in idx:
                w = mk(b, i)
                if rmw.same_leaf(got, w):
                    ok = T.bor(ok, T.band(bc, ic))
        return ok

    def one(name, args, pid, mk, fixed=None, allow_raise=True):
        ev = Emit(mod, cls, C, attrs=fixed)
        try:
            tree = ev.paths(Fn(ms[name], mod, None, ev.me()), args)
            blocks, idx = alternatives(ev, pid)
            vals = {}
            for i, l in enumerate(ev.leaves):
                if l.kind != "ret":
                    continue
                if not (isinstance(l.value, Obj) and l.value.kind == "node"):
                    raise Unsupported(ms[name], "result is not a node")
                vals[i] = NM.run(l.value)
        except (Unsupported, T.Limit) as e:
            rep.undecided("EMIT-ADDR", f"{name}: {e}")
            return
        shown = {}

        def obligation(i):
            if i not in vals:
                return True
            g = vals[i]
            shown[i] = g
            if any(x == RAISE for x in O.tree_leaves(g)) and g[0] == "ite":
                pass
            return tree_match(g, blocks, idx, mk)
        try:
            n, bad = O.implied(tree, obligation)
        except T.Limit as e:
            rep.undecided("EMIT-ADDR", f"{name}: {e}")
            return
        rep.did("EMIT-ADDR", f"{name}{'' if fixed is None else ' ' + str(list(fixed.values())[:1])}: {len(ev.leaves)} paths, {n} regions")
        if bad:
            nd = ev.leaves[bad[0]].value
            rep.find("EMIT-ADDR", EMI, ms[name].lineno, f"_Emitter.{name}",
                     f"emits {nd.attrs['op']} whose address or operands are not those of the place ({clean(rmw.show(first(vals[bad[0]])))[:260]})", key=f"{name}/{nd.attrs['op']}")

    def tree_match(g, blocks, idx, mk):
        # the operator's own case analysis (e.g. division by zero) is common to both sides
        cond = False
        for bc, b in blocks:
            for ic, i in idx:
                w = mk(b, i)
                try:
                    if g == w or rmw.compare(strip(g), strip(w)) is None:
                        cond = T.bor(cond, T.band(bc, ic))
                except T.Limit:
                    pass
        return cond

    def strip(t):
        return O.tree_map(t, lambda v: v[:4] if v[:2] == ("undef", "out") else v)

    pid = T.var("pid")
    one("_emit_get", [pid], pid, lambda b, i: ("undef", "out", rmw.mem(b, i), ()))
    vid = T.var("vid")
    instr = ("fn", "[]", ("fn", ".instrs", func), vid)
    aux = ("fn", ".aux", instr)
    arg0 = ("fn", "[]", ("fn", ".args", func), ("fn", ".arg_start", instr))
    val = ("fn", "val", arg0)
    one("_emit_set", [vid], aux, lambda b, i: ("undef", "out", val, ((b, i, val),)))
    ops = rmw.binop_terms(NM.M.mod)
    for n in names:
        d = rmw.decode(n)
        if d is None or d[0] == "get" or d[3] is not None or (d[0] == "set" and d[1] is None):
            continue
        nargs = 1 if d[0] == "set" else 0

        def mk(b, i, n=n, d=d):
            old = rmw.mem(b, i)
            t = ops(d[1], old, T.num(1.0) if d[0] == "inc" else val)
            return O.tree_map(t, lambda v: v if v == RAISE else ("undef", "out", old if d[2] == "Pre" else v, ((b, i, v),)))
        one("_emit_fused_rmw", [vid, C["OP_" + n]], aux, mk, fixed={("nargs", instr): nargs})
    rep.need("EMIT-ADDR", 10)
    # dispatch of statements
    rep.rule("EMIT-STMT", "stores, fused updates and other effects are emitted by their own emitter")
    if "_emit_stmt" in ms:
        ev = O.OEval(mod, C, opaque={"_emit_set", "_emit_fused_rmw", "_emit_value"}, pure={"_emit_set", "_emit_fused_rmw", "_emit_value"}, self_cls=cls)
        try:
            tree = ev.paths(Fn(ms["_emit_stmt"], mod, None, ev.me()), [T.var("i")])
            ins = ("fn", "[]", ("fn", ".instrs", func), T.var("i"))
            isset = T.cmp("eq", ("fn", ".op", ins), T.num(C["OPX_SET"]))
            fused = T.band(T.cmp("lt", ("fn", ".op", ins), T.num(C["OP_RUNTIME_COUNT"])), T.cmp("ge", ("fn", ".aux", ins), T.num(0.0)))
            want = {"_emit_set()": isset, "_emit_fused_rmw()": T.band(T.bnot(isset), fused), "_emit_value()": T.band(T.bnot(isset), T.bnot(fused))}

            def ob(i):
                v = O.tm(ev.leaves[i].value)
                return want.get(v[1] if v[0] == "fn" else None, False) if T.var("i") in v else False
            n, bad = O.implied(tree, ob)
            rep.did("EMIT-STMT", f"_emit_stmt: {n} regions")
            if bad:
                rep.find("EMIT-STMT", EMI, ms["_emit_stmt"].lineno, "_Emitter._emit_stmt", f"a statement is emitted by the wrong emitter: {T.show(O.tm(ev.leaves[bad[0]].value))[:80]}")
        except (Unsupported, T.Limit) as e:
            rep.undecided("EMIT-STMT", e)


def first(t):
    return next((x for x in O.tree_leaves(t) if x != RAISE), t)


def clean(s):
    return s.replace("'", "")


def constants(rep, mod, cls, ms, C):
    rep.rule("EMIT-CONST", "a constant is emitted as its own value; NaN and the infinities read the read-only memory cells that hold them")
    # read-only memory layout
    rom = None
    t = core.pytree(CTX)
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef) and n.name == "ReadOnlyMemory":
            for m in ast.walk(n):
                if isinstance(m, (ast.Assign, ast.AnnAssign)) and isinstance(m.value, ast.List) and m.value.elts:
                    vals = []
                    for e in m.value.elts:
                        s = ast.unparse(e).replace("'", "").replace('"', "").replace(" ", "")
                        vals.append({"float(nan)": "nan", "math.nan": "nan", "nan": "nan", "float(inf)": "inf", "math.inf": "inf", "inf": "inf",
                                     "float(-inf)": "-inf", "-math.inf": "-inf", "-inf": "-inf"}.get(s, s))
                    rom = (vals, m.lineno)
    if rom is None:
        rep.undecided("EMIT-CONST", "initial contents of ReadOnlyMemory")
        return
    ids = set()
    for n in ast.walk(core.pytree(BLK)):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "EngineRom" and isinstance(n.value, ast.Tuple):
            ids.add(n.value.elts[0].value)
    ev = Emit(mod, cls, C, stop=(), start="_emit_numeric")
    v = T.var("v")
    seen = {}

    def on(ev_, f, a, kw, st, c, k, e):
        t = O.tm(f)
        if t[:2] == ("fn", ".is_integer"):
            return k(("pred", "isint", t[2]), st)
        return ev.on_call(ev_, f, a, kw, st, c, k, e)
    ev.hooks["call"] = on
    try:
        tree = ev.paths(Fn(ms["_emit_numeric"], mod, None, ev.me()), [v])
    except (Unsupported, T.Limit) as e:
        rep.undecided("EMIT-CONST", f"_emit_numeric: {e}")
        return
    nan, inf, pos, isint = ("pred", "isnan", v), ("pred", "isinf", v), T.cmp("gt", v, T.num(0.0)), ("pred", "isint", v)

    def kind(l):
        x = l.value
        if isinstance(x, Obj) and x.kind == "leaf":
            return (x.attrs["form"], x.attrs["term"])
        if isinstance(x, Obj) and x.kind == "node" and x.attrs["op"] == "Get":
            b, i = (y.attrs["term"] for y in x.attrs["args"])
            if not (T.is_num(b) and T.is_num(i)):
                i = b = None
            return ("rom", int(T.numval(b)) if b else None, int(T.numval(i)) if i else None)
        return ("?",)

    def ob(i):
        x = kind(ev.leaves[i])
        if x[0] == "rom":
            if x[1] not in ids or len(ids) != 1 or x[2] is None or not 0 <= x[2] < len(rom[0]):
                return False
            w = rom[0][x[2]]
            return {"nan": nan, "inf": T.band(T.bnot(nan), T.band(inf, pos)), "-inf": T.band(T.bnot(nan), T.band(inf, T.bnot(pos)))}.get(w, False)
        fin = T.band(T.bnot(nan), T.bnot(inf))
        if x[0] == "int":
            return T.band(fin, isint) if x[1] == v else False
        if x[0] == "flo":
            return T.band(fin, T.bnot(isint)) if x[1] == v else False
        return False
    n, bad = O.implied(tree, ob)
    rep.did("EMIT-CONST", f"_emit_numeric: {n} regions, rom {rom[0]} in block {sorted(ids)}")
    if bad:
        rep.find("EMIT-CONST", EMI, ms["_emit_numeric"].lineno, "_Emitter._emit_numeric",
                 f"emits {kind(ev.leaves[bad[0]])} when {clean(bad[1])[:200]} (read-only memory starts with {rom[0]})")
    # interning keeps distinct nodes apart
    rep.rule("EMIT-CONS", "interned nodes are shared only when operator and every child are the same object; int and float leaves never mix")
    intern(rep, mod, cls, ms, C)


def intern(rep, mod, cls, ms, C):
    for name in ("_int_leaf", "_float_leaf"):
        if name not in ms:
            return rep.undecided("EMIT-CONS", f"{name} is gone")
    tabs = {}
    for name in ("_int_leaf", "_float_leaf"):
        ev = O.OEval(mod, C, self_cls=cls)
        try:
            ev.paths(Fn(ms[name], mod, None, ev.me()), [T.var("v")])
        except (Unsupported, T.Limit) as e:
            return rep.undecided("EMIT-CONS", f"{name}: {e}")
        for l in ev.leaves:
            r = O.tm(l.value)
            for e in l.events:
                if e[0] == "store" and e[1][1] == "[]":
                    tabs.setdefault(name, set()).add(e[1][2])
                    if e[1][3] != T.var("v") or O.tm(e[2]) != T.var("v"):
                        rep.find("EMIT-CONS", EMI, e[3], name, "a leaf is stored under another key than its value", key=name)
            if r != T.var("v"):
                # a hit: must come from the same table under the same key
                if not (r[0] == "fn" and r[1] in (".get()", "[]") and r[2] in tabs.get(name, {r[2]}) and r[3] == T.var("v")) and not mentions_get(r):
                    rep.find("EMIT-CONS", EMI, ms[name].lineno, name, f"returns {T.show(r)[:80]} for a leaf", key=name + "/hit")
        rep.did("EMIT-CONS", f"{name}: {len(ev.leaves)} paths")
    if tabs.get("_int_leaf", set()) & tabs.get("_float_leaf", set()):
        rep.find("EMIT-CONS", EMI, ms["_float_leaf"].lineno, "_float_leaf", "int and float leaves share one table, so 5 and 5.0 are merged")
    ev = O.OEval(mod, C, self_cls=cls, pure={"FunctionNode", "id"})
    try:
        tree = ev.paths(Fn(ms["_intern_fn"], mod, None, ev.me()), [T.var("op"), T.var("kids")])
    except (Unsupported, T.Limit) as e:
        return rep.undecided("EMIT-CONS", f"_intern_fn: {e}")
    new = False
    for l in ev.leaves:
        for e in l.events:
            if e[0] == "store" and e[1][1] == "[]":
                key, val = e[1][3], O.tm(e[2])
                new = True
                ids = [x for x in walk(key) if x[:2] == ("fn", "id")]
                whole = [x for x in walk(key) if x[:2] in (("fn", "map"), ("fn", "elem"))]
                has_op = any(x[2] == T.var("op") for x in ids) or T.var("op") in list(walk(key))
                over = [x for x in walk(key) if x[0] == "fn" and x[1] in ("map", "mapg")]
                full = any(x[2] == ("iter", T.var("kids")) and x[3] != ("none",) and not gated(x[3]) for x in over)
                if not has_op:
                    rep.find("EMIT-CONS", EMI, e[3], "_intern_fn", "the interning key does not contain the operator")
                if over and not full:
                    rep.find("EMIT-CONS", EMI, e[3], "_intern_fn", "the interning key does not contain every child")
                if not over and T.var("kids") not in list(walk(key)):
                    rep.find("EMIT-CONS", EMI, e[3], "_intern_fn", "the interning key does not contain the children")
                if not (val[:2] == ("fn", "FunctionNode()") and val[2] == T.var("op") and any(x == T.var("kids") for x in walk(val[3]))):
                    rep.find("EMIT-CONS", EMI, e[3], "_intern_fn", f"the interned node is not FunctionNode(op, children): {T.show(val)[:80]}")
    rep.did("EMIT-CONS", f"_intern_fn: {len(ev.leaves)} paths")
    if not new:
        rep.undecided("EMIT-CONS", "no interning store")


def gated(t):
    return isinstance(t, tuple) and t[:1] == ("ite",)


def mentions_get(r):
    return any(x[:1] == ("fn",) and x[1] in (".get()", "[]") for x in walk(r))


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


def spine(rep, mod, cls, ms, C, M):
    rep.rule("EMIT-SPINE", "left spines are flattened only for operators the interpreter evaluates as a left fold")
    names = [n for n, *_ in fold.op_table()]
    if "_is_flattenable" not in mod.funcs:
        return rep.undecided("EMIT-SPINE", "_is_flattenable is gone")
    flat = []
    for i, n in enumerate(names):
        ev = O.OEval(mod, C)
        try:
            ev.paths(Fn(mod.funcs["_is_flattenable"], mod), [i])
            r = {l.value for l in ev.leaves}
        except (Unsupported, T.Limit) as e:
            rep.undecided("EMIT-SPINE", f"_is_flattenable[{n}]: {e}")
            continue
        rep.did("EMIT-SPINE", None)
        e2 = table_nary(M, n)
        if r != {False} and e2:
            rep.find("EMIT-SPINE", EMI, mod.funcs["_is_flattenable"].lineno, n, f"flattened although {e2}", key=n)
        elif r != {False}:
            flat.append(n)
    a = [T.var(f"a{i}") for i in range(4)]
    for n in flat:
        # op(op(a, b), c) and op(a, b, c)
        from .nums import _subst
        try:
            t2 = fold.interp_side(M.mod, n, 2)
            t3 = fold.interp_side(M.mod, n, 3)
            _subst(t2, {}), _subst(t3, {})
        except (Unsupported, T.Limit, AttributeError, TypeError, ValueError) as e:
            rep.undecided("EMIT-SPINE", f"{n}: {e}")
            continue
        if t3 == RAISE or t2 == RAISE or any(isinstance(x, tuple) and x[:1] == ("undef",) for x in (t2, t3)):
            rep.find("EMIT-SPINE", EMI, mod.funcs["_is_flattenable"].lineno, n, "flattened although the interpreter does not accept three operands", key=n)
            continue

        def bind(v):
            return v if v == RAISE else _subst(t2, {T.var("a0"): v, T.var("a1"): T.var("a2")})
        nested = O.tree_map(t2, bind)
        try:
            bad = T.expand(nested, t3, lambda x, y, f: None if x == y or rmw.eqt(x, y, f) and x != RAISE and y != RAISE else "differs")[1]
        except T.Limit as e:
            rep.undecided("EMIT-SPINE", f"{n}: {e}")
            continue
        rep.did("EMIT-SPINE", n)
        if bad:
            rep.find("EMIT-SPINE", EMI, mod.funcs["_is_flattenable"].lineno, n, f"{n}({n}(a, b), c) is flattened to {n}(a, b, c), which the interpreter evaluates differently", key=n)
    # the splice itself
    ev = Emit(mod, cls, C)
    u, v, w, z = (Obj("val", term=T.var(x)) for x in "uvwz")
    for op1 in ("Add", "Multiply", "Subtract"):
        for op2 in ("Add", "Multiply"):
            rkids = PList([w, Obj("node", op=op1, args=[u, v])])
            ev = Emit(mod, cls, C)
            try:
                ev.paths(Fn(ms["_flatten_left_spine"], mod, None, ev.me()), [OpC(op2), True, rkids])
                for l in ev.leaves:
                    rep.did("EMIT-SPINE", f"right operand {op2}(w, {op1}(..))")
                    if l.kind == "ret" and shape(l.value) != (op2, ("w", (op1, ("u", "v")))):
                        rep.find("EMIT-SPINE", EMI, ms["_flatten_left_spine"].lineno, "_flatten_left_spine", f"{op2}(w, {op1}(u, v)) becomes {shape(l.value)}", key=f"r{op1}/{op2}")
            except (Unsupported, T.Limit) as e:
                rep.undecided("EMIT-SPINE", f"_flatten_left_spine: {e}")
            for fl in (True, False):
                kids = PList([Obj("node", op=op1, args=[u, v]), w, z])
                ev = Emit(mod, cls, C)
                try:
                    ev.paths(Fn(ms["_flatten_left_spine"], mod, None, ev.me()), [OpC(op2), fl, kids])
                except (Unsupported, T.Limit) as e:
                    rep.undecided("EMIT-SPINE", f"_flatten_left_spine: {e}")
                    continue
                for l in ev.leaves:
                    if l.kind != "ret":
                        continue
                    got = shape(l.value)
                    ok = {(op2, ((op1, ("u", "v")), "w", "z"))}
                    if op1 == op2:
                        ok.add((op2, ("u", "v", "w", "z")))
                    if fl is False:
                        ok = {(op2, ((op1, ("u", "v")), "w", "z"))}
                    if got not in ok:
                        rep.find("EMIT-SPINE", EMI, ms["_flatten_left_spine"].lineno, "_flatten_left_spine", f"{op2}({op1}(u, v), w, z) becomes {got}", key=f"{op1}/{op2}/{fl}")
                rep.did("EMIT-SPINE", f"splice {op2}({op1}(..)) flattenable={fl}")


def table_nary(M, n):
    """why the interpreter's handling of n is not a fold over any number of arguments (None when it may be)"""
    try:
        t = fold.interp_side(M.mod, n, 3)
    except Exception as e:  # noqa: BLE001 - any operator may have a handler this cannot follow
        return f"its evaluation on three operands cannot be followed ({type(e).__name__})" if n not in ("Add", "Multiply", "Mod", "Rem") else None
    a = T.var("a2")
    return None if any(x == a for x in walk(t)) else "the interpreter ignores a third operand"


def shape(x):
    if x.kind == "node":
        return (x.attrs["op"], tuple(shape(a) for a in x.attrs["args"]))
    t = x.attrs["term"]
    return t[1] if t[0] == "var" else T.show(t)


N = None
SHAPES = [
    [], [N], [0, N], [1, N], [5, N], [2.5, N], [-1, N], [0], [1], [3], [0, 1], [0, 1, N], [0, 2, N], [0, 3, N], [0, 1, 2, N], [0, 1, 2], [1, 2, N], [1, 2],
    [0, 2], [0, 3], [0, 5, N], [0, 1, 4, N], [0, 1, 5, N], [0, 1, 6, N], [-1, 0, N], [-1, 0, 1, N], [0, 0.5, N], [0, 1, 1.5, N], [0, 1, 2, 3, 7, N], [0, 1, 2, 3, 8, N],
    [0, 1, 2, 3, 9, N], [2, 3, 4, N], [0, 1, 1000000, N], [0, math.inf, N], [-math.inf, 0, N], [0.25, 0.75, N], [0, 1, 2, 4, 5, 6, N], [10, 20, 30, N], [0, 1, 2, 3], [0.0, 1.0, N],
]


def terminators(rep, mod, cls, ms, C, NM):
    rep.rule("EMIT-TERM", "the emitted terminator sends every test value to the edge whose condition it equals, else to the default edge or the exit")
    test, exit_ = T.var("test"), T.var("exit")
    for shp in SHAPES:
        label = "{" + ", ".join("default" if c is None else repr(c) for c in shp) + "}"
        tgt = {c: T.var("t_" + ("none" if c is None else str(i))) for i, c in enumerate(shp)}
        d = O.PDict([(c, tgt[c]) for c in shp])
        bid = T.var("bid")
        blk = ("fn", "[]", ("fn", ".blocks", ("fn", ".func", T.var("self"))), bid)
        ev = Emit(mod, cls, C, stop=("_emit_value", "_emit_numeric", "_leaf_cond"))
        try:
            tree = ev.paths(Fn(ms["_terminator_node"], mod, None, ev.me()), [bid, d, exit_])
            got = O.tree_map(tree, lambda l: meaning(NM, ev.leaves[l[1]]) if l[0] == "leaf" else RAISE)
        except (Unsupported, T.Limit) as e:
            rep.undecided("EMIT-TERM", f"{label}: {e}")
            continue
        tv = ("fn", "val", ("fn", ".test_val", blk))
        got = real.subst(got, {tv: test})
        want = tgt.get(None, exit_)
        for c in reversed([c for c in shp if c is not None]):
            want = T.ite(T.cmp("eq", test, T.num(float(c))), tgt[c], want)
        try:
            bad = T.expand(got, want, lambda a, b, f: None if a == b else f"goes to {T.show(a) if a[0] != 'undef' else a} instead of {T.show(b)}")[1]
        except T.Limit as e:
            rep.undecided("EMIT-TERM", f"{label}: {e}")
            continue
        rep.did("EMIT-TERM", f"edges {label}")
        if bad:
            rep.find("EMIT-TERM", EMI, ms["_terminator_node"].lineno, f"terminator of a block with edges {label}", f"a test value {bad[0]} when {clean(bad[1])[:160]}", key=label)
    rep.need("EMIT-TERM", 30)
    # how the edge table is built
    rep.rule("EMIT-EDGES", "the table of edges pairs each edge's own condition with its own mapped target")
    if "_emit_terminator" not in ms:
        return rep.undecided("EMIT-EDGES", "_emit_terminator is gone")
    ev = O.OEval(mod, C, opaque={"_terminator_node"}, self_cls=cls)
    try:
        ev.paths(Fn(ms["_emit_terminator"], mod, None, ev.me()), [T.var("bid")])
        loops = [e for l in ev.leaves for e in l.events if e[0] == "loop"]
    except (Unsupported, T.Limit) as e:
        return rep.undecided("EMIT-EDGES", e)
    if len(loops) != 1 or loops[0][1][0] != "range":
        return rep.undecided("EMIT-EDGES", f"{len(loops)} loops build the edge table")
    _l, desc, tree, _s, line = loops[0]
    env = {"self": ev.me(), "bid": T.var("bid"), "e": T.var("%0")}
    X = lambda t: ev.expr(t, env)
    lo, hi = X("self.func.blocks[bid].edge_start"), X("self.func.blocks[bid].edge_start + self.func.blocks[bid].edge_count")
    if desc[1] != lo or not real.same(desc[2], hi) or desc[3] != T.num(1):
        rep.find("EMIT-EDGES", EMI, line, "_emit_terminator", f"the edges visited are {T.show(desc[1])}..{T.show(desc[2])}, not the block's own")
    dst = X("self._block_map[self.func.edges[e].dst]")
    none = ev.cond("self.func.edges[e].cond_kind == EDGE_COND_NONE", env)
    cond, isint = X("self.func.edges[e].cond"), X("self.func.edges[e].cond_is_int")
    bad = []

    def go(t, pc):
        if t[0] == "ite":
            go(t[2], [*pc, (t[1], True)])
            go(t[3], [*pc, (t[1], False)])
        elif t[0] == "evs":
            st = [e for e in t[2] if e[0] == "store" and e[1][1] == "[]"]
            if len(st) != 1:
                bad.append("an edge is entered into the table %d times" % len(st))
                return
            key, v = st[0][1][3], O.tm(st[0][2])
            if v != dst:
                bad.append(f"the target recorded is {T.show(v)[:80]}")
            isnone = next((p for c, p in pc if c == none), None)
            if isnone is None:
                neg = T.cmp("eq", *[x for x in none[2:]]) if False else None
            if key == ("none",):
                if isnone is not True:
                    bad.append("an edge with a condition is recorded as the default")
            elif isnone is not False:
                bad.append("the default edge is recorded under a condition")
            elif key not in (cond, ("fn", "int", cond)) and real.subst(key, {}) != cond:
                bad.append(f"the condition recorded is {T.show(key)[:80]}")
    go(tree, [])
    rep.did("EMIT-EDGES", f"edge table loop at line {line}")
    for b in bad[:1]:
        rep.find("EMIT-EDGES", EMI, line, "_emit_terminator", b)


def meaning(NM, leaf):
    return NM_term(NM, leaf.value) if leaf.kind == "ret" else RAISE


def NM_term(NM, a):
    if a.kind == "node":
        return fold.interp_side(NM.M.mod, a.attrs["op"], len(a.attrs["args"]), [NM_term(NM, x) for x in a.attrs["args"]])
    return a.attrs["term"]


def assembly(rep, mod, cls, ms, C):
    rep.rule("EMIT-BLOCK", "a block emits its statement roots in order and then its terminator; a block is left out only when it does nothing and halts")
    if "_compute_block_map" not in ms or "_emit_block" not in ms:
        return rep.undecided("EMIT-BLOCK", "_compute_block_map or _emit_block is gone")
    # which blocks are elided
    ev = O.OEval(mod, C, self_cls=cls)
    try:
        ev.paths(Fn(ms["_compute_block_map"], mod, None, ev.me()), [])
    except (Unsupported, T.Limit) as e:
        return rep.undecided("EMIT-BLOCK", e)
    loops = [e for l in ev.leaves for e in l.events if e[0] == "loop"]
    done = 0
    for _l, desc, tree, _s, line in loops:
        sites = []

        def go(t, pc):
            if t[0] == "ite":
                go(t[2], [*pc, (t[1], True)])
                go(t[3], [*pc, (t[1], False)])
            elif t[0] == "evs":
                for e in t[2]:
                    if e[0] == "store" and e[1][1] == "[]" and O.tm(e[2]) == T.num(1.0):
                        sites.append((e, pc))
        go(tree, [])
        for e, pc in sites:
            b = e[1][3]
            env = {"self": ev.me(), "b": b}
            X = lambda t: ev.expr(t, env)
            B = lambda t: ev.cond(t, env)
            need = [("it is not the entry block", B("b != self.func.entry_block")),
                    ("it has no outgoing edge", B("self.func.blocks[b].edge_count == 0")),
                    ("it has no statement", T.bnot(ev.exists(("range", O.tm(X("self.func.blocks[b].instr_start")), O.tm(X("self.func.blocks[b].instr_start + self.func.blocks[b].instr_count")), T.num(1)),
                                                             T.truth(O.tm(X("self.func.instrs[q].flags & FLAG_STMT_ROOT") if False else ev.expr("self.func.instrs[q].flags & FLAG_STMT_ROOT", {"self": ev.me(), "q": T.var("%1")})))))),]
            t = ("leaf", 0)
            for c, v in reversed(pc):
                t = T.ite(c, t, T.num(0.0)) if v else T.ite(c, T.num(0.0), t)
            for txt, nd in need:
                nd2 = rmw.weaken(nd, t) if not isinstance(nd, bool) else nd
                _n, bad = O.implied(t, lambda _i, nd2=nd2: nd2)
                done += 1
                rep.did("EMIT-BLOCK", f"elided block: {txt}")
                if bad:
                    rep.find("EMIT-BLOCK", EMI, e[3], "_compute_block_map", f"a block is left out of the emitted loop without establishing that {txt}", key=txt)
    if not done:
        rep.notes.append("no block is ever elided")
    numbering(rep, mod, cls, ms, C)
    values(rep, mod, cls, ms, C)
    # statements in order
    ev = O.OEval(mod, C, opaque={"_emit_stmt", "_emit_terminator", "_intern_fn"}, pure={"_emit_stmt", "_emit_terminator", "_intern_fn"}, self_cls=cls)
    try:
        ev.paths(Fn(ms["_emit_block"], mod, None, ev.me()), [T.var("bid")])
    except (Unsupported, T.Limit) as e:
        return rep.undecided("EMIT-BLOCK", f"_emit_block: {e}")
    for l in ev.leaves:
        v = O.tm(l.value)
        if v[:2] != ("fn", "_intern_fn()"):
            rep.undecided("EMIT-BLOCK", f"_emit_block returns {T.show(v)[:60]}")
            continue
        op, kids = v[-2], v[-1]
        rep.did("EMIT-BLOCK", "_emit_block")
        env = {"self": ev.me(), "b": T.var("bid"), "q": T.var("%0")}
        X = lambda t: ev.expr(t, env)
        if op != ("str", "Op.Execute"):
            rep.find("EMIT-BLOCK", EMI, ms["_emit_block"].lineno, "_emit_block", f"a block becomes {T.show(op)}, which does not run its statements in order and yield the last")
        if kids[0] == "list" and (len(kids) == 2 or len(kids) == 3 and kids[1][:2] == ("fn", "_emit_terminator()")):
            rep.find("EMIT-BLOCK", EMI, ms["_emit_block"].lineno, "_emit_block", "a block does not consist of its statements followed by its terminator")
            continue
        if kids[0] != "list" or len(kids) != 3:
            rep.undecided("EMIT-BLOCK", "children of a block")
            continue
        m, term = kids[1], kids[2]
        if term[:2] != ("fn", "_emit_terminator()") or T.var("bid") not in term:
            rep.find("EMIT-BLOCK", EMI, ms["_emit_block"].lineno, "_emit_block", "the last child of a block is not its terminator")
        lo, hi = O.tm(X("self.func.blocks[b].instr_start")), O.tm(X("self.func.blocks[b].instr_start + self.func.blocks[b].instr_count"))
        if m[:2] not in (("fn", "mapg"), ("fn", "map")) or m[2][0] != "range":
            rep.undecided("EMIT-BLOCK", f"statements of a block: {T.show(m)[:80]}")
            continue
        if m[2][1] != lo or not real.same(m[2][2], hi) or m[2][3] != T.num(1):
            rep.find("EMIT-BLOCK", EMI, ms["_emit_block"].lineno, "_emit_block", "the instructions visited are not the block's own, in order")
        root = T.truth(O.tm(X("self.func.instrs[q].flags & FLAG_STMT_ROOT")))
        stmt = ("fn", "_emit_stmt()", T.var("self"), T.var("%0"))

        def ob(i, root=root):
            return True
        t = m[3]
        # root -> exactly the emitted statement, otherwise nothing
        def leafcond(x):
            xs = x[1:] if x[0] == "list" else (x,)
            if len(xs) == 1 and xs[0][:2] == stmt[:2] and xs[0][-1] == stmt[-1]:
                return ("leaf", 1)
            if len(xs) == 0 or x in (("none",), ("skip",)):
                return ("leaf", 0)
            return ("leaf", 2)
        tt = O.tree_map(t, leafcond)
        _n, bad = O.implied(tt, lambda i: {1: root, 0: T.bnot(root), 2: False}[i])
        if bad:
            rep.find("EMIT-BLOCK", EMI, ms["_emit_block"].lineno, "_emit_block", "not exactly the statement roots of the block are emitted")


def numbering(rep, mod, cls, ms, C):
    rep.rule("EMIT-INDEX", "emitted blocks are numbered in the order they are emitted and every other block maps to the halt position after them")
    func = ("fn", ".func", T.var("self"))
    ev = Emit(mod, cls, C, attrs={("n_blocks", func): 3})
    try:
        ev.paths(Fn(ms["_compute_block_map"], mod, None, ev.me()), [])
        for l in ev.leaves:
            st = {("ev",): l.events}
            m, x = ev.load(("fn", "._block_map", T.var("self")), st), ev.load(("fn", "._exit_index", T.var("self")), st)
            x = int(T.numval(x)) if isinstance(x, tuple) and T.is_num(x) else x
            if x == ("fn", "._exit_index", T.var("self")):
                x = 3
            if not isinstance(m, PList) or not isinstance(x, int) or not all(isinstance(v, int) for v in m.items):
                raise Unsupported(ms["_compute_block_map"], "block map is not a list of indices")
            rep.did("EMIT-INDEX", f"{m.items} exit {x}")
            kept = [v for v in m.items if v != x]
            if kept != list(range(len(kept))) or x != len(kept):
                rep.find("EMIT-INDEX", EMI, ms["_compute_block_map"].lineno, "_compute_block_map", f"three blocks can be numbered {m.items} with halt position {x}", key=str(m.items))
    except (Unsupported, T.Limit) as e:
        rep.undecided("EMIT-INDEX", f"_compute_block_map: {e}")
    if "run" not in ms:
        return
    for mp, ex in (([0, 1, 2], 3), ([0, 2, 1], 2), ([0, 1, 1], 1), ([0, 1, 2, 3], 3)):
        ev = Emit(mod, cls, C, attrs={("n_blocks", func): len(mp), ("_block_map", T.var("self")): PList(mp), ("_exit_index", T.var("self")): ex})
        ev.opaque |= {"_emit_block", "_compute_block_map"}
        ev.pure |= {"_emit_block"}
        try:
            ev.paths(Fn(ms["run"], mod, None, ev.me()), [])
            for l in ev.leaves:
                v = l.value
                if l.kind != "ret":
                    continue
                if not any(e[0] == "call" and e[1] == "_compute_block_map" for e in l.events):
                    rep.find("EMIT-INDEX", EMI, ms["run"].lineno, "_Emitter.run", "blocks are emitted without computing their numbering")
                want = [("eb", i) for i, b in enumerate(mp) if b != ex] + [0]
                got = None
                if isinstance(v, Obj) and v.kind == "node" and v.attrs["op"] == "Block" and len(v.attrs["args"]) == 1:
                    j = v.attrs["args"][0]
                    if isinstance(j, Obj) and j.kind == "node" and j.attrs["op"] == "JumpLoop":
                        got = []
                        for x in j.attrs["args"]:
                            t = x.attrs["term"] if isinstance(x, Obj) and "term" in x.attrs else O.tm(x)
                            got.append(("eb", int(T.numval(t[-1]))) if t[:2] == ("fn", "_emit_block()") else T.numval(t) if T.is_num(t) else None)
                rep.did("EMIT-INDEX", f"run with block map {mp}")
                if got != want:
                    rep.find("EMIT-INDEX", EMI, ms["run"].lineno, "_Emitter.run", f"with block map {mp} the loop holds {got}, expected blocks {want[:-1]} and the halt value", key=f"run{mp}")
        except (Unsupported, T.Limit) as e:
            rep.undecided("EMIT-INDEX", f"run: {e}")


def values(rep, mod, cls, ms, C):
    rep.rule("EMIT-VALUE", "a value is emitted from its own instruction: constant, read, or operator over all its operands in order")
    self_ = T.var("self")
    func = ("fn", ".func", self_)
    vid = T.var("vid")
    ins = ("fn", "[]", ("fn", ".instrs", func), vid)
    op = ("fn", ".op", ins)
    subs = {"_emit_numeric", "_emit_get", "_emit_op"}
    ev = O.OEval(mod, C, opaque=subs, pure=subs, self_cls=cls)
    try:
        tree = ev.paths(Fn(ms["_emit_value"], mod, None, ev.me()), [vid])
        isc, isg, iss = (T.cmp("eq", op, T.num(C[x])) for x in ("OPX_CONST", "OPX_GET", "OPX_SET"))
        cst = ("fn", "[]", ("fn", ".consts", func), ("fn", ".aux", ins))
        want = {("fn", "_emit_numeric()", cst): isc, ("fn", "_emit_get()", ("fn", ".aux", ins)): isg,
                ("fn", "_emit_op()", vid, op): T.band(T.bnot(isc), T.band(T.bnot(isg), T.bnot(iss)))}
        hit = []

        def ob(i):
            l = ev.leaves[i]
            v = O.tm(l.value)
            if l.kind == "raise":
                return iss
            for e in l.events:
                if e[0] == "store" and e[1][:3] == ("fn", "[]", ("fn", "._val_cache", self_)) and (e[1][3] != vid or O.tm(e[2]) != v):
                    return False
            if v[0] == "fn" and v[1] in (".get()", "[]") and v[2] == ("fn", "._val_cache", self_) and v[3] == vid:
                c = ("pred", "isnone", v) if v[1] == ".get()" else ("pred", "in", vid, v[2])
                return T.bnot(c) if v[1] == ".get()" else c
            hit.append(v)
            return want.get(v, False)
        n, bad = O.implied(tree, ob)
        rep.did("EMIT-VALUE", f"_emit_value: {n} regions")
        if bad:
            rep.find("EMIT-VALUE", EMI, ms["_emit_value"].lineno, "_emit_value", f"yields {clean(T.show(O.tm(ev.leaves[bad[0]].value)))[:100]} for an instruction of another kind or value")
    except (Unsupported, T.Limit) as e:
        rep.undecided("EMIT-VALUE", f"_emit_value: {e}")
    if "_emit_op" not in ms:
        return
    pure = {"_emit_value", "_is_flattenable", "_flatten_left_spine"}
    ev = O.OEval(mod, C, opaque=pure, pure=pure, self_cls=cls)
    try:
        ev.paths(Fn(ms["_emit_op"], mod, None, ev.me()), [vid, T.var("op")])
        for l in ev.leaves:
            v = O.tm(l.value)
            if v[:2] != ("fn", "_flatten_left_spine()"):
                rep.undecided("EMIT-VALUE", f"_emit_op yields {T.show(v)[:60]}")
                continue
            rep.did("EMIT-VALUE", "_emit_op")
            want_op = ("fn", "[]", T.var("g:_ID_TO_OP"), T.var("op"))
            if not (v[2][:2] == ("fn", "[]") and v[2][3] == T.var("op")):
                rep.find("EMIT-VALUE", EMI, ms["_emit_op"].lineno, "_emit_op", f"the operator emitted is {T.show(v[2])[:80]}")
            if v[3] != ("fn", "_is_flattenable()", T.var("op")) and v[3] != T.num(0.0):
                rep.find("EMIT-VALUE", EMI, ms["_emit_op"].lineno, "_emit_op", "flattening is not decided by the operator itself")
            kids = v[4]
            lo, n = ("fn", ".arg_start", ins), ("fn", ".nargs", ins)
            ok = kids[0] == "list" and len(kids) == 2 and kids[1][:2] == ("fn", "map") and kids[1][2] == ("range", T.num(0.0), n, T.num(1.0))
            if ok:
                b = kids[1][3]
                b = b[1] if b[0] == "list" and len(b) == 2 else b
                ok = b[:2] == ("fn", "_emit_value()") and real.same(b[2][3], T.add(lo, T.var("%0"))) and b[2][2] == ("fn", ".args", func)
            elif kids[0] == "list" and len(kids) == 2 and kids[1][:2] in (("fn", "map"), ("fn", "mapg")) and kids[1][2][0] != "range":
                rep.undecided("EMIT-VALUE", "operands of _emit_op")
                continue
            if not ok:
                rep.find("EMIT-VALUE", EMI, ms["_emit_op"].lineno, "_emit_op", "the operands emitted are not all operands of the instruction, in order")
    except (Unsupported, T.Limit) as e:
        rep.undecided("EMIT-VALUE", f"_emit_op: {e}")
