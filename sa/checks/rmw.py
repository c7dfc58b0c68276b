"""Fused read-modify-write operators: what each computes, which one replaces what, and under which conditions."""
from __future__ import annotations

import re

from .. import core, cyconst, opaque as O, real
from .. import terms as T
from ..veval import Bi, Evaluator, Fn, Mod, Obj, OpC, PList, RAISE, Unsupported
from . import fold

LOW = "sonolus/backend/_opt/lower.pyx"
MID = "sonolus/backend/_opt/midend.pyx"
EMI = "sonolus/backend/_opt/emit.pyx"
FAM = re.compile(r"^(?:(Get)|(Set)(Add|Subtract|Multiply|Divide|Mod|Rem|Power)?|(Increment|Decrement)(Pre|Post))(Pointed|Shifted)?$")
BINOPS = ("Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power")
NADDR = {None: 2, "Pointed": 3, "Shifted": 4}


def decode(name):
    """(kind, binop, post, addressing) of a memory operator, None for other operators"""
    m = FAM.match(name)
    if not m:
        return None
    get, set_, binop, inc, prepost, suf = m.groups()
    if get:
        return ("get", None, None, suf)
    if set_:
        return ("set", binop, None, suf)
    return ("inc", "Add" if inc == "Increment" else "Subtract", prepost, suf)


def address(suf, a, mem):
    if suf is None:
        return a[0], a[1]
    if suf == "Pointed":
        return mem(a[0], a[1]), T.add(mem(a[0], T.add(a[1], T.num(1.0))), a[2])
    return a[0], T.add(a[1], T.mul(a[2], a[3]))


class Memory:
    """The interpreter's memory operators as gated terms: a leaf is ("undef", "out", returned, writes, argument order)."""

    def __init__(self):
        self.mod = Mod("interpret", core.pytree(fold.INT))
        self.cls = self.mod.classes.get("Interpreter")
        if self.cls is None:
            raise core.Vanished("class Interpreter")
        import ast
        self.methods = {m.name: m for m in self.cls.body if isinstance(m, ast.FunctionDef)}
        for n in ("run", "get", "set", "ensure_int"):
            if n not in self.methods:
                raise core.Vanished(f"Interpreter.{n}")
        self.memo = {}

    def line(self, name):
        return self.methods["run"].lineno

    def load(self, st, b, i):
        v = ("fn", "mem", b, i)
        for wb, wi, wv in reversed(st.get(("w",), ())):
            if real.same(wb, b) and real.same(wi, i):
                return wv
            v = ("fn", "mem", b, i, ("after", wb, wi, wv))
            break
        return v

    def run(self, name, terms):
        """gated term of running operator `name` on argument nodes that evaluate to the given terms"""
        key = (name, tuple(terms))
        if key in self.memo:
            return self.memo[key]
        args = [Obj("argnode", term=t, i=i) for i, t in enumerate(terms)]
        node = Obj("fnode", func=OpC(name), args=PList(args))
        me = Obj("self", methods=self.methods, mod=self.mod, log=Obj("log"), blocks=Obj("blocks"))

        def call(ev, f, a, kw, st, c, k, e):
            if not isinstance(f, Fn):
                return NotImplemented
            if f.node is self.methods["run"] and a and isinstance(a[-1], Obj) and a[-1].kind == "argnode":
                st = dict(st)
                st[("o",)] = (*st.get(("o",), ()), (a[-1].attrs["i"], len(st.get(("w",), ())), len(st.get(("r",), ()))))
                return k(a[-1].attrs["term"], st)
            if f.node is self.methods["ensure_int"]:
                return k(a[-1], st)
            if f.node is self.methods["get"]:
                b, i = T.tonum(a[-2]), T.tonum(a[-1])
                st = dict(st)
                st[("r",)] = (*st.get(("r",), ()), (b, i))
                return k(self.load(st, b, i), st)
            if f.node is self.methods["set"]:
                b, i, v = (T.tonum(x) for x in a[-3:])
                st = dict(st)
                st[("w",)] = (*st.get(("w",), ()), (b, i, v))
                return k(v, st)
            return NotImplemented

        def isinst(v, cls_):
            if isinstance(v, Obj) and v.kind in ("fnode", "argnode"):
                return v.kind == "fnode"
            return not isinstance(cls_, Obj)

        ev = Evaluator("py", hooks={"call": call, "isinstance": isinst})
        r = ev.call_fn(Fn(self.methods["run"], self.mod, None, me), [node], {}, {},
                       lambda v, s: ("undef", "out", fold.wrap(v), s.get(("w",), ()), s.get(("o",), ())), lambda kd, s: RAISE)
        self.memo[key] = r
        return r


def mem(b, i):
    return ("fn", "mem", b, i)


def expected(name, terms, ops):
    """the same leaf format, from the operator's documented meaning"""
    kind, binop, post, suf = decode(name)
    n = NADDR[suf]
    b, i = address(suf, terms[:n], mem)
    if kind == "get":
        return ("undef", "out", mem(b, i), ())
    if kind == "set" and binop is None:
        return ("undef", "out", terms[n], ((b, i, terms[n]),))
    old = mem(b, i)
    w = T.num(1.0) if kind == "inc" else terms[n]
    t = ops(binop, old, w)
    return O.tree_map(t, lambda v: v if v == RAISE else ("undef", "out", old if post == "Pre" else v, ((b, i, v),)))


def same_leaf(x, y, f=None):
    if x[:2] != ("undef", "out") or y[:2] != ("undef", "out"):
        return x == y
    return eqt(x[2], y[2], f) and len(x[3]) == len(y[3]) and all(eqt(p, q, f) for a, b in zip(x[3], y[3]) for p, q in zip(a, b))


def eqt(x, y, f=None):
    if x == y:
        return True
    if f is not None:
        x, y = T.simp(x, f), T.simp(y, f)
    return x == y or real.same(x, y)


def nargs_of(name):
    kind, _b, _p, suf = decode(name)
    return NADDR[suf] + (1 if kind == "set" else 0)


def interpreter(rep, M, ops, names):
    rep.rule("RMW-OP", "each memory operator of the interpreter reads, writes and returns what its name says")
    for name in names:
        terms = [T.var(f"a{i}") for i in range(nargs_of(name))]
        try:
            got, want = M.run(name, terms), expected(name, terms, ops)
        except Unsupported as u:
            rep.undecided("RMW-OP", f"{name}: {u}")
            continue
        rep.did("RMW-OP", name)
        for x in O.tree_leaves(got):
            if x[:2] == ("undef", "out"):
                order = [i for i, _w, _r in x[4]]
                if order != list(range(len(terms))):
                    rep.find("RMW-OP", fold.INT, M.line(name), name, f"arguments are evaluated in the order {order}, not left to right once each")
                elif any(w or r for _i, w, r in x[4]):
                    rep.find("RMW-OP", fold.INT, M.line(name), name, "memory is accessed before all arguments are evaluated")
        g = O.tree_map(got, lambda v: v[:4] if v[:2] == ("undef", "out") else v)
        d = compare(g, want)
        if d:
            rep.find("RMW-OP", fold.INT, M.line(name), name, d)
    rep.need("RMW-OP", 20)


def compare(g, w):
    if g == w:
        return None
    bad = T.expand(g, w, lambda a, b, f: None if same_leaf(a, b, f) else f"yields {show(a)}, expected {show(b)}")[1]
    return f"{bad[0]} when {bad[1]}" if bad else None


def show(x):
    if x == RAISE:
        return "an exception"
    if x[:2] != ("undef", "out"):
        return T.show(x)
    ws = "; ".join(f"[{T.show(b)}][{T.show(i)}] = {T.show(v)}" for b, i, v in x[3])
    return f"value {T.show(x[2])}" + (f" with writes {ws}" if ws else " without a write")


def binop_terms(mod):
    from .nums import _subst
    memo = {}

    def ops(name, a, b):
        if name not in memo:
            memo[name] = fold.interp_side(mod, name, 2)
        return _subst(memo[name], {T.var("a0"): a, T.var("a1"): b})
    return ops


def run(rep):
    rep.files |= {fold.INT, LOW, MID, EMI}
    M = Memory()
    ops = binop_terms(M.mod)
    names = [n for n, *_ in fold.op_table()]
    interpreter(rep, M, ops, [n for n in names if decode(n)])
    mappings(rep, M, names)
    guards(rep, names)


def mappings(rep, M, names):
    """functions that choose a fused operator for an operator"""
    rep.rule("RMW-MAP", "a fused operator chosen for an operator has the meaning of the read, operation and write it replaces")
    C = cyconst.enums()
    names_c = dict(C)
    jobs = [(LOW, "_fused_set_op", lambda n: n in BINOPS, lambda n: f"Set{n}", ()),
            (MID, "_fused_ptr_op", lambda n: n in BINOPS, lambda n: f"Set{n}Pointed", (False,)),
            (MID, "_fused_ptr_op", lambda n: n in BINOPS, lambda n: f"Set{n}Shifted", (True,)),
            (EMI, "_shifted_fused_op", lambda n: (decode(n) or (0, 0, 0, 1))[3] is None and decode(n)[0] != "get", lambda n: n + "Shifted", ())]
    for rel, fn, dom, want, extra in jobs:
        mod = Mod(rel, core.cytree(rel))
        f = mod.funcs.get(fn)
        if f is None:
            rep.undecided("RMW-MAP", f"{rel}: {fn} is gone")
            continue
        for i, n in enumerate(names):
            ev = O.OEval(mod, names_c)
            try:
                t = ev.paths(Fn(f, mod), [i, *extra])
                vals = {ev.leaves[l[1]].value for l in O.tree_leaves(t) if l[0] == "leaf"}
            except (Unsupported, T.Limit) as e:
                rep.undecided("RMW-MAP", f"{fn}[{n}]: {e}")
                continue
            for v in vals:
                if not isinstance(v, int):
                    rep.undecided("RMW-MAP", f"{fn}[{n}] yields {v!r}")
                    continue
                rep.did("RMW-MAP", f"{fn}({n}{', shifted' if extra == (True,) else ''}) -> {names[v] if 0 <= v < len(names) else v}")
                if v == -1:
                    continue
                got = names[v] if 0 <= v < len(names) else str(v)
                if not dom(n):
                    rep.find("RMW-MAP", rel, f.lineno, fn, f"{n} has no fused form but is replaced by {got}", key=f"{fn}/{n}")
                elif not alike(got, want(n)):
                    rep.find("RMW-MAP", rel, f.lineno, fn, f"{n}{' (shifted)' if extra == (True,) else ''} is replaced by {got}, not {want(n)}", key=f"{fn}/{n}/{extra}")
    rep.need("RMW-MAP", 600)


def alike(a, b):
    """same operator up to the unread return value of a statement"""
    x, y = decode(a), decode(b)
    return x is not None and y is not None and x[0] == y[0] and x[1] == y[1] and x[3] == y[3]


# ---------------------------------------------------------------- guards
def guards(rep, names):
    rep.rule("RMW-GUARD", "a store is replaced by a fused operator only when it stores op(read of the same place, w) and nothing intervenes")
    rep.rule("RMW-SAME", "two values or places are treated as the same only when they are structurally identical and pure")
    C = cyconst.enums()
    ptr(rep, names, C)
    scalar(rep, names, C)
    equality(rep, C)


def opname(names, v):
    if isinstance(v, float):
        v = int(v)
    if isinstance(v, tuple) and T.is_num(v):
        v = int(T.numval(v))
    return names[v] if isinstance(v, int) and 0 <= v < len(names) else None


def same_loc(loc, want):
    return loc == want


def final(ev, leaf, text, env):
    return ev.expr(text, env, {("ev",): leaf.events})


def weaken(cond, tree):
    """replace a negated exists in an obligation by a wider one that the tree tests"""
    have = []

    def walk(t):
        if isinstance(t, tuple):
            if t[:2] == ("pred", "exists"):
                have.append(t)
            for x in t:
                walk(x)
    walk(tree)

    def contains(o, i):
        """range o includes range i"""
        if o[0] != "range" or i[0] != "range" or o[3] != i[3]:
            return False
        try:
            lo, d1 = real.quot(T.sub(i[1], o[1]))
            hi, d2 = real.quot(T.sub(o[2], i[2]))
        except real.NoForm:
            return False
        ok = lambda p, d: set(d) <= {()} and set(p) <= {()} and p.get((), 0) / d[()] >= 0
        return ok(lo, d1) and ok(hi, d2)

    def sub(t):
        if isinstance(t, tuple):
            if t[:2] == ("pred", "exists") and t not in have:
                for h in have:
                    if h[3] == t[3] and contains(h[2], t[2]):
                        return h
                return t
            return tuple(sub(x) for x in t)
        return t
    return sub(cond)


def judge(rep, rid, rel, fname, line, tree, ev, need):
    """need: leaf -> [(condition text, condition)] that must hold on every path to the leaf"""
    msgs = {}

    def go(pick):
        def obligation(i):
            r = need(ev.leaves[i])
            if not r:
                return True
            return weaken(r[pick][1], tree) if pick < len(r) else True
        return obligation
    most = 0
    for i in range(len(ev.leaves)):
        r = need(ev.leaves[i])
        if r:
            most = max(most, len(r))
    for p in range(most):
        n, bad = O.implied(tree, go(p))
        if bad:
            txt = need(ev.leaves[bad[0]])[p][0]
            msgs.setdefault(txt, bad[1])
    for txt, where in msgs.items():
        rep.find(rid, rel, line, fname, f"reached without establishing: {txt} (e.g. {where[:160]})", key=f"{fname}/{txt}")
    return most


def ptr(rep, names, C):
    mod = Mod(MID, core.cytree(MID))
    f = mod.funcs.get("_try_fuse_ptr")
    if f is None:
        rep.undecided("RMW-GUARD", "_try_fuse_ptr is gone")
        return
    for naddr, suf, in ((3, "Pointed"), (4, "Shifted")):
        get = C[f"OP_Get{suf}"]
        ev = O.OEval(mod, C)
        try:
            tree = ev.paths(Fn(f, mod), [T.var("f"), T.var("i"), T.var("uc"), naddr, get, suf == "Shifted"])
        except (Unsupported, T.Limit) as e:
            rep.undecided("RMW-GUARD", f"_try_fuse_ptr/{suf}: {e}")
            continue
        env = {"f": T.var("f"), "i": T.var("i"), "N": naddr}
        V = "f.args[f.instrs[i].arg_start + N]"
        G = f"f.args[f.instrs[{V}].arg_start]"
        W = f"f.args[f.instrs[{V}].arg_start + 1]"
        memo = {}

        def X(text):
            if text not in memo:
                memo[text] = ev.expr(text, env)
            return memo[text]
        oploc = ("fn", ".op", X("f.instrs[i]"))
        found = [0]

        def need(leaf):
            stores = [e for e in leaf.events if e[0] == "store"]
            if not stores:
                return []
            new = [e for e in stores if e[1] == oploc]
            others = [e for e in stores if e[1] != oploc]
            if not new:
                return [("the replaced instruction is the store itself", False)]
            n = opname(names, O.tm(new[-1][2]))
            d = decode(n) if n else None
            if d is None or d[3] != suf or d[0] == "get" or d[1] is None:
                return [(f"the new operator is a fused {suf.lower()} operator (it is {n})", False)]
            found[0] += 1
            out = [
                ("the store has its address operands and one value", X("f.instrs[i].nargs == N + 1")),
                (f"the value is a binary {d[1]}", X(f"f.instrs[{V}].op == OP_{d[1]} and f.instrs[{V}].nargs == 2")),
                (f"the first operand is a Get{suf} with the same number of address operands", X(f"f.instrs[{G}].op == OP_Get{suf} and f.instrs[{G}].nargs == N")),
                ("every address operand of the read equals the store's", X(" and ".join(f"f.args[f.instrs[i].arg_start + {k}] == f.args[f.instrs[{G}].arg_start + {k}]" for k in range(naddr)))),
                ("the read is in the store's block", X(f"f.instrs[{G}].block == f.instrs[i].block")),
                ("no side effect lies between the read and the store", X(f"not any(f.instrs[j].flags & FLAG_SIDE_EFFECT for j in range({G} + 1, i))")),
            ]
            if d[0] == "inc":
                out.append(("the other operand is the constant 1", X(f"f.instrs[{W}].op == OPX_CONST and f.consts[f.instrs[{W}].aux] == 1.0")))
                want_n, want_w = X("N"), None
            else:
                want_n, want_w = X("N + 1"), X(W)
            st = {("ev",): leaf.events}
            nn = ev.load(("fn", ".nargs", X("f.instrs[i]")), st)
            if nn == ("fn", ".nargs", X("f.instrs[i]")):
                nn = X("N + 1")
            out.append((f"{n} keeps {want_n if isinstance(want_n, int) else T.show(want_n)} operands", O.tm(nn) == O.tm(want_n)))
            if want_w is not None:
                out.append(("the last operand becomes the other operand of the operation", ev.load(("fn", "[]", X("f.args"), O.tm(X("f.instrs[i].arg_start + N"))), st) == want_w))
            for e in others:
                if e[1][:2] == ("fn", ".flags"):
                    out.append(("the replacement stays a statement with a side effect", False if not flags_ok(e[2], C) else True))
            return out
        line = f.lineno
        judge(rep, "RMW-GUARD", MID, f"_try_fuse_ptr ({suf})", line, tree, ev, need)
        rep.did("RMW-GUARD", f"_try_fuse_ptr/{suf}: {len(ev.leaves)} paths")
        if not found[0]:
            rep.notes.append(f"_try_fuse_ptr/{suf} never fuses")
    # call sites hand over matching operator kinds
    g = mod.funcs.get("_fuse_ptr_rmw")
    if g is None:
        return
    ev = O.OEval(mod, C, opaque={"_try_fuse_ptr"})
    try:
        tree = ev.paths(Fn(g, mod))
    except (Unsupported, T.Limit) as e:
        rep.undecided("RMW-GUARD", f"_fuse_ptr_rmw: {e}")
        return
    calls = []

    def gather(t, pc):
        if t[0] == "ite":
            gather(t[2], [*pc, (t[1], True)])
            gather(t[3], [*pc, (t[1], False)])
        elif t[0] == "evs":
            for e in t[2]:
                if e[0] == "call" and e[1] == "_try_fuse_ptr":
                    calls.append((e, pc))
    for lf in ev.leaves:
        for e in lf.events:
            if e[0] == "loop":
                gather(e[2], [])
    for e, pc in calls:
        _c, _n, a, line = e
        suf = {3: "Pointed", 4: "Shifted"}.get(int(T.numval(a[3])) if T.is_num(a[3]) else None)
        ok = suf is not None and a[4] == T.num(C[f"OP_Get{suf}"]) and a[5] == T.num(1.0 if suf == "Shifted" else 0.0)
        op = ("fn", ".op", ("fn", "[]", ("fn", ".instrs", a[0]), a[1]))
        fl = ("fn", ".flags", ("fn", "[]", ("fn", ".instrs", a[0]), a[1]))
        t = T.num(1.0)
        for c, v in reversed(pc):
            t = T.ite(c, t, T.num(0.0)) if v else T.ite(c, T.num(0.0), t)
        key = f"_fuse_ptr_rmw -> _try_fuse_ptr({', '.join(T.show(x) for x in a[3:])})"
        rep.did("RMW-GUARD", key)
        if not ok:
            rep.find("RMW-GUARD", MID, line, "_fuse_ptr_rmw", "the address arity, read operator and addressing mode handed over do not belong together", key=key)
            continue
        need1 = T.cmp("eq", op, T.num(C[f"OP_Set{suf}"]))
        need2 = T.truth(("fn", "BitAnd", *sorted((fl, T.num(C["FLAG_STMT_ROOT"])), key=repr)))
        for txt, nd in ((f"the instruction is a Set{suf}", need1), ("the store is a statement, so its value is unread", need2)):
            tt = O.tree_map(t, lambda l: ("leaf", 0) if l == T.num(1.0) else T.num(0.0))
            _n2, bad = O.implied(tt, lambda _i, nd=nd: nd)
            if bad:
                rep.find("RMW-GUARD", MID, line, "_fuse_ptr_rmw", f"called without establishing: {txt}", key=key + txt)


def flags_ok(v, C):
    t = O.tm(v)
    return T.is_num(t) and int(T.numval(t)) & C["FLAG_SIDE_EFFECT"] and int(T.numval(t)) & C["FLAG_STMT_ROOT"]


def scalar(rep, names, C):
    mod = Mod(LOW, core.cytree(LOW))
    f = mod.funcs.get("_fuse_scalar")
    if f is None:
        rep.undecided("RMW-GUARD", "_fuse_scalar is gone")
        return
    ev = O.OEval(mod, C, opaque={"_places_equal", "_subtree_refs"}, pure={"_places_equal", "_subtree_refs"})
    try:
        tree = ev.paths(Fn(f, mod))
    except (Unsupported, T.Limit) as e:
        rep.undecided("RMW-GUARD", f"_fuse_scalar: {e}")
        return
    ps = [p.arg for p in f.args.args]
    env = {"func": T.var(ps[0]), "i": T.var(ps[1])}
    V = "func.args[func.instrs[i].arg_start]"
    G = f"func.args[func.instrs[{V}].arg_start]"
    W = f"func.args[func.instrs[{V}].arg_start + 1]"
    memo = {}

    def X(text):
        if text not in memo:
            memo[text] = ev.expr(text, env)
        return memo[text]
    oploc = ("fn", ".op", X("func.instrs[i]"))
    nloc = ("fn", ".nargs", X("func.instrs[i]"))
    floc = ("fn", ".flags", X("func.instrs[i]"))
    aloc = ("fn", "[]", X("func.args"), O.tm(X("func.instrs[i].arg_start")))

    def need(leaf):
        stores = [e for e in leaf.events if e[0] == "store"]
        if not stores:
            return []
        new = [e for e in stores if e[1] == oploc]
        if not new:
            return [("the replaced instruction is the store itself", False)]
        n = opname(names, O.tm(new[-1][2]))
        d = decode(n) if n else None
        if d is None or d[3] is not None or d[0] == "get" or d[1] is None:
            return [(f"the new operator is a fused operator (it is {n})", False)]
        out = [
            (f"the value is a binary {d[1]}", X(f"func.instrs[{V}].op == OP_{d[1]} and func.instrs[{V}].nargs == 2")),
            ("the first operand reads memory", X(f"func.instrs[{G}].op == OPX_GET")),
            ("the place read is the place stored", X(f"_places_equal(func, func.instrs[{G}].aux, func.instrs[i].aux) or func.instrs[{G}].aux == func.instrs[i].aux")),
        ]
        st = {("ev",): leaf.events}
        nn = ev.load(nloc, st)
        if nn == nloc:
            nn = T.num(1.0)
        if d[0] == "inc":
            out.append(("the other operand is the constant 1", X(f"func.instrs[{W}].op == OPX_CONST and func.consts[func.instrs[{W}].aux] == 1.0")))
            out.append((f"{n} carries no operand", O.tm(nn) == T.num(0.0)))
        else:
            out.append((f"{n} carries one operand", O.tm(nn) == T.num(1.0)))
            out.append(("the operand becomes the other operand of the operation", ev.load(aloc, st) == X(W)))
        fl = ev.load(floc, st)
        if fl != floc:
            out.append(("the replacement stays a statement with a side effect", bool(flags_ok(fl, C))))
        return out
    judge(rep, "RMW-GUARD", LOW, "_fuse_scalar", f.lineno, tree, ev, need)
    rep.did("RMW-GUARD", f"_fuse_scalar: {len(ev.leaves)} paths")


def equality(rep, C):
    mod = Mod(LOW, core.cytree(LOW))
    specs = {
        "_values_equal": ("v1 == v2 or (I(v1).op == I(v2).op and ((I(v1).op == OPX_CONST and func.consts[I(v1).aux] == func.consts[I(v2).aux])"
                          " or (I(v1).op == OPX_GET and _places_equal(func, I(v1).aux, I(v2).aux))"
                          " or (I(v1).op != OPX_CONST and I(v1).op != OPX_GET and (I(v1).flags & FLAG_PURE) and I(v1).nargs == I(v2).nargs and not any("
                          "not _values_equal(func, func.args[I(v1).arg_start + k], func.args[I(v2).arg_start + k]) for k in range(I(v1).nargs)))))"),
        "_places_equal": ("v1 == v2 or (P(v1).kind == P(v2).kind and P(v1).offset == P(v2).offset and ((P(v1).index_val < 0 and P(v2).index_val < 0)"
                          " or (P(v1).index_val >= 0 and P(v2).index_val >= 0 and (P(v1).index_val == P(v2).index_val or _values_equal(func, P(v1).index_val, P(v2).index_val))))"
                          " and ((P(v1).kind == PLACE_DYNAMIC_BLOCK and (P(v1).block_ref == P(v2).block_ref or _values_equal(func, P(v1).block_ref, P(v2).block_ref)))"
                          " or (P(v1).kind != PLACE_DYNAMIC_BLOCK and P(v1).block_ref == P(v2).block_ref)))"),
    }
    for name, text in specs.items():
        f = mod.funcs.get(name)
        if f is None:
            rep.undecided("RMW-SAME", f"{name} is gone")
            continue
        ev = O.OEval(mod, C, opaque={"_values_equal", "_places_equal"}, pure={"_values_equal", "_places_equal"})
        ps = [p.arg for p in f.args.args]
        try:
            tree = ev.paths(Fn(f, mod), None)
            text = re.sub(r"\bI\(", "Ifn(", text)
            text = re.sub(r"Ifn\((\w+)\)", r"func.instrs[\1]", re.sub(r"\bP\((\w+)\)", r"func.places[\1]", text))
            want = ev.expr(text, {"func": T.var(ps[0]), "v1": T.var(ps[1]), "v2": T.var(ps[2])})
        except (Unsupported, T.Limit) as e:
            rep.undecided("RMW-SAME", f"{name}: {e}")
            continue
        want = T.truth(want) if not isinstance(want, bool) else want

        def obligation(i):
            v = ev.leaves[i].value
            if ev.leaves[i].kind != "ret" or v is False:
                return True
            if v is True:
                return want
            c = ev.truthy(v)
            return T.bor(T.bnot(c), want)
        try:
            n, bad = O.implied(tree, obligation)
        except T.Limit as e:
            rep.undecided("RMW-SAME", f"{name}: {e}")
            continue
        rep.did("RMW-SAME", f"{name}: {n} regions")
        if bad:
            rep.find("RMW-SAME", LOW, f.lineno, name, f"declares two operands the same without structural equality, e.g. when {bad[1][:300]}")
