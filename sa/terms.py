"""Value-graph terms: hash-consed arithmetic terms, gated (if-then-else) terms, an interval domain,
and comparison of two gated terms by expansion over their comparison atoms.

Everything here is syntactic: no repository code is executed, no solver is called.
"""
from __future__ import annotations

import math

INF = math.inf


class Limit(Exception):
    pass


# --------------------------------------------------------------------------- constructors
def num(v):
    v = float(v)
    return ("num", v if v == v else "nan", math.copysign(1.0, v) if v == 0 else 0)


def is_num(t):
    return isinstance(t, tuple) and t[0] == "num"


def numval(t):
    return math.nan if t[1] == "nan" else t[1] * (t[2] if t[1] == 0 and t[2] else 1)


class PyN(tuple):
    """a Python number that is an int when integral"""

    __slots__ = ()


class Grown(tuple):
    """the result of unbounded int arithmetic: float() of it can overflow"""

    __slots__ = ()


def var(name):
    return ("var", name)


def size(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(size(x) for x in t[1:])


def _key(t):
    return repr(t)


def neg(a):
    if is_num(a):
        return num(-numval(a))
    if a[0] == "neg":
        return a[1]
    return ("neg", a)


def add(a, b):
    if is_num(a) and is_num(b):
        return num(numval(a) + numval(b))
    x, y = sorted((a, b), key=_key)
    return ("add", x, y)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_num(a) and is_num(b):
        return num(numval(a) * numval(b))
    if a[0] == "neg":
        return neg(mul(a[1], b))
    if b[0] == "neg":
        return neg(mul(a, b[1]))
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            v = numval(x)
            if v == 1.0:
                return y
            if v < 0:
                return neg(mul(num(-v), y))
    x, y = sorted((a, b), key=_key)
    return ("mul", x, y)


def div(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) / numval(b))
    if a[0] == "neg":
        return neg(div(a[1], b))
    if b[0] == "neg":
        return neg(div(a, b[1]))
    if is_num(b):
        v = numval(b)
        if v == v and v != 0 and not math.isinf(v):
            m, e = math.frexp(v)
            if abs(m) == 0.5 and -1000 < e < 1000:  # exact power of two: same real quotient, same rounding
                return mul(a, num(1.0 / v))
            if v < 0:
                return neg(div(a, num(-v)))
    return ("div", a, b)


_CONST_FN = {
    "fabs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
}


def fn(name, *args):
    if name == "fabs":
        (a,) = args
        if is_num(a):
            return num(abs(numval(a)))
        if a[0] in ("neg", "fn") and (a[0] == "neg" or a[1] == "fabs"):
            return fn("fabs", a[1]) if a[0] == "neg" else a
        if a[0] == "fn" and a[1] == "copysign":
            return fn("fabs", a[2])
    if name == "copysign":
        a, b = args
        if is_num(a) and is_num(b):
            return num(math.copysign(numval(a), numval(b)))
        if is_num(b):
            f = fn("fabs", a)
            return f if math.copysign(1.0, numval(b)) > 0 else neg(f)
        return ("fn", "copysign", fn("fabs", a), b)
    if name in ("floor", "ceil", "trunc") and is_num(args[0]):
        v = numval(args[0])
        if v == v and not math.isinf(v):
            return num(math.copysign(float(_CONST_FN[name](v)), v))
        return args[0]
    if name == "sqrt" and is_num(args[0]) and numval(args[0]) >= 0:
        return num(math.sqrt(numval(args[0])))
    if name == "c_pow" and all(is_num(a) for a in args):
        a, b = map(numval, args)
        if a == 1.0 or b == 0.0:
            return num(1.0)
        if b == int(b) if math.isfinite(b) else False:
            from fractions import Fraction
            if math.isfinite(a) and a != 0 and abs(b) <= 64:
                r = Fraction(a) ** int(b)
                try:
                    if Fraction(float(r)) == r:  # exactly representable: every pow returns it
                        return num(float(r))
                except OverflowError:
                    pass
    if name == "fmod" and all(is_num(a) for a in args):
        a, b = map(numval, args)
        if b != 0 and not math.isinf(a) and a == a and b == b:
            return num(math.fmod(a, b))
    return ("fn", name, *args)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return ("ite", c, a, b)


def cmp(op, a, b):
    """op in lt le gt ge eq ne; a, b numeric terms -> cond"""
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    if op == "ne":
        return bnot(cmp("eq", a, b))
    if is_num(a) and is_num(b):
        x, y = numval(a), numval(b)
        return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
    if op == "eq":
        a, b = sorted((a, b), key=_key)
    return ("cmp", op, a, b)


def bnot(c):
    if isinstance(c, bool):
        return not c
    if c[0] == "not":
        return c[1]
    return ("not", c)


def band(a, b):
    if a is False or b is False and not isinstance(a, tuple):
        return False
    if a is True:
        return b
    if b is True:
        return a
    if b is False:
        return False
    return ("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if isinstance(a, bool):
        return bnot(b) if a else b
    if isinstance(b, bool):
        return bnot(a) if b else a
    return ("xor", a, b)


def bite(c, a, b):
    """boolean if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def is_cond(t):
    return isinstance(t, bool) or (isinstance(t, tuple) and t[0] in ("cmp", "not", "and", "xor", "pred"))


def tonum(t):
    if isinstance(t, bool):
        return num(1.0 if t else 0.0)
    if isinstance(t, (int, float)):
        return num(t)
    if is_cond(t):
        return ite(t, num(1.0), num(0.0))
    return t


def truth(t):
    if is_cond(t):
        return t
    if isinstance(t, (int, float)):
        return bool(t)
    if isinstance(t, tuple) and t[0] == "ite":
        return bite(t[1], truth(t[2]), truth(t[3]))
    return cmp("ne", t, num(0.0))


# --------------------------------------------------------------------------- intervals
class Iv:
    __slots__ = ("hi", "hio", "lo", "loo", "nan")

    def __init__(self, lo, hi, nan=False, loo=False, hio=False):
        self.lo, self.hi, self.nan, self.loo, self.hio = lo, hi, nan, loo, hio

    def empty_num(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.loo or self.hio))

    def empty(self):
        return self.empty_num() and not self.nan

    def finite(self):
        return not self.nan and self.lo > -INF and self.hi < INF

    def noinf(self):
        return not self.nan and (self.lo > -INF or self.loo) and (self.hi < INF or self.hio)

    def point(self):
        return not self.nan and self.lo == self.hi and not self.loo and not self.hio

    def meet(self, o):
        if self.lo > o.lo or (self.lo == o.lo and self.loo):
            lo, loo = self.lo, self.loo
        else:
            lo, loo = o.lo, o.loo
        if self.hi < o.hi or (self.hi == o.hi and self.hio):
            hi, hio = self.hi, self.hio
        else:
            hi, hio = o.hi, o.hio
        return Iv(lo, hi, self.nan and o.nan, loo, hio)

    def __repr__(self):
        return f"{'(' if self.loo else '['}{self.lo},{self.hi}{')' if self.hio else ']'}{'+nan' if self.nan else ''}"


TOP = Iv(-INF, INF, True)


def _out(lo, hi, nan=False):
    """rounding-safe closed hull"""
    if lo != lo or hi != hi:
        return TOP
    if not math.isinf(lo) and lo != 0:
        lo = math.nextafter(lo, -INF)
    if not math.isinf(hi) and hi != 0:
        hi = math.nextafter(hi, INF)
    return Iv(lo, hi, nan)


def interval(t, facts, own=True):
    if is_num(t):
        v = numval(t)
        return Iv(INF, -INF, True) if v != v else Iv(v, v)
    base = _struct_iv(t, facts)
    if own and t in facts:
        return base.meet(facts[t])
    return base


def _struct_iv(t, facts):
    k = t[0]
    if k == "neg":
        a = interval(t[1], facts)
        return Iv(-a.hi, -a.lo, a.nan, a.hio, a.loo)
    if k == "add":
        a, b = interval(t[1], facts), interval(t[2], facts)
        nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
        if a.empty_num() or b.empty_num():
            return Iv(INF, -INF, nan)
        lo = a.lo + b.lo
        hi = a.hi + b.hi
        if a.point() and b.point():
            return Iv(lo, hi, nan)
        return _out(lo if lo == lo else -INF, hi if hi == hi else INF, nan)
    if k in ("mul", "div"):
        a, b = interval(t[1], facts), interval(t[2], facts)
        if a.finite() and b.finite() and not a.empty_num() and not b.empty_num():
            if k == "mul":
                ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                return _out(min(ps), max(ps))
            if b.lo > 0 or b.hi < 0:
                ps = [x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                return _out(min(ps), max(ps))
        if a.noinf() and b.noinf() and not a.empty_num() and not b.empty_num():
            if k == "mul" or b.lo > 0 or b.hi < 0 or (b.lo == 0 and b.loo) or (b.hi == 0 and b.hio):
                return Iv(-INF, INF)  # finite operands: may overflow, cannot be a NaN
        return TOP
    if k == "fn":
        n = t[1]
        ivs = [interval(x, facts) for x in t[2:]]
        a = ivs[0]
        if n == "fabs":
            if a.empty_num():
                return a
            if a.lo >= 0:
                return a
            if a.hi <= 0:
                return Iv(-a.hi, -a.lo, a.nan, a.hio, a.loo)
            return Iv(0.0, max(-a.lo, a.hi), a.nan)
        if n in ("sin", "cos"):
            return Iv(-1.0, 1.0, not a.noinf())
        if n == "sqrt":
            if a.lo >= 0 and not a.empty_num():
                return _out(math.sqrt(a.lo), math.sqrt(a.hi) if a.hi < INF else INF, a.nan)
            return Iv(0.0, INF, True)
        if n == "tanh":
            return Iv(-1.0, 1.0, a.nan)
        if n in ("trunc", "floor", "ceil", "c_round", "rint"):
            if a.empty_num():
                return a
            f = {"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "rint": round,
                 "c_round": lambda v: math.copysign(math.floor(abs(v) + 0.5), v)}[n]

            def g(v):
                return v if math.isinf(v) else float(f(v))
            lo, hi = g(a.lo), g(a.hi)
            if n in ("trunc", "floor") and a.hio and not math.isinf(a.hi) and hi == a.hi and (n == "floor" or a.hi > 0):
                hi = hi - 1
            if n in ("trunc", "ceil") and a.loo and not math.isinf(a.lo) and lo == a.lo and (n == "ceil" or a.lo < 0):
                lo = lo + 1
            return Iv(lo, hi, a.nan)
        if n == "fmod":
            b = ivs[1]
            nan = not a.noinf() or b.nan or (b.lo <= 0 <= b.hi)
            m = max(abs(b.lo), abs(b.hi)) if not b.empty_num() else INF
            return Iv(0.0 if a.lo >= 0 else -m, 0.0 if a.hi <= 0 else m, nan)
        if n == "c_pow":
            b = ivs[1]
            if a.finite() and b.finite() and not a.empty_num() and not b.empty_num() and a.lo >= 0 and (a.lo > 0 or b.lo > 0):
                try:
                    ps = [math.pow(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                    # monotone in each argument separately on this quadrant, up to base crossing 1
                    return _out(min(ps), max(ps))
                except (OverflowError, ValueError):
                    return TOP
            return TOP
        if n == "copysign":
            m = max(abs(a.lo), abs(a.hi)) if not a.empty_num() else INF
            b = ivs[1]
            lo, hi = -m, m
            if b.lo > 0 and not b.nan:
                lo = 0.0
            if b.hi < 0 and not b.nan:
                hi = 0.0
            return Iv(lo, hi, a.nan)
        return TOP
    if k == "ite":
        a, b = interval(t[2], facts), interval(t[3], facts)
        return Iv(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)
    return TOP


# --------------------------------------------------------------------------- facts
class Facts:
    """iv: term -> Iv ; pair: (a,b) -> 'lt'|'eq'|'gt'|'un' ; preds: pred -> bool"""

    def __init__(self, iv=None, pair=None, preds=None):
        self.iv = iv or {}
        self.pair = pair or {}
        self.preds = preds or {}

    def copy(self):
        return Facts(dict(self.iv), dict(self.pair), dict(self.preds))

    def consistent(self):
        for t, r in self.iv.items():
            if interval(t, {k: v for k, v in self.iv.items() if k != t}, own=False).meet(r).empty():
                return False
        for (a, b), o in self.pair.items():
            r = decide_pair_iv(a, b, self)
            if r is not None and o not in r:
                return False
        return True

    def describe(self):
        out = [f"{show(t)} in {r!r}" for t, r in self.iv.items()]
        out += [f"{show(a)} {o} {show(b)}" for (a, b), o in self.pair.items()]
        out += [f"{'' if v else 'not '}{show(p)}" for p, v in self.preds.items()]
        return "; ".join(out) or "always"


def decide_pair_iv(a, b, facts):
    """set of possible orderings by intervals"""
    x, y = interval(a, facts.iv), interval(b, facts.iv)
    out = set()
    if x.nan or y.nan:
        out.add("un")
    if not x.empty_num() and not y.empty_num():
        if x.lo < y.hi:
            out.add("lt")
        if x.hi > y.lo:
            out.add("gt")
        m = x.meet(y)
        if not m.empty_num():
            out.add("eq")
        elif x.hi == y.lo:  # touching with open ends
            out.discard("gt")
        elif x.lo == y.hi:
            out.discard("lt")
    return out


def canon_pair(a, b):
    if _key(a) <= _key(b):
        return (a, b), False
    return (b, a), True


FLIP = {"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}


class Unknown(Exception):
    def __init__(self, atom):
        self.atom = atom


def eval_cond(c, facts):
    if isinstance(c, bool):
        return c
    k = c[0]
    if k == "not":
        return not eval_cond(c[1], facts)
    if k == "and":
        return eval_cond(c[1], facts) and eval_cond(c[2], facts)
    if k == "xor":
        return eval_cond(c[1], facts) != eval_cond(c[2], facts)
    if k == "pred":
        p = ("pred", c[1], *[simp(x, facts) for x in c[2:]])
        if p[1] == "isnan":
            return eval_pair("isnan", p[2], facts)
        if p in facts.preds:
            return facts.preds[p]
        raise Unknown(("pred", p))
    if k == "cmp":
        a, b = simp(c[2], facts), simp(c[3], facts)
        if is_num(a) and is_num(b):
            return cmp(c[1], a, b)
        return eval_pair(c[1], a, b, facts)
    raise AssertionError(c)


def eval_pair(op, a, b, facts=None):
    if op == "isnan":
        facts, t = b, a
        iv = interval(t, facts.iv)
        if not iv.nan:
            return False
        if iv.empty_num():
            return True
        raise Unknown(("nan", t))
    if a == b:
        iv = interval(a, facts.iv)
        if op == "lt":
            return False
        if not iv.nan:
            return True
        if iv.empty_num():
            return False
        raise Unknown(("nan", a))
    poss = decide_pair_iv(a, b, facts)
    (p, flip) = canon_pair(a, b)
    if p in facts.pair:
        o = facts.pair[p]
        poss = {FLIP[o] if flip else o}
    truth_set = {"lt": {"lt"}, "le": {"lt", "eq"}, "eq": {"eq"}}[op]
    if poss <= truth_set:
        return True
    if not (poss & truth_set):
        return False
    if is_num(a) or is_num(b):
        t, c = (a, b) if is_num(b) else (b, a)
        raise Unknown(("const", t, numval(c)))
    raise Unknown(("pair", p))


_simp_depth = 0


def simp(t, facts):
    """Rebuild a numeric term under the facts: resolve gates, fold exact non-zero points."""
    if not isinstance(t, tuple) or t[0] in ("num",):
        return t
    k = t[0]
    if k == "ite":
        return simp(t[2] if eval_cond(t[1], facts) else t[3], facts)
    if k == "neg":
        r = neg(simp(t[1], facts))
    elif k == "add":
        r = add(simp(t[1], facts), simp(t[2], facts))
    elif k == "mul":
        r = mul(simp(t[1], facts), simp(t[2], facts))
    elif k == "div":
        r = div(simp(t[1], facts), simp(t[2], facts))
    elif k == "fn":
        r = fn(t[1], *[simp(x, facts) for x in t[2:]])
    elif k == "sel":
        return simp_sel(t, facts)
    else:
        r = t
    if is_num(r):
        return r
    iv = interval(r, facts.iv)
    if iv.point() and iv.lo != 0 and not math.isinf(iv.lo):
        return num(iv.lo)
    if iv.point() and iv.lo == 0 and r[0] == "fn" and r[1] in ("fabs",):
        return num(0.0)
    if r[0] == "fn" and r[1] in ("trunc", "floor", "ceil", "rint", "toint") and iv.point():
        return num(iv.lo)
    return r


def simp_sel(t, facts):
    idx = simp(t[2], facts)
    items = t[1]
    if is_num(idx):
        i = int(numval(idx))
        if -len(items) <= i < len(items):
            return simp(items[i], facts)
        return ("raise",)
    base, off = idx, 0.0
    while base[0] == "add" and (is_num(base[1]) or is_num(base[2])):
        if is_num(base[1]):
            off += numval(base[1])
            base = base[2]
        else:
            off += numval(base[2])
            base = base[1]
    iv = interval(base, facts.iv)
    if iv.point():
        i = int(iv.lo + off)
        if -len(items) <= i < len(items):
            return simp(items[i], facts)
        return ("raise",)
    inner = base[2] if base[0] == "fn" and base[1] in ("trunc", "toint") else base
    for c in range(-1, len(items) + 2):
        v = c - off
        r = interval(inner, facts.iv)
        if r.lo <= v <= r.hi and not (r.lo == v and r.loo) and not (r.hi == v and r.hio):
            raise Unknown(("const", inner, float(v)))
    raise Limit("symbolic index not resolved")


def expand(a, b, leaf_ok, budget=200000, preset=None):
    """Compare gated terms a and b on every consistent valuation of their atoms.

    leaf_ok(la, lb, facts) -> None if fine, else a message. Returns (n_regions, first mismatch or None).
    """
    count = 0
    stack = [preset or Facts()]
    while stack:
        facts = stack.pop()
        count += 1
        if count > budget:
            raise Limit("region budget exceeded")
        try:
            la = simp_leaf(a, facts)
            lb = simp_leaf(b, facts)
            msg = leaf_ok(la, lb, facts)
        except Unknown as u:
            stack.extend(split(u.atom, facts))
            continue
        if msg:
            return count, (msg, facts.describe())
    return count, None


def simp_leaf(t, facts):
    while isinstance(t, tuple) and t[0] == "ite":
        t = t[2] if eval_cond(t[1], facts) else t[3]
    if isinstance(t, tuple) and t[0] == "pair":
        return ("pair", simp_leaf(t[1], facts), simp_leaf(t[2], facts) if t[2] is not None else None)
    if isinstance(t, tuple) and t[0] in ("raise", "nc", "undef"):
        return t
    if is_cond(t):
        return eval_cond(t, facts)
    return simp(t, facts)


def split(atom, facts):
    out = []
    if atom[0] == "const":
        _, t, c = atom
        cur = facts.iv.get(t, TOP)
        regs = [Iv(-INF, c, False, False, True), Iv(c, c), Iv(c, INF, False, True, False), Iv(INF, -INF, True)]
        if c == -INF:
            regs = regs[1:]
        if c == INF:
            regs = [regs[0], regs[1], regs[3]]
        for r in regs:
            m = cur.meet(r)
            if m.empty():
                continue
            f = facts.copy()
            f.iv[t] = m
            if f.consistent():
                out.append(f)
    elif atom[0] == "nan":
        t = atom[1]
        cur = facts.iv.get(t, TOP)
        for r in (Iv(-INF, INF, False), Iv(INF, -INF, True)):
            m = cur.meet(r)
            if m.empty():
                continue
            f = facts.copy()
            f.iv[t] = m
            if f.consistent():
                out.append(f)
    elif atom[0] == "pair":
        p = atom[1]
        for o in ("lt", "eq", "gt", "un"):
            f = facts.copy()
            f.pair[p] = o
            if o != "un":
                for t in p:
                    m = f.iv.get(t, TOP).meet(Iv(-INF, INF, False))
                    f.iv[t] = m
                if any(f.iv[t].empty() for t in p):
                    continue
            if f.consistent():
                out.append(f)
    elif atom[0] == "pred":
        for v in (True, False):
            f = facts.copy()
            f.preds[atom[1]] = v
            out.append(f)
    else:
        raise AssertionError(atom)
    return out


def show(t):
    if isinstance(t, bool) or not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "num":
        return repr(numval(t))
    if k == "var":
        return str(t[1])
    if k == "neg":
        return f"-{show(t[1])}"
    if k in ("add", "mul", "div"):
        return f"({show(t[1])} {dict(add='+', mul='*', div='/')[k]} {show(t[2])})"
    if k in ("fn", "pred"):
        return f"{t[1]}({', '.join(show(x) for x in t[2:])})"
    if k == "ite":
        return f"({show(t[2])} if {show(t[1])} else {show(t[3])})"
    if k == "cmp":
        return f"{show(t[2])} {dict(lt='<', le='<=', eq='==')[t[1]]} {show(t[3])}"
    if k == "not":
        return f"not {show(t[1])}"
    if k in ("and", "xor"):
        return f"({show(t[1])} {k} {show(t[2])})"
    if k == "raise":
        return "an exception"
    return repr(t)
