"""Normal form of terms over the reals: quotients of polynomials over atoms, coefficients exact rationals compared
to 12 significant digits. Two terms with one normal form denote one real function (rounding aside)."""
from __future__ import annotations

import math
from fractions import Fraction

from . import terms as T


class NoForm(Exception):
    pass


def _rnd(c):
    return float(f"{float(c):.11e}") + 0.0


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def _pmul(a, b):
    r = {}
    if len(a) * len(b) > 20000:
        raise NoForm("size")
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for v, p in n:
                e[v] = e.get(v, 0) + p
            k = tuple(sorted(((v, p) for v, p in e.items() if p), key=repr))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


ONE = {(): Fraction(1)}


def _clean(p):
    """drop cancellation dust"""
    if not p:
        return p
    m = max(abs(float(c)) for c in p.values())
    return {k: c for k, c in p.items() if abs(float(c)) > 1e-13 * max(m, 1e-3)}


def quot(t):
    """(numerator, denominator) polynomials"""
    if T.is_num(t):
        v = T.numval(t)
        if not math.isfinite(v):
            return {((("num", repr(v)), 1),): Fraction(1)}, ONE
        return ({(): Fraction(v)} if v else {}), ONE
    k = t[0]
    if k == "var":
        return {((t, 1),): Fraction(1)}, ONE
    if k == "neg":
        n, d = quot(t[1])
        return {m: -c for m, c in n.items()}, d
    if k == "add":
        (a, b), (c, d) = quot(t[1]), quot(t[2])
        if b == d:
            return _clean(_padd(a, c)), b
        return _clean(_padd(_pmul(a, d), _pmul(c, b))), _pmul(b, d)
    if k == "mul":
        (a, b), (c, d) = quot(t[1]), quot(t[2])
        return _pmul(a, c), _pmul(b, d)
    if k == "div":
        (a, b), (c, d) = quot(t[1]), quot(t[2])
        if set(c) == {()} and d == ONE:
            return {m: x / c[()] for m, x in a.items()}, b
        return _pmul(a, d), _pmul(b, c)
    if k == "fn":
        n = t[1]
        if n == "c_pow" and T.is_num(t[3]):
            e = T.numval(t[3])
            if e == int(e) and abs(e) <= 8:
                a, b = quot(t[2])
                if e < 0:
                    a, b, e = b, a, -e
                ra, rb = ONE, ONE
                for _ in range(int(e)):
                    ra, rb = _pmul(ra, a), _pmul(rb, b)
                return ra, rb
            if e == 0.5:
                return quot(("fn", "sqrt", t[2]))
        if n == "f32":
            return quot(t[2])
        atom = ("fn", n, *[key(x) for x in t[2:]])
        return {((atom, 1),): Fraction(1)}, ONE
    if k in ("sel", "ite", "raise", "undef", "app", "pred", "cmp", "not", "and", "xor"):
        return {((("t", repr(t)), 1),): Fraction(1)}, ONE
    raise NoForm(repr(t)[:80])


def _pkey(p, scale):
    return tuple(sorted(((m, _rnd(c / scale)) for m, c in p.items()), key=repr))


def key(t):
    a, b = quot(t)
    if not a:
        return ("zero",)
    lead = b[min(b, key=repr)]
    return (_pkey(a, lead), _pkey(b, lead))


def close(a, b):
    """polynomials equal up to relative 1e-11 of coefficients"""
    d = _padd(a, b, -1)
    if not d:
        return True
    m = {k: max(abs(float(a.get(k, 0))), abs(float(b.get(k, 0)))) for k in d}
    return all(abs(float(c)) <= 1e-11 * max(m[k], 1e-30) for k, c in d.items())


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def same(x, y, facts=None):
    """True when the two terms have one normal form over the reals (under the orderings already established)"""
    if x == y:
        return True
    if facts is not None:
        m = {}
        for (a, b), o in facts.pair.items():
            if o == "eq":
                m[a if not T.is_num(a) else b] = b if not T.is_num(a) else a
        for t, iv in facts.iv.items():
            if iv.point() and not T.is_num(t):
                m[t] = T.num(iv.lo)
        for _ in range(3):
            x, y = (T.simp(subst(z, m), T.Facts()) for z in (x, y))
        if x == y:
            return True
    try:
        (a, b), (c, d) = quot(x), quot(y)
        return close(_pmul(a, d), _pmul(c, b))
    except (NoForm, OverflowError):
        return False


class _Unk(Exception):
    def __init__(self, body, c):
        self.body, self.c = body, c


def lin_feasible(cons):
    """Fourier-Motzkin on [(coeffs {mono: Fraction}, strict)] meaning  sum coeffs + coeffs[()] < 0 (or <= 0).

    True when the polyhedron may be non-empty (also when the elimination grows too large)."""
    cons = [(dict(c), s) for c, s in cons]
    while True:
        for c, s in cons:
            if not any(m for m in c if m != ()):
                k = c.get((), 0)
                if k > 0 or (k == 0 and s):
                    return False
        cons = [(c, s) for c, s in cons if any(m != () for m in c)]
        if not cons:
            return True
        cnt = {}
        for c, _s in cons:
            for m, k in c.items():
                if m != ():
                    e = cnt.setdefault(m, [0, 0])
                    e[k > 0] += 1
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1])
        pos = [(c, s) for c, s in cons if c.get(v, 0) > 0]
        neg = [(c, s) for c, s in cons if c.get(v, 0) < 0]
        rest = [(c, s) for c, s in cons if not c.get(v, 0)]
        if len(pos) * len(neg) + len(rest) > 400:
            return True
        for a, s in pos:
            for b, r in neg:
                n = {}
                for m, k in a.items():
                    n[m] = n.get(m, 0) + k / a[v]
                for m, k in b.items():
                    n[m] = n.get(m, 0) - k / b[v]
                rest.append(({m: k for m, k in n.items() if k and m != v}, s or r))
        cons = rest


class RealRegion:
    """A cell of the partition of real space by the inequalities of two terms: bounds on polynomial bodies."""

    def __init__(self, b=None):
        self.b = b or {}      # body key -> (poly, lo, lo_strict, hi, hi_strict)

    def bound(self, bk):
        return self.b.get(bk, (None, None, False, None, False))

    def decide(self, op, bk, c):
        """truth of body op c (op lt/le/gt/ge/eq) or None"""
        _p, lo, los, hi, his = self.bound(bk)
        below = hi is not None and (hi < c or (hi == c and his))       # body < c
        above = lo is not None and (lo > c or (lo == c and los))       # body > c
        eq = lo is not None and lo == hi == c
        if eq:
            return op in ("le", "ge", "eq")
        atmost = hi is not None and hi <= c
        atleast = lo is not None and lo >= c
        if op == "eq":
            return False if below or above else None
        if op in ("lt", "le"):
            if below or (op == "le" and atmost):
                return True
            return False if above or (op == "lt" and atleast) else None
        if above or (op == "ge" and atleast):
            return True
        return False if below or (op == "gt" and atmost) else None

    def split(self, bk, poly, c):
        for kind in ("lt", "eq", "gt"):
            _p, lo, los, hi, his = self.bound(bk)
            if kind in ("lt", "eq") and (hi is None or c < hi or (c == hi and kind == "lt")):
                hi, his = c, kind == "lt"
            elif kind == "eq" and not (hi == c and not his):
                continue
            if kind in ("gt", "eq") and (lo is None or c > lo or (c == lo and kind == "gt")):
                lo, los = c, kind == "gt"
            elif kind == "eq" and not (lo == c and not los):
                continue
            n = RealRegion(dict(self.b))
            n.b[bk] = (poly, lo, los, hi, his)
            if n.feasible():
                yield n

    def feasible(self):
        cons, sq = [], []
        for poly, lo, los, hi, his in self.b.values():
            if hi is not None:
                cons.append(({**poly, (): poly.get((), 0) - hi}, his))
            if lo is not None:
                cons.append(({**{m: -k for m, k in poly.items()}, (): lo}, los))
            for m in poly:
                if m and all(p % 2 == 0 for _v, p in m) and m not in sq:
                    sq.append(m)
                if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "fn":
                    n = m[0][0][1]
                    if n in ("fabs",) or (n == "c_pow" and m[0][0][3:] == (_HALF,)):
                        cons.append(({m: Fraction(-1)}, False))
                    if n in ("sin", "cos"):
                        cons.append(({m: Fraction(-1), (): Fraction(-1)}, False))
                        cons.append(({m: Fraction(1), (): Fraction(-1)}, False))
        for m in sq:
            cons.append(({m: Fraction(-1)}, False))
        return lin_feasible(cons)

    def equations(self):
        for poly, lo, _a, hi, _b in self.b.values():
            if lo is not None and lo == hi:
                yield {**poly, (): poly.get((), 0) - lo}

    def describe(self):
        out = []
        for poly, lo, los, hi, his in self.b.values():
            e = show_poly(poly)
            if lo is not None and lo == hi:
                out.append(f"{e} == {float(lo):g}")
                continue
            if lo is not None:
                out.append(f"{e} {'>' if los else '>='} {float(lo):g}")
            if hi is not None:
                out.append(f"{e} {'<' if his else '<='} {float(hi):g}")
        return "; ".join(out) or "always"


def show_atom(a):
    if isinstance(a, tuple) and a and a[0] == "var":
        return str(a[1])
    if isinstance(a, tuple) and a and a[0] == "fn":
        return f"{a[1]}(..)"
    return str(a)[:40]


def show_poly(p):
    out = []
    for m, c in p.items():
        f = "*".join(show_atom(v) + (f"^{e}" if e > 1 else "") for v, e in m)
        out.append(f"{float(c):g}" + (f"*{f}" if f else ""))
    return " + ".join(out)


class Resolver:
    """Gate-free reading of a term inside one region (raises _Unk on an undecided inequality)."""

    def __init__(self, reg):
        self.reg, self.memo, self.keep = reg, {}, []

    def num(self, t):
        if not isinstance(t, tuple) or not t or t[0] in ("num", "var", "raise", "undef", "nc"):
            return t
        i = id(t)
        if i in self.memo:
            return self.memo[i]
        k = t[0]
        if k == "ite":
            r = self.num(t[2] if self.cond(t[1]) else t[3])
        elif k == "neg":
            r = T.neg(self.num(t[1]))
        elif k in ("add", "mul", "div"):
            r = getattr(T, k)(self.num(t[1]), self.num(t[2]))
        elif k == "fn":
            r = T.fn(t[1], *[self.num(x) for x in t[2:]])
        elif T.is_cond(t):
            r = T.num(1.0 if self.cond(t) else 0.0)
        else:
            r = t
        self.memo[i] = r
        self.keep.append(t)
        return r

    def cond(self, c):
        if isinstance(c, bool):
            return c
        k = c[0]
        if k == "not":
            return not self.cond(c[1])
        if k == "and":
            return self.cond(c[1]) and self.cond(c[2])
        if k == "xor":
            return self.cond(c[1]) != self.cond(c[2])
        if k == "pred" and c[1] == "isnan":
            return False
        if k == "cmp":
            a, b = self.num(T.tonum(c[2])), self.num(T.tonum(c[3]))
            op = c[1]
            for z, other in ((a, b), (b, a)):
                if T.is_num(z) and not math.isfinite(T.numval(z)):
                    # every other term is a real number here
                    v = T.numval(z)
                    x, y = (v, T.numval(other) if T.is_num(other) else 0.0)
                    if z is b and z is not a:
                        x, y = y, x
                    return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
            n, d = quot(T.sub(a, b))
            if set(d) != {()}:
                lead = d[min(d, key=repr)]
                nk = _pkey(n, lead)
                if not n:
                    return op != "lt"
                body, c0 = {((("q", (nk, _pkey(d, lead))), 1),): Fraction(1)}, Fraction(0)
            else:
                n = {m: x / d[()] for m, x in n.items()}
                c0 = -n.get((), Fraction(0))
                body = {m: x for m, x in n.items() if m != ()}
                if not body:
                    return {"lt": 0 < c0, "le": 0 <= c0, "eq": c0 == 0}[op]
                lead = body[min(body, key=repr)]
                body = {m: x / lead for m, x in body.items()}
                c0 = c0 / lead
                if lead < 0:
                    op = {"lt": "gt", "le": "ge", "eq": "eq"}[op]
            bk = _pkey(body, 1)
            r = self.reg.decide(op, bk, c0)
            if r is None:
                raise _Unk((bk, body), c0)
            return r
        raise NoForm(repr(c)[:80])


def reduce_by(p, eqs):
    """polynomial p with the region's equations substituted"""
    for e in eqs:
        for m, k in e.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "var" and sum(1 for n in e if any(v == m[0][0] for v, _ in n)) == 1:
                v = m[0][0]
                val = {n: -c / k for n, c in e.items() if n != m}
                r = {}
                for n, c in p.items():
                    q = {tuple(x for x in n if x[0] != v): c}
                    for _ in range(dict(n).get(v, 0)):
                        q = _pmul(q, val)
                    r = _padd(r, q)
                p = r
                break
    return p


def same_in(x, y, reg):
    if x == y:
        return True
    if not all(isinstance(z, tuple) and z[0] not in ("raise", "undef", "nc") for z in (x, y)):
        return False
    (a, b), (c, d) = quot(x), quot(y)
    p, q = _pmul(a, d), _pmul(c, b)
    if close(p, q):
        return True
    eqs = list(reg.equations())
    return bool(eqs) and not _clean2(reduce_by(_padd(p, q, -1), eqs))


def _clean2(p):
    return {k: c for k, c in p.items() if abs(float(c)) > 1e-10}


def compare_real(a, b, budget=4000):
    """(cells, None | (x, y, cell)) : equality of two gated terms on every cell of the real partition"""
    stack, n = [RealRegion()], 0
    while stack:
        reg = stack.pop()
        n += 1
        if n > budget:
            raise T.Limit("region budget exceeded")
        r = Resolver(reg)
        try:
            x, y = r.num(a), r.num(b)
        except _Unk as u:
            stack.extend(reg.split(u.body[0], u.body[1], u.c))
            continue
        if not same_in(x, y, reg):
            return n, (x, y, reg.describe())
    return n, None


_HALF = key(T.num(0.5))
