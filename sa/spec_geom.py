"""What the geometry and interval library means, written independently of it: closed forms over field terms."""
from __future__ import annotations

import math

from . import terms as T


class X:
    """a term with arithmetic"""

    def __init__(self, t):
        self.t = t.t if isinstance(t, X) else T.tonum(t)

    def __add__(self, o): return X(T.add(self.t, X(o).t))
    def __radd__(self, o): return X(o) + self
    def __sub__(self, o): return X(T.sub(self.t, X(o).t))
    def __rsub__(self, o): return X(o) - self
    def __mul__(self, o): return X(T.mul(self.t, X(o).t))
    def __rmul__(self, o): return X(o) * self
    def __truediv__(self, o): return X(T.div(self.t, X(o).t))
    def __rtruediv__(self, o): return X(o) / self
    def __neg__(self): return X(T.neg(self.t))
    def __lt__(self, o): return X(T.cmp("lt", self.t, X(o).t))
    def __le__(self, o): return X(T.cmp("le", self.t, X(o).t))
    def __gt__(self, o): return X(T.cmp("gt", self.t, X(o).t))
    def __ge__(self, o): return X(T.cmp("ge", self.t, X(o).t))
    def eq(self, o): return X(T.cmp("eq", self.t, X(o).t))
    def __and__(self, o): return X(T.tonum(T.band(T.truth(self.t), T.truth(X(o).t))))
    def __xor__(self, o): return X(T.tonum(T.bxor(T.truth(self.t), T.truth(X(o).t))))
    def __invert__(self): return X(T.tonum(T.bnot(T.truth(self.t))))


def fn(n, *a): return X(T.fn(n, *[X(x).t for x in a]))
def sin(a): return fn("sin", a)
def cos(a): return fn("cos", a)
def sqrt(a): return fn("c_pow", a, 0.5)
def mod(a, b): return fn("pymod", a, b)
def fabs(a): return fn("fabs", a)
def where(c, a, b): return X(T.ite(T.truth(X(c).t), X(a).t, X(b).t))
def mx(a, b): return where(X(b) > a, b, a)
def mn(a, b): return where(X(b) < a, b, a)


class R(dict):
    """a record: attribute access to fields"""
    __getattr__ = dict.__getitem__


def V(x, y): return R(x=X(x), y=X(y))
def vadd(a, b): return V(a.x + b.x, a.y + b.y)
def vsub(a, b): return V(a.x - b.x, a.y - b.y)
def vmul(a, b): return V(a.x * b.x, a.y * b.y)
def vk(a, k): return V(a.x * k, a.y * k)
def vdiv(a, b): return V(a.x / b.x, a.y / b.y)
def vdk(a, k): return V(a.x / k, a.y / k)
def rot(a, t): return V(a.x * cos(t) - a.y * sin(t), a.x * sin(t) + a.y * cos(t))
def rot_about(a, t, p): return vadd(rot(vsub(a, p), t), p)


def norm0(v):
    # a zero vector stays zero; any other is divided by its length
    m = sqrt(v.x * v.x + v.y * v.y) + where(v.x.eq(0), where(v.y.eq(0), 1, 0), 0)
    return V(v.x / m, v.y / m)


CORNERS = ("bl", "tl", "tr", "br")


def quad(f): return R({c: f(c) for c in CORNERS})
def qmap(q, g): return quad(lambda c: g(q[c]))
def mean(*ps): return V(sum((p.x for p in ps), X(0)) / len(ps), sum((p.y for p in ps), X(0)) / len(ps))
def qc(q): return mean(*[q[c] for c in CORNERS])


def permuted(q, n):
    # listing the corners counterclockwise from bl (bl, br, tr, tl), the square turned n quarter turns counterclockwise
    order = ("bl", "br", "tr", "tl")
    return R({c: q[order[(order.index(c) + n) % 4]] for c in order})


def rect(t, r, b, l): return R(t=X(t), r=X(r), b=X(b), l=X(l))
def rc(s): return V((s.l + s.r) / 2, (s.t + s.b) / 2)


def rscale(s, f, p):
    return rect((s.t - p.y) * f.y + p.y, (s.r - p.x) * f.x + p.x, (s.b - p.y) * f.y + p.y, (s.l - p.x) * f.x + p.x)


def rcorners(s):
    return R(bl=V(s.l, s.b), tl=V(s.l, s.t), tr=V(s.r, s.t), br=V(s.r, s.b))


# ---- 3x3 matrices (row major), M applied to column (x, y, 1)
def mat(*e): return [[X(e[3 * i + j]) for j in range(3)] for i in range(3)]
def ident(): return mat(1, 0, 0, 0, 1, 0, 0, 0, 1)
def mm(a, b): return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)] for i in range(3)]
def m_of(t): return [[t[f"a{i}{j}"] for j in range(3)] for i in range(3)]
def t_of(m): return R({f"a{i}{j}": m[i][j] for i in range(3) for j in range(3)})
def TR(v): return mat(1, 0, v.x, 0, 1, v.y, 0, 0, 1)
def SC(v): return mat(v.x, 0, 0, 0, v.y, 0, 0, 0, 1)
def RO(a): return mat(cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1)
def SX(m): return mat(1, m, 0, 0, 1, 0, 0, 0, 1)
def SY(m): return mat(1, 0, 0, m, 1, 0, 0, 0, 1)
def PX(x): return mat(1, 0, 0, 0, 1, 0, 1 / X(x), 0, 1)
def PY(y): return mat(1, 0, 0, 0, 1, 0, 0, 1 / X(y), 1)
def about(m, p): return mm(TR(p), mm(m, TR(vk(p, -1))))


def PFX(f, v):
    # foreground line x = f stays put, vanishing point goes to infinity's image: divide, shear, shift
    return mm(TR(V(f, 0)), mm(SY(v.y / (v.x - f)), PX(v.x - f)))


def PFY(f, v):
    return mm(TR(V(0, f)), mm(SX(v.x / (v.y - f)), PY(v.y - f)))


def IPFX(f, v):
    return mm(PX(f - v.x), mm(SY(-v.y / (v.x - f)), TR(V(-f, 0))))


def IPFY(f, v):
    return mm(PY(f - v.y), mm(SX(-v.x / (v.y - f)), TR(V(0, -f))))


def apply_m(m, v):
    w = m[2][0] * v.x + m[2][1] * v.y + m[2][2]
    return V((m[0][0] * v.x + m[0][1] * v.y + m[0][2]) / w, (m[1][0] * v.x + m[1][1] * v.y + m[1][2]) / w)


def post(m): return lambda s, *a: t_of(mm(m(*a), m_of(s)))


def inv(m, n):
    """forward := M forward, inverse := inverse N with N M proportional to the identity"""
    return lambda s, *a: R(forward=t_of(mm(m(*a), m_of(s.forward))), inverse=t_of(mm(m_of(s.inverse), n(*a))))


def crossing(a, b, p):
    """the edge a-b crosses the rightward ray from p"""
    return ((a.y > p.y) ^ (b.y > p.y)) & (p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x)


def evenodd(vs, p):
    c = X(0)
    for i in range(len(vs)):
        c = c ^ crossing(vs[i], vs[i - 1], p)
    return c


def lerp(a, b, x): return a + (b - a) * x
def c01(x): return mx(0, mn(1, x))
def remap(a, b, c, d, x): return c + (d - c) * (x - a) / (b - a)


def interp(xp, fp, x):
    r = remap(xp[-2], xp[-1], fp[-2], fp[-1], x)
    for i in range(len(xp) - 2, 0, -1):
        r = where(x <= xp[i], remap(xp[i - 1], xp[i], fp[i - 1], fp[i], x), r)
    return r


def interp_clamped(xp, fp, x):
    r = fp[-1]
    for i in range(len(xp) - 1, 0, -1):
        r = where(x <= xp[i], remap(xp[i - 1], xp[i], fp[i - 1], fp[i], x), r)
    return where(x <= xp[0], fp[0], r)


one = V(1, 1)
PI = math.pi

# (class or "", name): (argument kinds, meaning).  kinds: n number, v Vec2, q Quad, t Transform2d, i Interval,
# j InvertibleTransform2d, n2.. tuple of numbers, v3.. tuple of vectors, int literal
SPEC = {
    "vec": {
        ("Vec2", "zero"): ([], lambda s: V(0, 0)),
        ("Vec2", "one"): ([], lambda s: V(1, 1)),
        ("Vec2", "up"): ([], lambda s: V(0, 1)),
        ("Vec2", "down"): ([], lambda s: V(0, -1)),
        ("Vec2", "left"): ([], lambda s: V(-1, 0)),
        ("Vec2", "right"): ([], lambda s: V(1, 0)),
        ("Vec2", "unit"): (["n"], lambda s, a: V(cos(a), sin(a))),
        ("Vec2", "magnitude"): ([], lambda s: sqrt(s.x * s.x + s.y * s.y)),
        ("Vec2", "angle"): ([], lambda s: fn("atan2", s.y, s.x)),
        ("Vec2", "dot"): (["v"], lambda s, o: s.x * o.x + s.y * o.y),
        ("Vec2", "rotate"): (["n"], rot),
        ("Vec2", "rotate_about"): (["n", "v"], rot_about),
        ("Vec2", "normalize"): ([], norm0),
        ("Vec2", "normalize_or_zero"): ([], norm0),
        ("Vec2", "orthogonal"): ([], lambda s: V(-s.y, s.x)),
        ("Vec2", "tuple"): ([], lambda s: [s.x, s.y]),
        ("Vec2", "__add__"): (["v"], vadd),
        ("Vec2", "__sub__"): (["v"], vsub),
        ("Vec2", "__neg__"): ([], lambda s: vk(s, -1)),
        ("Vec2", "__mul__"): (["v"], vmul),
        ("Vec2", "__mul__/n"): (["n"], vk),
        ("Vec2", "__rmul__"): (["n"], vk),
        ("Vec2", "__truediv__"): (["v"], vdiv),
        ("Vec2", "__truediv__/n"): (["n"], vdk),
        ("", "angle_diff"): (["n", "n"], lambda a, b: fabs(mod(a - b + PI, 2 * PI) - PI)),
        ("", "signed_angle_diff"): (["n", "n"], lambda a, b: mod(a - b + PI, 2 * PI) - PI),
        ("", "pnpoly/3"): (["v3", "v"], evenodd),
        ("", "pnpoly/4"): (["v4", "v"], evenodd),
    },
    "interval": {
        ("Interval", "zero"): ([], lambda s: R(start=X(0), end=X(0))),
        ("Interval", "length"): ([], lambda s: s.end - s.start),
        ("Interval", "is_empty"): ([], lambda s: s.start > s.end),
        ("Interval", "mid"): ([], lambda s: (s.start + s.end) / 2),
        ("Interval", "tuple"): ([], lambda s: [s.start, s.end]),
        ("Interval", "__contains__"): (["n"], lambda s, v: (s.start <= v) & (v <= s.end)),
        ("Interval", "__contains__/i"): (["i"], lambda s, o: (s.start <= o.start) & (o.end <= s.end)),
        ("Interval", "__add__"): (["n"], lambda s, k: R(start=s.start + k, end=s.end + k)),
        ("Interval", "__sub__"): (["n"], lambda s, k: R(start=s.start - k, end=s.end - k)),
        ("Interval", "__mul__"): (["n"], lambda s, k: R(start=s.start * k, end=s.end * k)),
        ("Interval", "__truediv__"): (["n"], lambda s, k: R(start=s.start / k, end=s.end / k)),
        ("Interval", "__floordiv__"): (["n"], lambda s, k: R(start=fn("floor", s.start / k), end=fn("floor", s.end / k))),
        ("Interval", "__and__"): (["i"], lambda s, o: R(start=mx(s.start, o.start), end=mn(s.end, o.end))),
        ("Interval", "shrink"): (["n"], lambda s, k: R(start=s.start + k, end=s.end - k)),
        ("Interval", "expand"): (["n"], lambda s, k: R(start=s.start - k, end=s.end + k)),
        ("Interval", "lerp"): (["n"], lambda s, x: lerp(s.start, s.end, x)),
        ("Interval", "lerp_clamped"): (["n"], lambda s, x: lerp(s.start, s.end, c01(x))),
        ("Interval", "unlerp"): (["n"], lambda s, x: (x - s.start) / (s.end - s.start)),
        ("Interval", "unlerp_clamped"): (["n"], lambda s, x: c01((x - s.start) / (s.end - s.start))),
        ("Interval", "clamp"): (["n"], lambda s, x: mx(s.start, mn(s.end, x))),
        ("", "lerp"): (["n", "n", "n"], lerp),
        ("", "lerp/v"): (["v", "v", "n"], lambda a, b, x: vadd(a, vk(vsub(b, a), x))),
        ("", "lerp_clamped"): (["n", "n", "n"], lambda a, b, x: lerp(a, b, c01(x))),
        ("", "lerp_clamped/v"): (["v", "v", "n"], lambda a, b, x: vadd(a, vk(vsub(b, a), c01(x)))),
        ("", "unlerp"): (["n", "n", "n"], lambda a, b, x: (x - a) / (b - a)),
        ("", "unlerp_clamped"): (["n", "n", "n"], lambda a, b, x: c01((x - a) / (b - a))),
        ("", "remap"): (["n"] * 5, remap),
        ("", "remap_clamped"): (["n"] * 5, lambda a, b, c, d, x: c + (d - c) * c01((x - a) / (b - a))),
        ("", "clamp"): (["n", "n", "n"], lambda x, a, b: mx(a, mn(b, x))),
        ("", "interp/2"): (["n2", "n2", "n"], interp),
        ("", "interp/3"): (["n3", "n3", "n"], interp),
        ("", "interp/4"): (["n4", "n4", "n"], interp),
        ("", "interp_clamped/2"): (["n2", "n2", "n"], interp_clamped),
        ("", "interp_clamped/3"): (["n3", "n3", "n"], interp_clamped),
        ("", "interp_clamped/4"): (["n4", "n4", "n"], interp_clamped),
    },
    "quad": {
        ("Quad", "zero"): ([], lambda s: quad(lambda c: V(0, 0))),
        ("Quad", "from_quad"): (["q"], lambda s, q: q),
        ("Quad", "center"): ([], qc),
        ("Quad", "mt"): ([], lambda s: mean(s.tl, s.tr)),
        ("Quad", "mr"): ([], lambda s: mean(s.tr, s.br)),
        ("Quad", "mb"): ([], lambda s: mean(s.bl, s.br)),
        ("Quad", "ml"): ([], lambda s: mean(s.bl, s.tl)),
        ("Quad", "translate"): (["v"], lambda s, d: qmap(s, lambda p: vadd(p, d))),
        ("Quad", "scale"): (["v"], lambda s, f: qmap(s, lambda p: vmul(p, f))),
        ("Quad", "scale_about"): (["v", "v"], lambda s, f, o: qmap(s, lambda p: vadd(vmul(vsub(p, o), f), o))),
        ("Quad", "scale_centered"): (["v"], lambda s, f: qmap(s, lambda p: vadd(vmul(vsub(p, qc(s)), f), qc(s)))),
        ("Quad", "rotate"): (["n"], lambda s, a: qmap(s, lambda p: rot(p, a))),
        ("Quad", "rotate_about"): (["n", "v"], lambda s, a, o: qmap(s, lambda p: rot_about(p, a, o))),
        ("Quad", "rotate_centered"): (["n"], lambda s, a: qmap(s, lambda p: rot_about(p, a, qc(s)))),
        **{("Quad", f"permute/{n}"): ([n], lambda s, k, n=n: permuted(s, n)) for n in range(-5, 6)},
        ("Quad", "contains_point"): (["v"], lambda s, p: evenodd([s.bl, s.tl, s.tr, s.br], p)),
        ("Rect", "from_center"): (["v", "v"], lambda s, c, d: rect(c.y + d.y / 2, c.x + d.x / 2, c.y - d.y / 2, c.x - d.x / 2)),
        ("Rect", "from_margin/1"): (["n"], lambda s, a: rect(a, a, -a, -a)),
        ("Rect", "from_margin/2"): (["n", "n"], lambda s, a, b: rect(a, b, -a, -b)),
        ("Rect", "from_margin/3"): (["n"] * 3, lambda s, a, b, c: rect(a, b, -c, -b)),
        ("Rect", "from_margin/4"): (["n"] * 4, lambda s, a, b, c, d: rect(a, b, -c, -d)),
        ("Rect", "w"): ([], lambda s: s.r - s.l),
        ("Rect", "h"): ([], lambda s: s.t - s.b),
        ("Rect", "bl"): ([], lambda s: rcorners(s).bl),
        ("Rect", "tl"): ([], lambda s: rcorners(s).tl),
        ("Rect", "tr"): ([], lambda s: rcorners(s).tr),
        ("Rect", "br"): ([], lambda s: rcorners(s).br),
        ("Rect", "center"): ([], rc),
        ("Rect", "mt"): ([], lambda s: V(rc(s).x, s.t)),
        ("Rect", "mr"): ([], lambda s: V(s.r, rc(s).y)),
        ("Rect", "mb"): ([], lambda s: V(rc(s).x, s.b)),
        ("Rect", "ml"): ([], lambda s: V(s.l, rc(s).y)),
        ("Rect", "as_quad"): ([], rcorners),
        ("Rect", "translate"): (["v"], lambda s, d: rect(s.t + d.y, s.r + d.x, s.b + d.y, s.l + d.x)),
        ("Rect", "scale"): (["v"], lambda s, f: rscale(s, f, V(0, 0))),
        ("Rect", "scale_about"): (["v", "v"], rscale),
        ("Rect", "scale_centered"): (["v"], lambda s, f: rscale(s, f, rc(s))),
        ("Rect", "expand"): (["v"], lambda s, e: rect(s.t + e.y, s.r + e.x, s.b - e.y, s.l - e.x)),
        ("Rect", "shrink"): (["v"], lambda s, e: rect(s.t - e.y, s.r - e.x, s.b + e.y, s.l + e.x)),
        ("Rect", "contains_point"): (["v"], lambda s, p: (s.l <= p.x) & (p.x <= s.r) & (s.b <= p.y) & (p.y <= s.t)),
        ("", "flatten_quad"): (["q"], lambda q: [x for c in CORNERS for x in (q[c].x, q[c].y)]),
    },
    "transform": {
        ("Transform2d", "new"): ([], lambda s: t_of(ident())),
        ("Transform2d", "translate"): (["v"], post(TR)),
        ("Transform2d", "scale"): (["v"], post(SC)),
        ("Transform2d", "scale_about"): (["v", "v"], post(lambda f, p: about(SC(f), p))),
        ("Transform2d", "rotate"): (["n"], post(RO)),
        ("Transform2d", "rotate_about"): (["n", "v"], post(lambda a, p: about(RO(a), p))),
        ("Transform2d", "shear_x"): (["n"], post(SX)),
        ("Transform2d", "shear_y"): (["n"], post(SY)),
        ("Transform2d", "simple_perspective_x"): (["n"], post(PX)),
        ("Transform2d", "simple_perspective_y"): (["n"], post(PY)),
        ("Transform2d", "perspective_x"): (["n", "v"], post(PFX)),
        ("Transform2d", "perspective_y"): (["n", "v"], post(PFY)),
        ("Transform2d", "inverse_perspective_x"): (["n", "v"], post(IPFX)),
        ("Transform2d", "inverse_perspective_y"): (["n", "v"], post(IPFY)),
        ("Transform2d", "compose"): (["t"], lambda s, o: t_of(mm(m_of(o), m_of(s)))),
        ("Transform2d", "compose_before"): (["t"], lambda s, o: t_of(mm(m_of(s), m_of(o)))),
        ("Transform2d", "transform_vec"): (["v"], lambda s, v: apply_m(m_of(s), v)),
        ("Transform2d", "transform_quad"): (["q"], lambda s, q: qmap(q, lambda p: apply_m(m_of(s), p))),
        ("Transform2d", "normalize"): ([], lambda s: R({k: (X(1) if k == "a22" else s[k] / (s.a22 + where(s.a22.eq(0), 1, 0))) for k in s})),
        ("", "perspective_approach"): (["n", "n"], lambda r, p: where(r.eq(1), p, (1 / mx(r + (1 - r) * p, 1e-6) - 1 / r) / (1 - 1 / r))),
        ("InvertibleTransform2d", "new"): ([], lambda s: R(forward=t_of(ident()), inverse=t_of(ident()))),
        ("InvertibleTransform2d", "translate"): (["v"], inv(TR, lambda d: TR(vk(d, -1)))),
        ("InvertibleTransform2d", "scale"): (["v"], inv(SC, lambda f: SC(V(1 / f.x, 1 / f.y)))),
        ("InvertibleTransform2d", "scale_about"): (["v", "v"], inv(lambda f, p: about(SC(f), p), lambda f, p: about(SC(V(1 / f.x, 1 / f.y)), p))),
        ("InvertibleTransform2d", "rotate"): (["n"], inv(RO, lambda a: RO(-a))),
        ("InvertibleTransform2d", "rotate_about"): (["n", "v"], inv(lambda a, p: about(RO(a), p), lambda a, p: about(RO(-a), p))),
        ("InvertibleTransform2d", "shear_x"): (["n"], inv(SX, lambda m: SX(-m))),
        ("InvertibleTransform2d", "shear_y"): (["n"], inv(SY, lambda m: SY(-m))),
        ("InvertibleTransform2d", "simple_perspective_x"): (["n"], inv(PX, lambda x: PX(-x))),
        ("InvertibleTransform2d", "simple_perspective_y"): (["n"], inv(PY, lambda x: PY(-x))),
        ("InvertibleTransform2d", "perspective_x"): (["n", "v"], inv(PFX, IPFX)),
        ("InvertibleTransform2d", "perspective_y"): (["n", "v"], inv(PFY, IPFY)),
        ("InvertibleTransform2d", "compose"): (["j"], lambda s, o: R(
            forward=t_of(mm(m_of(o.forward), m_of(s.forward))), inverse=t_of(mm(m_of(s.inverse), m_of(o.inverse))))),
        ("InvertibleTransform2d", "compose_before"): (["j"], lambda s, o: R(
            forward=t_of(mm(m_of(s.forward), m_of(o.forward))), inverse=t_of(mm(m_of(o.inverse), m_of(s.inverse))))),
        ("InvertibleTransform2d", "transform_vec"): (["v"], lambda s, v: apply_m(m_of(s.forward), v)),
        ("InvertibleTransform2d", "inverse_transform_vec"): (["v"], lambda s, v: apply_m(m_of(s.inverse), v)),
        ("InvertibleTransform2d", "transform_quad"): (["q"], lambda s, q: qmap(q, lambda p: apply_m(m_of(s.forward), p))),
        ("InvertibleTransform2d", "inverse_transform_quad"): (["q"], lambda s, q: qmap(q, lambda p: apply_m(m_of(s.inverse), p))),
    },
}
