"""Geometry and interval library: each public operation equals its closed-form meaning over the reals."""
from __future__ import annotations

import ast

from .. import core, real, spec_geom
from .. import terms as T
from ..pymods import MODS
from ..pyobj import ObjEval, fields, method
from ..spec_geom import R, X
from ..veval import Fn, Obj, PList, Unsupported

PK = "sonolus.script."
CLS = {"v": ("vec", "Vec2"), "q": ("quad", "Quad"), "r": ("quad", "Rect"), "t": ("transform", "Transform2d"),
       "i": ("interval", "Interval"), "j": ("transform", "InvertibleTransform2d")}


def cls_obj(mod, name):
    m = MODS[PK + mod]
    if name not in m.classes:
        raise core.Vanished(f"class {name} in {mod}")
    return Obj("class", mod=m, name=name, node=m.classes[name])


def symbolic(ev, c, prefix):
    """(instance, spec record) of a class with symbolic fields"""
    vals, spec = {}, R()
    for s in c.attrs["node"].body:
        if isinstance(s, ast.AnnAssign) and s.target.id in fields(c.attrs["node"]):
            a = ast.unparse(s.annotation).strip("'\"")
            n = s.target.id
            if a in ("float", "int", "bool", "Num"):
                vals[n] = T.var(f"{prefix}.{n}")
                spec[n] = X(vals[n])
            else:
                sub = ev.glob(a, c.attrs["mod"])
                vals[n], spec[n] = symbolic(ev, sub, f"{prefix}.{n}")
    return ev.inst(c, (), vals), spec


def arg(ev, kind, name):
    if isinstance(kind, int):
        return kind, kind
    if kind == "n":
        t = T.var(name)
        return t, X(t)
    if kind[0] in "nv" and kind[1:].isdigit():
        xs = [arg(ev, kind[0], f"{name}{i}") for i in range(int(kind[1:]))]
        return PList([x[0] for x in xs]), [x[1] for x in xs]
    return symbolic(ev, cls_obj(*CLS[kind]), name)


def leaves(path, got, want):
    """pairs of scalar terms; yields (path, got, want)"""
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            yield path, None, f"{sorted(got) if isinstance(got, dict) else got} instead of {sorted(want)}"
            return
        for k in want:
            yield from leaves(f"{path}.{k}", got[k], want[k])
    elif isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            yield path, None, "a different shape"
            return
        for i, (g, w) in enumerate(zip(got, want)):
            yield from leaves(f"{path}[{i}]", g, w)
    else:
        yield path, got, X(want).t


def compare(got, want):
    """(cells, None | (message, cell))"""
    n, bad = real.compare_real(T.tonum(got), T.tonum(want))
    if bad:
        return n, (f"computes {T.show(bad[0])}, should be {T.show(bad[1])}", bad[2])
    return n, None


def run(rep):
    for key, rid in (("vec", "VEC"), ("interval", "INTERVAL"), ("quad", "QUAD"), ("transform", "TRANSFORM")):
        rep.rule(rid, f"every operation of sonolus/script/{key}.py equals its closed form over the reals, field by field")
        m = MODS[PK + key]
        rep.files.add(m.rel)
        for (cn, name), (kinds, spec) in spec_geom.SPEC[key].items():
            base = name.split("/")[0]
            ev = ObjEval()
            where = f"{cn + '.' if cn else ''}{name}"
            if cn:
                c = cls_obj(key, cn)
                mm = method(c.attrs["node"], base)
                if mm is None:
                    rep.undecided(rid, f"{where} is not defined")
                    continue
                node = mm[0]
                if mm[1] == "class":
                    me, sme = c, None
                else:
                    me, sme = symbolic(ev, c, "self")
                fn, lead = Fn(node, m, None, me), [sme]
            else:
                node = m.funcs.get(base)
                if node is None:
                    rep.undecided(rid, f"{where} is not defined")
                    continue
                fn, lead = Fn(node, m), []
            args = [arg(ev, k, f"arg{i}") for i, k in enumerate(kinds)]
            want = spec(*lead, *[a[1] for a in args])
            outs = []

            def ret(v, s):
                outs.append(ev.freeze(v, s))
                return ("leaf", len(outs) - 1)
            try:
                g = ev.call_fn(fn, [a[0] for a in args], {}, {}, ret, lambda k, s: ("raise", k))
            except (Unsupported, T.Limit, KeyError, AttributeError, TypeError) as e:
                rep.undecided(rid, f"cannot follow {where}: {e!r}")
                continue
            rep.did(rid, where)
            msg = None
            try:
                for path, w in list(paths("", want)):
                    t = project(g, outs, path)
                    if isinstance(t, str):
                        msg = t
                        break
                    _n, bad = compare(t, w)
                    if bad:
                        msg = f"result{path} {bad[0]} when {bad[1]}"
                        break
            except (T.Limit, real.NoForm) as e:
                rep.undecided(rid, f"{where}: {e}")
                continue
            if msg:
                rep.find(rid, m.rel, node.lineno, where, msg[:900])
    rep.need("VEC", 20)
    rep.need("INTERVAL", 20)
    rep.need("QUAD", 30)
    rep.need("TRANSFORM", 30)


def paths(path, want):
    if isinstance(want, dict):
        for k in want:
            yield from paths(f"{path}.{k}", want[k])
    elif isinstance(want, list):
        for i, w in enumerate(want):
            yield from paths(f"{path}[{i}]", w)
    else:
        yield path, X(want).t


def project(g, outs, path):
    """the gated scalar at `path` of a gated result"""
    if g[0] == "ite":
        a, b = project(g[2], outs, path), project(g[3], outs, path)
        if isinstance(a, str) or isinstance(b, str):
            return a if isinstance(a, str) else b
        return T.ite(g[1], a, b)
    if g[0] == "raise":
        return ("raise",)
    v = outs[g[1]]
    import re
    for part in re.findall(r"\.(\w+)|\[(\d+)\]", path):
        if part[0]:
            if not isinstance(v, dict) or part[0] not in v:
                return f"has no {path}"
            v = v[part[0]]
        else:
            if not isinstance(v, list) or int(part[1]) >= len(v):
                return f"has no {path}"
            v = v[int(part[1])]
    if not isinstance(v, (tuple, int, float, bool)):
        return f"has no number at {path or 'the top'}"
    return T.tonum(v)
