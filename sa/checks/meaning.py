"""Functions of the library against reference models of their behaviour (sa/ref/*.py), compared as transition systems."""
from __future__ import annotations

import ast
import builtins
import datetime as _dt
import functools
import itertools
import gc
import math
import random
import keyword
import os
import pathlib
import pickle
import re
import resource
import signal
import struct
import tempfile

from .. import core, lockstep as LS, opaque as O, terms as T
from ..pymods import MODS
from ..veval import Mod, Unsupported

REF = pathlib.Path(__file__).parent.parent / "ref"
_refs = {}


def refmod(name):
    if name not in _refs:
        _refs[name] = Mod("ref." + name, ast.parse((REF / f"{name}.py").read_text()))
    return _refs[name]


def code_mod(rel):
    if rel.endswith(".pyx"):
        return Mod(rel, core.cytree(rel))
    dotted = rel[:-3].replace("/", ".").removesuffix(".__init__")
    return MODS[dotted] if dotted in MODS else Mod(dotted, core.pytree(rel))


def find(mod, qual):
    """(class or None, function) of a qualified name"""
    parts = qual.split(".")
    if len(parts) == 1:
        return None, mod.funcs.get(qual)
    cls = mod.classes.get(parts[0])
    for p in parts[1:-1]:
        cls = next((s for s in cls.body if isinstance(s, ast.ClassDef) and s.name == p), None) if cls is not None else None
    if cls is None:
        return None, None
    fn = [m for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == parts[-1]]
    if len(fn) > 1:
        # property with setter: "name" is the getter, "name=" the setter
        fn = [m for m in fn if not any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in m.decorator_list)]
    if not fn and parts[-1].endswith("="):
        fn = [m for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == parts[-1][:-1]
              and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in m.decorator_list)]
    return cls, (fn[0] if fn else None)


def abstract(m):
    """a declaration: nothing but a docstring, pass or an ellipsis, or marked abstract"""
    if any("abstractmethod" in ast.unparse(d) for d in m.decorator_list):
        return True
    return all(isinstance(x, ast.Pass) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) for x in m.body)


def methods_of(mod, cls, seen=()):
    """methods of a class, own before inherited (bases of the same module or an imported one of the package)"""
    out = {}
    if cls is None:
        return out
    for m in cls.body:
        if isinstance(m, ast.FunctionDef) and not abstract(m) and not any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in m.decorator_list):
            out[m.name] = m
    for b in cls.bases:
        n = b.value if isinstance(b, ast.Subscript) else b
        if isinstance(n, ast.Name) and n.id in mod.classes and n.id not in seen:
            for k, v in methods_of(mod, mod.classes[n.id], (*seen, n.id)).items():
                out.setdefault(k, v)
    return out


def defaults(fn):
    a = fn.args
    pos = [*a.posonlyargs, *a.args]
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[pos.index(p)] = ast.unparse(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out[p.arg] = None if d is None else ast.unparse(d)
    return out


def kinds(fn):
    return {d.id for d in fn.decorator_list if isinstance(d, ast.Name)} & {"property", "classmethod", "staticmethod"}


def all_symbols(mod):
    """the words the reference is written in"""
    out = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Attribute):
            out |= {"." + n.attr, "." + n.attr + "()", n.attr + "()"}
        elif isinstance(n, ast.Name):
            out |= {"g:" + n.id, n.id + "()", n.id}
        elif isinstance(n, ast.FunctionDef):
            out |= {n.name + "()", "." + n.name + "()"}
    return out


@functools.lru_cache(None)
def own_names():
    """names the package itself defines: another one of them in a place is another meaning, not another way to write it"""
    out = set()
    for f in sorted((core.VERIF / "sa" / "ref").glob("*.py")):
        for n in ast.walk(ast.parse(f.read_text())):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                if isinstance(n, ast.ClassDef):
                    out |= {t.id for s in n.body for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []) if isinstance(t, ast.Name)}
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
    theirs = {n for t in (str, bytes, int, float, list, tuple, dict, set, frozenset, range, object, type) for n in dir(t)} | set(dir(builtins)) | set(keyword.kwlist)
    return frozenset(out - theirs) | {"__contains__"}


LIBRARY = {n for t in (str, bytes, int, float, list, dict, set, pathlib.Path, math, itertools, random, functools, _dt.datetime, re.compile("")) for n in dir(t) if not n.startswith("_")}
SAME = [{"remove", "discard"}, {"index", "find"}, {"rindex", "rfind"}, {"lower", "casefold"}, {"isdigit", "isdecimal", "isnumeric"}, {"abs", "fabs"}, {"update", "union"},
        {"exists", "is_file", "is_dir"}, {"intersection", "intersection_update"}, {"add", "append"}, {"read_bytes", "read_text"}]


def swapped(t, want):
    """the one word of the library that stands where the meaning has another one, everything else being the same"""
    a, b = LS.symbols(t, set()), LS.symbols(want, set())
    if len(a - b) != 1 or len(b - a) != 1:
        return False
    (x,), (y,) = a - b, b - a
    p, q = (w.lstrip(".").removesuffix("()") for w in (x, y))
    if not ({p, q} <= LIBRARY and x.replace(p, "") == y.replace(q, "")) or any({p, q} <= s for s in SAME):
        return False

    def sub(n):
        if isinstance(n, tuple):
            return ("line",) if n[:1] == ("line",) else tuple(sub(v) for v in n)
        if isinstance(n, str) and n.split("#")[0] == x:
            return y + n[len(x):]
        return n
    return sub(t) == sub(want)


def known_words(t, words, want=()):
    here = LS.symbols(want, set())
    if swapped(t, want):
        return None
    for s in LS.symbols(t, set()):
        if s in here:
            continue
        s0 = s.split("#")[0]
        if s0 in words or s0 in LS.COMMON or s0.replace("()", "") in LS.COMMON:
            continue
        if s0.startswith(("#", "k:", "%")) or re.match(r"a\d+(\(\))?$", s0):
            continue
        if s0.startswith(".") and s0.removesuffix("()")[1:] in own_names():
            continue
        return s
    return None


def verdict(cm, rm, rel, qual, rqual=None, words=None, expand=(), **kw):
    """("held",) | ("differs", line, text) | ("open", text) for one function and its model"""
    rqual = rqual or qual
    rcls, rfn = find(rm, rqual)
    assert rfn is not None, (rm.name, rqual)
    cls, fn = find(cm, qual)
    if fn is None:
        return ("open", f"{qual} is not in {rel}")
    words = words or all_symbols(rm)
    trouble = (Unsupported, T.Limit, RecursionError, KeyError, IndexError, TypeError, AttributeError, MemoryError, AssertionError, ValueError, OverflowError)
    once = []

    def attempt(kw):
        n0 = LS.ONCE[0]
        b = LS.build(rm, rfn, rcls, methods=methods_of(rm, rcls), **kw)
        n = LS.ONCE[0]
        a = LS.build(cm, fn, cls, methods=methods_of(cm, cls), **kw)
        once.append((n - n0, LS.ONCE[0] - n))
        def calm():
            kw2 = {**kw, "calm": LS.MUTATORS | LS.acts(rm)}
            return LS.build(cm, fn, cls, methods=methods_of(cm, cls), **kw2), LS.build(rm, rfn, rcls, methods=methods_of(rm, rcls), **kw2)
        return LS.compare(a, b, odd=lambda t, w: known_words(t, words, w), calm=calm)[0]
    def bounded(r):
        """a difference in the shape of the loops: the first times round of every loop, one after the other"""
        done, soft = 0, False
        for n in (1, 2, 3):
            try:
                u = attempt({**kw, "unroll": n})
            except trouble:
                break
            if u is None:
                done = n
            elif not u.soft:
                return u
            soft |= u is not None
        if done < 2 or soft:
            if r != "?":
                r.soft |= done > 0 or soft
            return r
        bound.append(done)
        return None
    bound = []
    try:
        if os.environ.get("VERIF_UNROLL"):
            r = bounded("?")
            return ("held",) if r is None else ("open", "?") if r == "?" else ("differs", 0, f"{qual} {r.what}: {LS.show(r.got)} | {LS.show(r.want)}")
        try:
            r = attempt(kw)
        except (T.Limit, RecursionError):
            # too large with every helper expanded: calls both sides know stay calls
            r = attempt({**kw, "opaque": tuple({*kw.get("opaque", ()), *({_simple(q) for q in functions(rm)} & {_simple(q) for q in functions(cm)} - set(expand))})})
    except trouble as u:
        return ("open", f"{qual}: {type(u).__name__} {str(u)[:120]}")
    if r is not None and not r.why and (r.soft or r.shape):
        r = bounded(r)
    elif r is not None and not r.why and r.loops and bounded(r) is None and bound[-1] >= 3:
        r.soft, r.what = True, "not seen the first times round: " + r.what
    if r is None:
        da, db = defaults(fn), defaults(rfn)
        if da != db and len(fn.args.args) == len(rfn.args.args):
            bad = [k for k in db if k in da and da[k] != db[k]]
            simple = [k for k in bad if all(_const(x) for x in (da[k], db[k]))]
            if simple:
                return ("differs", fn.lineno, f"the default of parameter {simple[0]} is {da[simple[0]]}, the meaning has {db[simple[0]]}")
        if kinds(fn) != kinds(rfn):
            return ("open", f"{qual}: decorators {sorted(kinds(fn))}")
        return ("held",)
    if r.soft and not r.why and once[-1][1] > once[-1][0] and {"loop"} & {r.want[0]}:
        r.soft, r.what = False, "a loop never goes round again: " + r.what
    if r.soft:
        return ("open", f"{qual}: {r.what} ({'uses ' + str(r.why) if r.why else 'loop shape'})")
    where = LS.describe(r.facts) if r.facts is not None else ""
    return ("differs", r.line or fn.lineno, f"{r.what}: code {LS.show(r.got)} | meaning {LS.show(r.want)}" + (f" | when {where[:300]}" if where else ""))


def functions(mod):
    """qualified names of the functions of a module, nested classes included, property setters as "name=" """
    out = list(mod.funcs)

    def walk(cls, pre):
        for m in cls.body:
            if isinstance(m, ast.FunctionDef):
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in m.decorator_list):
                    out.append(f"{pre}.{m.name}=")
                elif not any(isinstance(d, ast.Attribute) and d.attr in ("deleter", "overload") or isinstance(d, ast.Name) and d.id == "overload" for d in m.decorator_list):
                    out.append(f"{pre}.{m.name}")
            elif isinstance(m, ast.ClassDef):
                walk(m, f"{pre}.{m.name}")
    for n, c in mod.classes.items():
        walk(c, n)
    return list(dict.fromkeys(out))


def _simple(q):
    return q.split(".")[-1].rstrip("=")


def _private(q):
    n = _simple(q)
    return n.startswith("_") and not n.endswith("_")


def _params(fn):
    a = fn.args
    return ([p.arg for p in [*a.posonlyargs, *a.args]], sorted(p.arg for p in a.kwonlyargs), a.vararg is not None, a.kwarg is not None)


def _names(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)}


def _calls(fn, name):
    return any((isinstance(n, ast.Name) and n.id == name) or (isinstance(n, ast.Attribute) and n.attr == name) for n in ast.walk(fn))


def _expands(fn, name):
    """every use of the name in the function is a call the analysis expands"""
    calls = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == name and id(n) not in calls:
            return False
        if isinstance(n, ast.Attribute) and n.attr == name and not (id(n) in calls and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
            return False
    return True


def _elsewhere(rel, name):
    pat = re.compile(rf"\b{re.escape(name)}\b")
    return any(pat.search(p.read_text()) for p in (core.ROOT / "sonolus").rglob("*.py*") if p.suffix in (".py", ".pyx", ".pxd") and str(p.relative_to(core.ROOT)) != rel)


def group(rep, rid, rel, ref, quals=None, skip=(), stay_closed=False, limit=110, **kw):
    """every function of a reference module (or the named ones), in parallel.

    stay_closed: calls between functions both sides have are compared as calls; helpers only one side has are expanded.
    A private helper that differs is reported unless every caller still means the same with the helper expanded.
    """
    rm, cm = refmod(ref) if isinstance(ref, str) else ref, code_mod(rel)
    rep.files.add(rel)
    names = [q for q in (quals if quals is not None else functions(rm)) if q not in skip]
    names = list(dict.fromkeys(names))
    words = all_symbols(rm)
    changed = set()
    for q in names:
        f, g = find(cm, q)[1], find(rm, q)[1]
        if f is not None and _params(f) != _params(g):
            changed.add(q)
    if stay_closed:
        have = {_simple(q) for q in functions(cm)}
        closed = ({_simple(q) for q in functions(rm)} & have) - {_simple(q) for q in changed if _private(q)} | set(kw.pop("opaque", ()))
        kw["opaque"] = tuple(closed)
    skipped = {q for q in changed if _private(q)}
    tasks = [q for q in names if q not in skipped]
    size = {q: len(ast.dump(find(rm, q)[1])) for q in tasks}
    tasks.sort(key=lambda q: -size[q])
    res = dict(zip(tasks, parallel(lambda q: verdict(cm, rm, rel, q, words=words, **kw), tasks, limit)))
    for q in [q for q in tasks if res[q][0] == "differs" and _private(q)]:
        n = _simple(q)
        users = [u for u in functions(rm) if u != q and find(cm, u)[1] is not None and (_calls(find(rm, u)[1], n) or _calls(find(cm, u)[1], n))]
        if not users or not all(_expands(find(m, u)[1], n) for u in users for m in (cm, rm)) or n in kw.get("pure", ()) or _elsewhere(rel, n):
            continue
        kw2 = {**kw, "opaque": tuple(x for x in kw.get("opaque", ()) if x != n)}
        again = parallel(lambda u: verdict(cm, rm, rel, u, words=words, expand=(n,), **kw2), users, limit)
        if all(r[0] == "held" for r in again):
            res[q] = ("held",)
            rep.notes.append(f"{q}: differs from its model, no caller does")
    for q in skipped:
        n, f, g = _simple(q), find(cm, q)[1], find(rm, q)[1]
        users = [u for u in functions(rm) if u != q and find(cm, u)[1] is not None and (_calls(find(rm, u)[1], n) or _calls(find(cm, u)[1], n) or n in _names(find(cm, u)[1]))]
        far = [u for u in users if not all(_expands(find(m, u)[1], n) for m in (cm, rm))]
        if far and [len(x) if isinstance(x, list) else x for x in _params(f)] == [len(x) if isinstance(x, list) else x for x in _params(g)]:
            # handed on to others, with its arguments in the order they always had: it must mean the same by position
            kw2 = {**kw, "opaque": tuple({*kw.get("opaque", ()), n})}
            now = parallel(lambda u: verdict(cm, rm, rel, u, words=words, **(kw2 if u != q else kw)), [q, *far], limit)
            if now[0][0] == "differs" and all(r[0] == "held" for r in now[1:]):
                res[q] = now[0]
                continue
            if now[0][0] == "open":
                res[q] = now[0]
                continue
        rep.notes.append(f"{q}: signature changed, expanded into its callers")
    for q in names:
        if q not in res:
            continue
        r = res[q]
        if r[0] == "open":
            rep.undecided(rid, r[1])
            continue
        rep.did(rid, f"{rel}:{q}", 1)
        if r[0] == "differs":
            rep.find(rid, rel, r[1], q, r[2])


def parallel(f, tasks, limit, width=8):
    """results of f over the tasks in forked workers; a task that dies or runs over its limit has no answer"""
    if not tasks:
        return []
    if os.environ.get("VERIF_SERIAL"):
        return [f(t) for t in tasks]
    r, w = os.pipe()
    out = [tempfile.TemporaryFile() for _ in range(min(width, len(tasks)))]
    for i in range(len(tasks)):
        os.write(w, struct.pack("<I", i))
    os.close(w)
    gc.collect()
    gc.freeze()
    pids = []
    for o in out:
        pid = os.fork()
        if pid == 0:
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                signal.signal(signal.SIGALRM, _late)
                while True:
                    b = os.read(r, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack("<I", b)[0]
                    pickle.dump((i, None), o)
                    o.flush()
                    try:
                        signal.alarm(limit)
                        v = f(tasks[i])
                    except _Late:
                        v = ("open", f"{tasks[i]}: not decided within {limit} s")
                    finally:
                        signal.alarm(0)
                    pickle.dump((i, v), o)
                    o.flush()
            except BaseException:  # noqa: BLE001
                import traceback
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        pids.append(pid)
    os.close(r)
    for p in pids:
        os.waitpid(p, 0)
    gc.unfreeze()
    res = {}
    for o in out:
        o.seek(0)
        while True:
            try:
                i, v = pickle.load(o)
            except EOFError:
                break
            if v is not None:
                res[i] = v
        o.close()
    return [res.get(i, ("open", f"{t}: the analysis died")) for i, t in enumerate(tasks)]


class _Late(BaseException):
    pass


def _late(*_a):
    raise _Late()


def declarations(rep, rid, rel, ref, skip=()):
    """module constants, class attributes, field order and decorators against the model"""
    rm, cm = refmod(ref) if isinstance(ref, str) else ref, code_mod(rel)
    rep.files.add(rel)
    words = all_symbols(rm)

    def pair(what, where, x, y, line):
        rep.did(rid, f"{rel}:{where}", 1)
        if x is None and y is None or x is not None and y is not None and ast.dump(x) == ast.dump(y):
            return
        if x is None or y is None:
            rep.undecided(rid, f"{where}: {what}")
            return
        if all(_const(ast.unparse(e)) for e in (x, y)):
            a, b = ast.literal_eval(x), ast.literal_eval(y)
            if a != b or type(a) is not type(b):
                rep.find(rid, rel, line, where, f"{what}: code {ast.unparse(x)[:120]} | meaning {ast.unparse(y)[:120]}")
            return
        try:
            ta, tb = (LS.build(m, _as_fn(e)) for m, e in ((cm, x), (rm, y)))
            r, _n = LS.compare(ta, tb, odd=lambda t, w: known_words(t, words, w))
        except (Unsupported, T.Limit, RecursionError, KeyError, IndexError, TypeError, AttributeError) as u:
            rep.undecided(rid, f"{where}: {what} {u}")
            return
        if r is not None and r.soft:
            rep.undecided(rid, f"{where}: {what}")
        elif r is not None:
            rep.find(rid, rel, line, where, f"{what}: code {LS.show(r.got)} | meaning {LS.show(r.want)}")

    def assigns(body):
        out = {}
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                out[s.targets[0].id] = (s.value, None, s.lineno)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and (s.value is not None or s.target.id not in out):
                out[s.target.id] = (s.value, s.annotation, s.lineno)
        return out

    def body(a, b, pre, where_cls):
        xs, ys = assigns(a), assigns(b)
        gone = [n for n in ys if n not in xs]
        for n in gone:
            rep.undecided(rid, f"{pre}{n} is gone")
        for n, (v, ann, _l) in ys.items():
            if n in xs and n not in skip and pre + n not in skip:
                pair("the initial value", pre + n, xs[n][0], v, xs[n][2])
                if ann is not None and xs[n][1] is not None and where_cls and ast.dump(xs[n][1]) != ast.dump(ann):
                    if all(set(_names(z)) <= words_plain for z in (xs[n][1], ann)):
                        rep.find(rid, rel, xs[n][2], pre + n, f"the declared type: code {ast.unparse(xs[n][1])} | meaning {ast.unparse(ann)}")
                    else:
                        rep.undecided(rid, f"{pre}{n}: declared type")
        if where_cls:
            fx, fy = [n for n, v in xs.items() if v[1] is not None], [n for n, v in ys.items() if v[1] is not None]
            rep.did(rid, f"{rel}:{pre} field order", 1)
            cx, cy = [n for n in fx if n in fy], [n for n in fy if n in fx]
            if cx != cy:
                i = next(i for i, (p, q) in enumerate(zip(cx, cy)) if p != q)
                rep.find(rid, rel, xs[cx[i]][2], pre.rstrip("."), f"field order: {cx[i]} stands where the meaning has {cy[i]}")

    words_plain = {w for w in words if not w.startswith((".", "g:")) and "(" not in w} | {"int", "float", "bool", "str", "list", "dict", "tuple", "set", "None", "Any"} | _ann_words(rm)
    body(cm.tree.body, rm.tree.body, "", False)

    def classes(a, b, pre):
        for n, c in b.items():
            if n not in a:
                rep.undecided(rid, f"{pre}{n} is gone")
                continue
            body(a[n].body, c.body, f"{pre}{n}.", True)
            classes({s.name: s for s in a[n].body if isinstance(s, ast.ClassDef)}, {s.name: s for s in c.body if isinstance(s, ast.ClassDef)}, f"{pre}{n}.")
            decorators(a[n], c, f"{pre}{n}")

    def decorators(f, g, where):
        x, y = [ast.unparse(d) for d in f.decorator_list], [ast.unparse(d) for d in g.decorator_list]
        rep.did(rid, f"{rel}:{where} decorators", 1)
        if x == y:
            return
        known = all(_names(d) <= words_plain | {"property", "classmethod", "staticmethod"} for d in f.decorator_list)
        if known and sorted(x) != sorted(y):
            rep.find(rid, rel, f.lineno, where, f"decorators: code {x} | meaning {y}")
        else:
            rep.undecided(rid, f"{where}: decorators {x}")
    classes(cm.classes, rm.classes, "")
    for q in functions(rm):
        f, g = find(cm, q)[1], find(rm, q)[1]
        if f is not None:
            decorators(f, g, q)


def _names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def _ann_words(mod):
    return {w for n in ast.walk(mod.tree) if isinstance(n, ast.AnnAssign) for w in _names(n.annotation)} | {
        w for n in ast.walk(mod.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) for d in n.decorator_list for w in _names(d)}


def _as_fn(e):
    f = ast.parse("def _value():\n    return 0").body[0]
    f.body[0].value = e
    return f


def area(rep, rid, rel, ref, decls=True, **kw):
    """the functions and the declarations of one module"""
    group(rep, rid, rel, ref, **kw)
    if decls:
        declarations(rep, rid, rel, ref)


def _const(s):
    try:
        ast.literal_eval(s)
        return True
    except (ValueError, SyntaxError):
        return False


PURE = {"ctx", "mro", "_is_py_", "_as_py_", "_accept_", "type_var_value", "element_type", "_size_", "_is_value_type_", "get_positive_index",
        "clamp", "zeros", "len"}


def containers(rep):
    rep.rule("containers", "every operation of VarArray, ArraySet, ArrayMap, FrozenNumSet, ArrayPointer, Pair and of linked entity sorting "
             "reaches, under the same conditions, the same result and the same sequence of element and size updates as its model")
    rep.rule("array_like", "every operation of ArrayLike (search, count, extrema, sorting, swapping, reversing, iteration, index normalisation) "
             "agrees with its model on every path")
    group(rep, "containers", "sonolus/script/containers.py", "containers", pure=PURE, opaque=("_merge_linked_list_nodes", "_merge_sort_linked_list_nodes"))
    group(rep, "array_like", "sonolus/script/array_like.py", "array_like", pure=PURE)
    rep.need("containers", 60)
    rep.need("array_like", 30)


S, I = "sonolus/script/", "sonolus/script/internal/"


def storage(rep):
    rep.rule("functions", "every function that lays out, reads, writes, copies, allocates or zeroes a value reaches the same result and the "
             "same effects as its model on every path")
    rep.rule("declarations", "the fields, constants, tables and decorators of these modules are those of the model")
    for m, p in (("record", S), ("array", S), ("values", S), ("pointer", S), ("globals", S), ("value", I), ("transient", I)):
        group(rep, "functions", p + m + ".py", m, pure=PURE)
        declarations(rep, "declarations", p + m + ".py", m)
    ops = {"num_op"}
    group(rep, "functions", S + "num.py", "num", pure=PURE, quals=[q for q in functions(refmod("num")) if not q.split(".")[-1].startswith("__") and q not in ops])
    declarations(rep, "declarations", S + "num.py", "num")


    _also(rep, [(I + "context.py", "context", ("Context.check_readable", "Context.check_writable", "Context._is_block_accessible", "Context.is_readable", "Context.is_writable", "Context.alloc",
                                               "Context.get_global_base"))])


def comptime(rep):
    rep.rule("functions", "every operation on compile-time containers, constants and type arguments reaches the same result and the same "
             "effects as its model on every path")
    rep.rule("declarations", "the fields, constants, tables and decorators of these modules are those of the model")
    for m, p in (("maybe", S), ("generic", I), ("constant", I), ("tuple_impl", I), ("dict_impl", I), ("set_impl", I), ("impl", I), ("descriptor", I), ("introspection", I)):
        group(rep, "functions", p + m + ".py", m, pure=PURE)
        declarations(rep, "declarations", p + m + ".py", m)


def _areas(rep, pairs, pure=PURE, **kw):
    rep.rule("functions", "every function of these modules reaches the same result and the same effects as its model on every path")
    rep.rule("declarations", "the fields, constants, tables and decorators of these modules are those of the model")
    for m, p in pairs:
        group(rep, "functions", p + m + ".py", m, pure=pure, **kw)
        declarations(rep, "declarations", p + m + ".py", m)


def visitor(rep):
    _areas(rep, [("visitor", I)], stay_closed=True)
    _also(rep, [(I + "context.py", "context", ("Scope.*", "Context.meet", "Context.prepare_loop_header", "Context.branch_to_loop_header", "Context.branch", "Context.branch_with_scope",
                                               "Context.new_disconnected", "Context.new_empty_disconnected", "Context.into_dead", "Context.copy_with_scope"))])


def context(rep):
    _areas(rep, [("context", I), ("meta_fn", I), ("native", I), ("callbacks", I), ("simulation_context", I)])


def archetype(rep):
    _areas(rep, [("archetype", S)], stay_closed=True)
    _also(rep, [(I + "callbacks.py", "callbacks", ("*",))])
    declarations(rep, "declarations", I + "callbacks.py", "callbacks")
    _also(rep, [(I + "context.py", "context", ("ModeContextState.__init__", "ModeContextState._init_archetype_mro_info", "Context.register_archetype", "Context.get_archetype_mro_id_array"))])


def streams(rep):
    _areas(rep, [("stream", S)])


def iteration(rep):
    _areas(rep, [("iterator", S), ("range", I), ("random", I), ("builtin_impls", I), ("math_impls", I)])


def resources(rep):
    _areas(rep, [(m, S) for m in "sprite effect particle instruction bucket options ui metadata text engine project".split()])
    _also(rep, [(B + "engine.py", "build_engine", ("build_engine_configuration", "build_skin", "build_effects", "build_particles", "build_buckets", "build_instructions"))])


def runtime_api(rep):
    _areas(rep, [(m, S) for m in "runtime level debug printing".split()])
    _also(rep, [(B + "level.py", "build_level", ("*",))])
    _also(rep, [(S + "archetype.py", "archetype", ("_BaseArchetype._level_data_entries",))], stay_closed=True)


def numeric(rep):
    _areas(rep, [(m, S) for m in "numtools interval timing easing".split()])


B = "sonolus/build/"


def _named(rep, pairs, **kw):
    """modules whose model has another name than the module"""
    rep.rule("functions", "every function of these modules reaches the same result and the same effects as its model on every path")
    rep.rule("declarations", "the fields, constants, tables and decorators of these modules are those of the model")
    for rel, ref, skip in pairs:
        quals = [q for q in functions(refmod(ref)) if q not in skip]
        group(rep, "functions", rel, ref, quals=quals, **kw)
        declarations(rep, "declarations", rel, ref)


def _also(rep, pairs, **kw):
    """single functions of other modules that take part in this property"""
    for rel, ref, names in pairs:
        known = functions(refmod(ref))
        quals = [q for q in known if any(q == n or (n.endswith("*") and q.startswith(n[:-1])) for n in names)]
        assert quals, (rel, names)
        group(rep, "functions", rel, ref, quals=quals, pure=PURE, **kw)


def packaging(rep):
    _also(rep, [(S + "archetype.py", "archetype", ("_BaseArchetype._level_data_entries", "_BaseArchetype.schema"))], stay_closed=True)
    _also(rep, [("sonolus/backend/_opt/driver.pyx", "opt_driver", ("compile_mode",))], stay_closed=True)
    _named(rep, [(B + f"{m}.py", "build_" + m, ()) for m in ("engine", "level", "node", "compile")])
    rep.need("functions", 27)


def collection(rep):
    _named(rep, [(B + "collection.py", "build_collection", ()), (B + "project.py", "build_project", ()),
                 (B + "dev_server.py", "build_dev_server", ("command_input_thread",)), (B + "cli.py", "build_cli", ("main",))])
    _also(rep, [(S + "project.py", "project", ("*",))])
    rep.need("functions", 50)


OPT = "sonolus/backend/_opt/"


def _opt(rep, names, **kw):
    rep.rule("functions", "every function of these modules reaches the same result and the same effects (arena and table writes, calls) as its model on every path")
    rep.rule("declarations", "the constants, tables and fields of these modules are those of the model")
    for n in names:
        group(rep, "functions", OPT + n + ".pyx", "opt_" + n, stay_closed=True, limit=280, **kw)
        declarations(rep, "declarations", OPT + n + ".pyx", "opt_" + n)


def opt_ir(rep):
    _opt(rep, ["ir", "analysis"])
    _also(rep, [("sonolus/backend/optimize/flow.py", "backend_flow", ("_edge_sort_key", "_ordered_edges", "traverse_*", "FlowEdge.*", "BasicBlock.*"))], stay_closed=True)
    rep.need("functions", 80)


def opt_midend(rep):
    _opt(rep, ["midend"])
    _also(rep, [(OPT + "analysis.pyx", "opt_analysis", ("compute_dominators", "_dom_intersect", "Dominators.dominates", "compute_loops", "LoopForest.in_loop", "LoopForest.crosses_loop"))], stay_closed=True, limit=280)
    rep.need("functions", 140)


def opt_lower(rep):
    _opt(rep, ["lower"])
    _also(rep, [(OPT + "analysis.pyx", "opt_analysis", ("_gen_value", "_gen_place_write", "compute_liveness"))], stay_closed=True, limit=280)
    rep.need("functions", 75)


def backend(rep):
    _named(rep, [("sonolus/backend/optimize/flow.py", "backend_flow", ()), ("sonolus/backend/optimize/__init__.py", "backend_init", ()),
                 ("sonolus/backend/optimize/profiling.py", "backend_profiling", ()), *[(f"sonolus/backend/{m}.py", "backend_" + m, ()) for m in
                 ("blocks", "excepthook", "interpret", "ir", "mode", "node", "place", "utils")], (OPT + "driver.pyx", "opt_driver", ())], stay_closed=True)
    rep.need("functions", 165)
