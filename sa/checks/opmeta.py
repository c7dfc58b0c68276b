"""Operator metadata: one source of truth, and never more permissive than what the operator does."""
from __future__ import annotations

import ast
import re

from .. import core, spec_ops as S
from . import fold
from .natives import natives

PXD = "sonolus/backend/_opt/_ops_gen.pxd"
HDR = "sonolus/backend/_opt/_ops_gen.h"
GEN = "tools/gen_ops.py"
SYN = ["PHI", "CONST", "GET", "SET", "UNDEF"]


def header():
    txt = core.text(HDR)
    out = {}
    for m in re.finditer(r"(\w+)\s*\[[^\]]*\]\s*=\s*\{([^}]*)\}", txt, re.S):
        vals = [v.strip() for v in m.group(2).split(",") if v.strip()]
        out[m.group(1)] = ([v.strip('"') if v.startswith('"') else int(v) for v in vals], txt[: m.start()].count("\n") + 1)
    return out


def enum_ids():
    t = core.cytree(PXD)
    out = {}
    nxt = 0
    for n in ast.walk(t):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, ast.Name) and tg.id.startswith(("OP_", "OPX_")):
                if isinstance(n.value, ast.Constant):
                    nxt = n.value.value
                out[tg.id] = nxt
                nxt += 1
    return out


# ---------------------------------------------------------------- effects of the interpreter's branches
class Effects:
    def __init__(self):
        self.t = core.pytree(fold.INT)
        self.cls = next((n for n in self.t.body if isinstance(n, ast.ClassDef) and n.name == "Interpreter"), None)
        if self.cls is None:
            raise core.Vanished("class Interpreter")
        self.methods = {m.name: m for m in self.cls.body if isinstance(m, ast.FunctionDef)}
        self.funcs = {m.name: m for m in self.t.body if isinstance(m, ast.FunctionDef)}
        self.memo = {}

    def of(self, nodes, depth=0):
        eff = set()
        for root in nodes:
            for n in ast.walk(root):
                if isinstance(n, ast.Raise) and n.exc is not None and "Break" in ast.unparse(n.exc):
                    eff.add("control")
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                if isinstance(f, ast.Attribute):
                    b = ast.unparse(f.value)
                    if b == "self" and f.attr in self.methods:
                        if f.attr == "run":
                            continue
                        eff |= self.fn(self.methods[f.attr], f.attr, depth)
                    elif b == "random" or b.startswith("random."):
                        eff.add("chance")
                    elif b.startswith("self.") and f.attr in ("append", "extend", "insert", "pop", "clear", "update", "setdefault"):
                        eff.add("write")
                elif isinstance(f, ast.Name) and f.id in self.funcs:
                    eff |= self.fn(self.funcs[f.id], f.id, depth)
        return eff

    def fn(self, f, name, depth):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = set()
        if depth > 8:
            return set()
        eff = set()
        # memory primitives: stores/loads through self.blocks
        for n in ast.walk(f):
            if isinstance(n, ast.Subscript) and ast.unparse(n.value).startswith("self."):
                if isinstance(n.ctx, ast.Store) and ast.unparse(n).count("[") > 1:
                    eff.add("write")
                elif isinstance(n.ctx, ast.Load) and ast.unparse(n).count("[") > 1:
                    eff.add("read")
        eff |= self.of(f.body, depth + 1)
        self.memo[name] = eff
        return eff

    def branches(self):
        """op name -> (effects, line), from `case Op.X:` and from dict registries keyed by Op"""
        out = {}
        run = self.methods.get("run")
        if run is None:
            raise core.Vanished("Interpreter.run")
        for n in ast.walk(run):
            if isinstance(n, ast.Match):
                for c in n.cases:
                    for p in ast.walk(c.pattern):
                        if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Attribute):
                            out[p.value.attr] = (self.of(c.body), c.body[0].lineno)
            elif isinstance(n, ast.If):
                for x in ast.walk(n.test):
                    if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.Is)):
                        for y in (x.left, *x.comparators):
                            if isinstance(y, ast.Attribute) and ast.unparse(y.value) == "Op":
                                out.setdefault(y.attr, (self.of(n.body), n.lineno))
        return out


def run(rep):
    rep.rule("NAME", "an operator's exported name is its identifier, and no two operators share one")
    rep.rule("IDS", "the optimizer's operator ids enumerate ops.py in order")
    rep.rule("FLAGS", "the optimizer's purity / side-effect / control-flow / name tables are those of ops.py")
    rep.rule("EFFECT", "no operator is declared more harmless than the runtime defines it, or than its interpretation acts")
    rep.rule("FOLDABLE", "an operator marked foldable is pure, is not structural, and depends on its operands alone")
    rep.rule("PURENODE", "a pure IR instruction is built only with an operator declared pure")
    rep.files |= {fold.OPS, PXD, HDR, fold.INT, GEN}
    ops = fold.op_table()
    seen = {}
    for n, v, _fl, line in ops:
        rep.did("NAME", n)
        if v != n:
            rep.find("NAME", fold.OPS, line, f"Op.{n}", f"exported as {v!r}")
        if v in seen:
            rep.find("NAME", fold.OPS, line, f"Op.{n}", f"shares its name with Op.{seen[v]}")
        seen[v] = n
    ids = enum_ids()
    for i, (n, *_r) in enumerate(ops):
        rep.did("IDS", f"{n}={i}")
        if ids.get("OP_" + n) != i:
            rep.find("IDS", PXD, 1, f"OP_{n}", f"id {ids.get('OP_' + n)}, declared at position {i} in ops.py")
    cnt = len(ops)
    for k, v in (("OP_RUNTIME_COUNT", cnt), ("OP_TABLE_SIZE", cnt + len(SYN)), *((f"OPX_{s}", cnt + j) for j, s in enumerate(SYN))):
        rep.did("IDS", k)
        if ids.get(k) != v:
            rep.find("IDS", PXD, 1, k, f"is {ids.get(k)}, should be {v}")
    extra = {k for k in ids if k.startswith("OP_")} - {"OP_" + n for n, *_ in ops} - {"OP_RUNTIME_COUNT", "OP_TABLE_SIZE"}
    for k in sorted(extra):
        rep.find("IDS", PXD, 1, k, "no such operator in ops.py")
    h = header()
    want = {"SONOLUS_OP_PURE": [int(fl["pure"]) for _n, _v, fl, _l in ops],
            "SONOLUS_OP_SIDE_EFFECTS": [int(fl["side_effects"]) for _n, _v, fl, _l in ops],
            "SONOLUS_OP_CONTROL_FLOW": [int(fl["control_flow"]) for _n, _v, fl, _l in ops],
            "SONOLUS_OP_NAMES": [v for _n, v, _fl, _l in ops]}
    for tab, w in want.items():
        if tab not in h:
            raise core.Vanished(f"{tab} in {HDR}")
        got, line = h[tab]
        for i, (n, *_r) in enumerate(ops):
            rep.did("FLAGS", None)
            if i >= len(got) or got[i] != w[i]:
                rep.find("FLAGS", HDR, line, f"{tab}[OP_{n}]", f"is {got[i] if i < len(got) else 'missing'}, ops.py says {w[i]}")
        if tab != "SONOLUS_OP_NAMES":
            for j, s in enumerate(SYN):
                rep.did("FLAGS", None)
                ok = got[cnt + j] == 0 or (tab == "SONOLUS_OP_PURE" and s == "CONST")
                if not ok:
                    rep.find("FLAGS", HDR, line, f"{tab}[OPX_{s}]", "a synthetic opcode must not carry this flag")
    rep.samples["FLAGS"] = [f"{t}: {cnt} entries" for t in want]

    br = Effects().branches()
    if len(br) < 60:
        raise core.Vanished(f"only {len(br)} operators found in Interpreter.run")
    nat = {}
    for _m, f, op, _ce in natives():
        nat.setdefault(op, []).append((f, _m.rel))
    for n, _v, fl, line in ops:
        rep.did("EFFECT", n)
        se, pure = fl["side_effects"], fl["pure"]
        eff = br.get(n, (set(), 0))[0]
        acts = n in S.EFFECT or "write" in eff or "control" in eff
        reads = n in S.READS or "read" in eff or "chance" in eff
        if acts and not se:
            rep.find("EFFECT", fold.OPS, line, f"Op.{n}", "acts on the runtime but is declared free of side effects")
        if (acts or reads) and pure:
            rep.find("EFFECT", fold.OPS, line, f"Op.{n}", "is declared pure but " + ("acts on the runtime" if acts else "its result depends on mutable state or chance"))
        if se and pure:
            rep.find("EFFECT", fold.OPS, line, f"Op.{n}", "declared both pure and side-effecting")
        for f, rel in nat.get(n, []):
            if isinstance(f.returns, ast.Constant) and f.returns.value is None and not se:
                rep.find("EFFECT", rel, f.lineno, f"{f.name} [{n}]", "a function returning nothing is compiled to an operator without side effects, and would be dropped")
    fo, line = h.get("SONOLUS_OP_FOLDABLE", (None, 0))
    if fo is None:
        raise core.Vanished("SONOLUS_OP_FOLDABLE")
    for i, (n, _v, fl, _l) in enumerate(ops):
        rep.did("FOLDABLE", None)
        if i >= len(fo) or not fo[i]:
            continue
        rep.samples.setdefault("FOLDABLE", []).append(n)
        bad = None
        if not fl["pure"] or fl["side_effects"]:
            bad = "is not pure"
        elif n in S.ENV:
            bad = "depends on the runtime environment"
        elif n in S.STRUCTURAL:
            bad = "is a control structure"
        elif n in S.READS or n in S.EFFECT or br.get(n, (set(), 0))[0]:
            bad = "touches runtime state"
        if bad:
            rep.find("FOLDABLE", HDR, line, f"SONOLUS_OP_FOLDABLE[OP_{n}]", f"marked foldable but {bad}")
    for j, s in enumerate(SYN):
        if len(fo) > cnt + j and fo[cnt + j]:
            rep.find("FOLDABLE", HDR, line, f"SONOLUS_OP_FOLDABLE[OPX_{s}]", "a synthetic opcode is marked foldable")
    purenodes(rep, {n: fl for n, _v, fl, _l in ops})
    rep.need("NAME", 150)
    rep.need("PURENODE", 5)


def purenodes(rep, flags):
    for rel in [*core.pyfiles("sonolus"), "sonolus/backend/_opt/ir.pyx"]:
        if "IRPureInstr" not in core.text(rel):
            continue
        t = core.tree(rel)
        rep.files.add(rel)
        for n in ast.walk(t):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "IRPureInstr" and n.args:
                a = n.args[0]
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in ("Op", "_Op"):
                    rep.did("PURENODE", f"{rel}:{n.lineno} {a.attr}")
                    if a.attr not in flags or not flags[a.attr]["pure"]:
                        rep.find("PURENODE", rel, n.lineno, f"IRPureInstr(Op.{a.attr})", "the operator is not pure", key=f"{rel}:{a.attr}")
        # _bin_op/_unary_op style helpers that forward an operator parameter into IRPureInstr
        for f in ast.walk(t):
            if not isinstance(f, ast.FunctionDef):
                continue
            ps = [a.arg for a in f.args.args]
            fwd = {n.args[0].id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                   and n.func.id == "IRPureInstr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ps}
            for p in fwd:
                i = ps.index(p) - (1 if ps and ps[0] == "self" else 0)
                for c in ast.walk(t):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == f.name:
                        a = c.args[i] if i < len(c.args) else next((k.value for k in c.keywords if k.arg == p), None)
                        if isinstance(a, ast.Attribute):
                            rep.did("PURENODE", f"{rel}:{c.lineno} {f.name}(Op.{a.attr})")
                            if a.attr not in flags or not flags[a.attr]["pure"]:
                                rep.find("PURENODE", rel, c.lineno, f"{f.name}(Op.{a.attr})", "the operator is not pure", key=f"{rel}:{a.attr}")
