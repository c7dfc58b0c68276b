"""Shared plumbing: source loading, findings, known findings, evidence, exit protocol."""
from __future__ import annotations

import ast
import json
import os
import sys
import time
from functools import lru_cache
from pathlib import Path

ROOT = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent


class Vanished(Exception):
    """An anchor this analysis needs is gone: the check cannot answer (never a silent pass)."""


def die_deep():
    sys.setrecursionlimit(60000)


@lru_cache(None)
def text(rel):
    p = ROOT / rel
    if not p.is_file():
        raise Vanished(f"{rel} does not exist")
    return p.read_text()


@lru_cache(None)
def pytree(rel):
    t = ast.parse(text(rel), filename=rel)
    t.rel = rel
    for n in ast.walk(t):
        n.rel = rel
    return t


@lru_cache(None)
def cytree(rel):
    from . import cyfront
    if not (ROOT / rel).is_file():
        raise Vanished(f"{rel} does not exist")
    t = cyfront.parse_cython(str(ROOT / rel), rel.replace("/", ".").rsplit(".", 1)[0])
    t.rel = rel
    for n in ast.walk(t):
        n.rel = rel
    return t


def tree(rel):
    return cytree(rel) if rel.endswith((".pyx", ".pxd")) else pytree(rel)


def pyfiles(*subs):
    out = []
    for s in subs:
        p = ROOT / s
        if p.is_file():
            out.append(s)
        else:
            out += sorted(str(q.relative_to(ROOT)) for q in p.rglob("*.py"))
    return out


class Finding:
    def __init__(self, rule, file, line, where, msg, key=None):
        self.rule, self.file, self.line, self.where, self.msg = rule, file, line, where, msg
        self.key = f"{rule}|{file}|{key or where}"

    def __str__(self):
        return f"{self.file}:{self.line}: [{self.rule}] {self.where}: {self.msg}"


class Report:
    """What one check analysed: obligations by rule, findings, notes."""

    def __init__(self, prop):
        self.prop = prop
        self.findings: list[Finding] = []
        self.obl: dict[str, int] = {}
        self.samples: dict[str, list] = {}
        self.files: set[str] = set()
        self.rules: dict[str, str] = {}
        self.assumptions: list[str] = []
        self.notes: list[str] = []
        self.undec: dict[str, list] = {}

    def rule(self, rid, text_):
        self.rules[rid] = text_
        self.obl.setdefault(rid, 0)

    def did(self, rid, what=None, n=1):
        self.obl[rid] = self.obl.get(rid, 0) + n
        if what is not None:
            s = self.samples.setdefault(rid, [])
            if len(s) < 400:
                s.append(str(what))

    def find(self, rule, file, line, where, msg, key=None):
        f = Finding(rule, file, line, where, msg, key)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def undecided(self, rid, what):
        """an instance whose code this analysis cannot follow: reported in the evidence, never counted as held"""
        self.undec.setdefault(rid, []).append(str(what))

    def settle(self):
        """an analysis that lost sight of a large part of its instances has no answer"""
        for rid, u in self.undec.items():
            n = self.obl.get(rid, 0)
            if len(u) > max(3, (n + len(u)) * 0.3):
                raise Vanished(f"rule {rid}: {len(u)} of {n + len(u)} instances cannot be followed, e.g. {u[0]}")

    def need(self, rid, n):
        """minimum instance count: fewer means the anchor moved"""
        n -= len(self.undec.get(rid, ()))
        if self.obl.get(rid, 0) < n:
            raise Vanished(f"rule {rid}: {self.obl.get(rid, 0)} obligations found, at least {n} expected")


def known():
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text()) if p.exists() else {"findings": [], "fixed": []}


def run(prop, fn, spec):
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    die_deep()
    rep = Report(prop)
    err = None
    try:
        fn(rep)
        rep.settle()
    except Vanished as e:
        err = e
    ks = {k["key"]: k for k in known()["findings"] if k["property"] == prop}
    new = [f for f in rep.findings if f.key not in ks]
    old = [f for f in rep.findings if f.key in ks]
    evd = Path(os.environ.get("VERIF_EVIDENCE") or VERIF / "evidence")
    evd.mkdir(exist_ok=True)
    total = sum(rep.obl.values())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": spec["level"],
        "coverage": {
            "explanation": spec["explanation"],
            "obligations": total,
            "discharged": total - len(rep.findings),
            "checker_cmd": f"/opt/venv/bin/python run_check.py {prop}",
            "trusted_base": spec.get("trusted", ["the analyser in /verif/sa", "the CPython and Cython parsers"]),
            "files_analysed": sorted(rep.files),
            "rules": rep.rules,
            "obligations_by_rule": rep.obl,
            "instances": {k: v[:120] for k, v in rep.samples.items()},
            "notes": rep.notes,
            "undecided": rep.undec,
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": spec.get("assumptions", []) + rep.assumptions,
        "violations": len(new),
    }
    (evd / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    vio = evd / f"{prop}.violation.txt"
    if vio.exists():
        vio.unlink()
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f}")
    if new:
        vio.write_text("\n".join(str(f) for f in new) + "\n")
        for f in new:
            print(f)
        print(f"VIOLATION property={prop} replay=evidence/{prop}.violation.txt")
        return 1
    if err is not None:
        print(f"ERROR property={prop}: {err}")
        return 2
    for rid, u in rep.undec.items():
        for x in u:
            print(f"UNDECIDED rule={rid} {x}")
    print(f"OK property={prop} obligations={total} rules={len(rep.rules)}")
    return 0
