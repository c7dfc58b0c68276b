"""Cython front end: parse .pyx/.pxd with Cython's own parser and lower the tree to Python `ast`.

The lowering keeps every expression and statement; C-only constructs are kept as marked calls:
  <T>x            -> __cast__("T", x)
  &x              -> __addr__(x)
  sizeof(x)       -> __sizeof__(x)
  cdef T x = v    -> AnnAssign(x: "T" = v)
  with nogil:     -> With(__nogil__)
Function definitions carry `.cy` = dict(kind, ret, exc_value, exc_check, nogil, noexcept, args=[(name,type)]).
"""
from __future__ import annotations

import ast
import io

from Cython.Compiler import Errors, Parsing
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler.TreeFragment import StringParseContext


class CyLowerError(Exception):
    pass


def parse_cython(path: str, modname: str, code: str | None = None):
    Errors.init_thread()
    ctx = StringParseContext(modname, cpp=True)
    if code is None:
        with open(path, encoding="utf-8") as f:
            code = f.read()
    sd = FileSourceDescriptor(path)
    scope = ctx.find_module(modname, pos=(sd, 1, 0), need_pxd=False)
    sc = PyrexScanner(
        io.StringIO(code), sd, source_encoding="UTF-8", scope=scope, context=ctx, initial_pos=(sd, 1, 0)
    )
    tree = Parsing.p_module(sc, path.endswith(".pxd"), modname)
    return Lower(path).module(tree)


_CMP = {
    "==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE,
    "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn,
}
_BIN = {
    "+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod,
    "**": ast.Pow, "<<": ast.LShift, ">>": ast.RShift, "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor,
    "@": ast.MatMult,
}


def _int(text: str):
    t = str(text).rstrip("uUlL")
    return int(t, 0) if not (len(t) > 1 and t[0] == "0" and t[1].isdigit()) else int(t, 8)


class Lower:
    def __init__(self, path):
        self.path = path

    # -- helpers
    def loc(self, new, node):
        pos = getattr(node, "pos", None)
        new.lineno = pos[1] if pos else 1
        new.col_offset = pos[2] if pos else 0
        new.end_lineno = new.lineno
        new.end_col_offset = new.col_offset
        return new

    def err(self, n):
        raise CyLowerError(f"{self.path}:{n.pos[1] if n.pos else '?'}: cannot lower {type(n).__name__}")

    def type_of_base(self, b):
        k = type(b).__name__
        if k == "CSimpleBaseTypeNode":
            if b.name is None:
                return ""
            s = ".".join([*(b.module_path or []), b.name])
            if b.is_basic_c_type:
                pre = ""
                if b.signed == 0:
                    pre = "unsigned "
                if b.longness > 0:
                    pre += "long " * b.longness
                elif b.longness < 0:
                    pre += "short "
                s = (pre + s)
            return s
        if k == "CQualifierTypeNode":
            return ("const " if b.is_const else "") + self.type_of_base(b.base_type)
        if k == "CConstOrVolatileTypeNode":
            return ("const " if b.is_const else "") + self.type_of_base(b.base_type)
        if k == "CComplexBaseTypeNode":
            base = self.type_of_base(b.base_type)
            return base + self.decl_suffix(b.declarator)
        if k == "TemplatedTypeNode":
            return self.type_of_base(b.base_type_node) + "[...]"
        return k

    def decl_suffix(self, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return ""
        if k == "CPtrDeclaratorNode":
            return "*" + self.decl_suffix(d.base)
        if k == "CArrayDeclaratorNode":
            dim = d.dimension
            t = ""
            if dim is not None:
                t = ast.unparse(self.expr(dim))
            return self.decl_suffix(d.base) + f"[{t}]"
        if k == "CFuncDeclaratorNode":
            return self.decl_suffix(d.base) + "()"
        if k == "CReferenceDeclaratorNode":
            return "&" + self.decl_suffix(d.base)
        if k == "CConstDeclaratorNode":
            return self.decl_suffix(d.base)
        return "?"

    def decl_name(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return d.name, getattr(d, "default", None)

    # -- module
    def module(self, tree):
        m = ast.Module(body=self.stmts(tree.body), type_ignores=[])
        return m

    def stmts(self, n):
        if n is None:
            return []
        if type(n).__name__ == "StatListNode":
            out = []
            for s in n.stats:
                out.extend(self.stmts(s))
            return out
        r = self.stmt(n)
        return r if isinstance(r, list) else [r]

    def block(self, n):
        b = self.stmts(n)
        return b or [ast.Pass(lineno=1, col_offset=0, end_lineno=1, end_col_offset=0)]

    def stmt(self, n):
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            self.err(n)
        return f(n)

    def s_ExprStatNode(self, n):
        return self.loc(ast.Expr(value=self.expr(n.expr)), n)

    def s_PassStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_BreakStatNode(self, n):
        return self.loc(ast.Break(), n)

    def s_ContinueStatNode(self, n):
        return self.loc(ast.Continue(), n)

    def s_ReturnStatNode(self, n):
        return self.loc(ast.Return(value=self.expr(n.value) if n.value is not None else None), n)

    def s_RaiseStatNode(self, n):
        return self.loc(
            ast.Raise(
                exc=self.expr(n.exc_type) if n.exc_type is not None else None,
                cause=self.expr(n.cause) if getattr(n, "cause", None) is not None else None,
            ),
            n,
        )

    def s_ReraiseStatNode(self, n):
        return self.loc(ast.Raise(exc=None, cause=None), n)

    def s_AssertStatNode(self, n):
        msg = None
        ex = getattr(n, "exception", None)
        if getattr(n, "value", None) is not None:
            msg = self.expr(n.value)
        elif ex is not None and getattr(ex, "exc_value", None) is not None:
            msg = self.expr(ex.exc_value)
        return self.loc(ast.Assert(test=self.expr(n.condition), msg=msg), n)

    def s_DelStatNode(self, n):
        targets = [self.expr(a) for a in n.args]
        for t in targets:
            t.ctx = ast.Del()
        return self.loc(ast.Delete(targets=targets), n)

    def s_GlobalNode(self, n):
        return self.loc(ast.Global(names=list(n.names)), n)

    def s_NonlocalNode(self, n):
        return self.loc(ast.Nonlocal(names=list(n.names)), n)

    def s_SingleAssignmentNode(self, n):
        rk = type(n.rhs).__name__
        if rk == "ImportNode":
            return self.imp(n)
        a = ast.Assign(targets=[self.store(self.expr(n.lhs))], value=self.expr(n.rhs))
        return self.loc(a, n)

    def imp(self, n):
        name = n.rhs.module_name.value
        return self.loc(ast.Import(names=[ast.alias(name=str(name), asname=n.lhs.name)]), n)

    def s_CascadedAssignmentNode(self, n):
        return self.loc(
            ast.Assign(targets=[self.store(self.expr(x)) for x in n.lhs_list], value=self.expr(n.rhs)), n
        )

    def s_InPlaceAssignmentNode(self, n):
        return self.loc(
            ast.AugAssign(target=self.store(self.expr(n.lhs)), op=_BIN[n.operator](), value=self.expr(n.rhs)), n
        )

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            node = self.loc(ast.If(test=self.expr(c.condition), body=self.block(c.body), orelse=orelse), c)
            orelse = [node]
        return orelse

    def s_WhileStatNode(self, n):
        return self.loc(
            ast.While(
                test=self.expr(n.condition),
                body=self.block(n.body),
                orelse=self.stmts(n.else_clause) if n.else_clause is not None else [],
            ),
            n,
        )

    def s_ForInStatNode(self, n):
        return self.loc(
            ast.For(
                target=self.store(self.expr(n.target)),
                iter=self.expr(n.iterator.sequence),
                body=self.block(n.body),
                orelse=self.stmts(n.else_clause) if n.else_clause is not None else [],
                type_comment=None,
            ),
            n,
        )

    def s_TryFinallyStatNode(self, n):
        body = self.block(n.body)
        fin = self.block(n.finally_clause)
        if len(body) == 1 and isinstance(body[0], ast.Try) and not body[0].finalbody:
            body[0].finalbody = fin
            return body[0]
        return self.loc(ast.Try(body=body, handlers=[], orelse=[], finalbody=fin), n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = None
            if c.pattern:
                ps = [self.expr(p) for p in c.pattern]
                pat = ps[0] if len(ps) == 1 else self.loc(ast.Tuple(elts=ps, ctx=ast.Load()), c)
            name = None
            if c.target is not None:
                name = getattr(c.target, "name", "?")
            hs.append(self.loc(ast.ExceptHandler(type=pat, name=name, body=self.block(c.body)), c))
        return self.loc(
            ast.Try(
                body=self.block(n.body),
                handlers=hs,
                orelse=self.stmts(n.else_clause) if n.else_clause is not None else [],
                finalbody=[],
            ),
            n,
        )

    def s_GILStatNode(self, n):
        state = n.state
        name = self.loc(ast.Name(id="__nogil__" if state == "nogil" else "__gil__", ctx=ast.Load()), n)
        body = n.body
        return self.loc(
            ast.With(items=[ast.withitem(context_expr=name, optional_vars=None)], body=self.block(body), type_comment=None),
            n,
        )

    def s_GILExitNode(self, n):
        return []

    def s_WithStatNode(self, n):
        return self.loc(
            ast.With(
                items=[
                    ast.withitem(
                        context_expr=self.expr(n.manager),
                        optional_vars=self.store(self.expr(n.target)) if n.target is not None else None,
                    )
                ],
                body=self.block(n.body),
                type_comment=None,
            ),
            n,
        )

    def s_CVarDefNode(self, n):
        out = []
        base = self.type_of_base(n.base_type)
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode":
                out.append(self.cfunc_decl(n, base, d))
                continue
            name, default = self.decl_name(d)
            t = base + self.decl_suffix(d)
            if not name:
                name, t = base, ""
            tgt = self.loc(ast.Name(id=name, ctx=ast.Store()), n)
            a = ast.AnnAssign(
                target=tgt,
                annotation=self.loc(ast.Constant(value=t), n),
                value=self.expr(default) if default is not None else None,
                simple=1,
            )
            out.append(self.loc(a, n))
        return out

    def cfunc_decl(self, n, base, d):
        fd = d
        while type(fd).__name__ != "CFuncDeclaratorNode":
            fd = fd.base
        f = self.make_func(fd.base.name if hasattr(fd.base, "name") else self.decl_name(fd)[0], fd.args, [], n)
        f.body = [self.loc(ast.Expr(value=self.loc(ast.Constant(value=Ellipsis), n)), n)]
        f.cy = self.cy_info(base + self.decl_suffix_above(d), fd, "cdef-decl")
        return f

    def decl_suffix_above(self, d):
        s = ""
        while type(d).__name__ != "CFuncDeclaratorNode":
            s += "*"
            d = d.base
        return s

    def cy_info(self, ret, fd, kind):
        ev = fd.exception_value
        evx = None
        if ev is not None:
            try:
                evx = ast.unparse(self.expr(ev))
            except Exception:
                evx = "?"
        args = []
        for a in fd.args:
            name, _ = self.decl_name(a.declarator)
            t = self.type_of_base(a.base_type) + self.decl_suffix(a.declarator)
            if not name:
                name, t = self.type_of_base(a.base_type), "object"
            args.append((name, t))
        return dict(kind=kind, ret=ret, exc_value=evx, exc_check=fd.exception_check,
                    nogil=bool(getattr(fd, "nogil", False)), args=args,
                    noexcept=(ev is None and fd.exception_check is False))

    def make_func(self, name, args, body, n):
        a = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        for p in args:
            if hasattr(p, "declarator"):
                pname, _ = self.decl_name(p.declarator)
                t = self.type_of_base(p.base_type) + self.decl_suffix(p.declarator)
                if not pname:
                    pname, t = self.type_of_base(p.base_type), "object"
                ann = self.loc(ast.Constant(value=t), p) if t else None
                arg = self.loc(ast.arg(arg=pname, annotation=ann), p)
                if getattr(p, "kw_only", 0):
                    a.kwonlyargs.append(arg)
                    a.kw_defaults.append(self.expr(p.default) if p.default is not None else None)
                else:
                    a.args.append(arg)
                    if p.default is not None:
                        a.defaults.append(self.expr(p.default))
            else:
                pname = getattr(p, "name", "?")
                a.args.append(self.loc(ast.arg(arg=pname, annotation=None), n))
        f = ast.FunctionDef(name=name, args=a, body=body, decorator_list=[], returns=None, type_comment=None, type_params=[])
        return self.loc(f, n)

    def decorators(self, n):
        return [self.expr(d.decorator) for d in (n.decorators or [])]

    def s_CFuncDefNode(self, n):
        d = n.declarator
        base = self.type_of_base(n.base_type)
        fd = d
        while type(fd).__name__ != "CFuncDeclaratorNode":
            fd = fd.base
        name, _ = self.decl_name(fd)
        f = self.make_func(name, fd.args, self.block(n.body), n)
        f.decorator_list = self.decorators(n)
        f.cy = self.cy_info(base + self.decl_suffix_above(d), fd, "cpdef" if n.overridable else "cdef")
        return f

    def s_DefNode(self, n):
        f = self.make_func(n.name, n.args, self.block(n.body), n)
        if n.star_arg is not None:
            f.args.vararg = self.loc(ast.arg(arg=n.star_arg.name, annotation=None), n)
        if n.starstar_arg is not None:
            f.args.kwarg = self.loc(ast.arg(arg=n.starstar_arg.name, annotation=None), n)
        f.decorator_list = self.decorators(n)
        args = []
        for p in n.args:
            pname, _ = self.decl_name(p.declarator)
            t = self.type_of_base(p.base_type) + self.decl_suffix(p.declarator)
            if not pname:
                pname, t = self.type_of_base(p.base_type), "object"
            args.append((pname, t or "object"))
        f.cy = dict(kind="def", ret="object", exc_value=None, exc_check=True, nogil=False, args=args, noexcept=False)
        return f

    def s_CClassDefNode(self, n):
        c = ast.ClassDef(
            name=n.class_name, bases=[self.expr(b) for b in (n.bases.args if n.bases is not None else [])],
            keywords=[], body=self.block(n.body), decorator_list=self.decorators(n) if hasattr(n, "decorators") else [],
            type_params=[],
        )
        c.cy = dict(kind="cclass")
        return self.loc(c, n)

    def s_PyClassDefNode(self, n):
        c = ast.ClassDef(name=n.name, bases=[], keywords=[], body=self.block(n.body), decorator_list=[], type_params=[])
        c.cy = dict(kind="class")
        return self.loc(c, n)

    def s_CStructOrUnionDefNode(self, n):
        body = []
        for a in n.attributes or []:
            body.extend(self.stmts(a))
        c = ast.ClassDef(name=n.name, bases=[], keywords=[], body=body or [self.loc(ast.Pass(), n)], decorator_list=[], type_params=[])
        c.cy = dict(kind="struct")
        return self.loc(c, n)

    def s_CEnumDefNode(self, n):
        body = []
        for it in n.items:
            tgt = self.loc(ast.Name(id=it.name, ctx=ast.Store()), it)
            v = self.expr(it.value) if it.value is not None else None
            body.append(
                self.loc(ast.AnnAssign(target=tgt, annotation=self.loc(ast.Constant(value="enum"), it), value=v, simple=1), it)
            )
        c = ast.ClassDef(name=n.name or "__anon_enum__", bases=[], keywords=[], body=body or [self.loc(ast.Pass(), n)], decorator_list=[], type_params=[])
        c.cy = dict(kind="enum")
        return self.loc(c, n)

    def s_CTypeDefNode(self, n):
        name, _ = self.decl_name(n.declarator)
        c = ast.ClassDef(name=name, bases=[], keywords=[], body=[self.loc(ast.Pass(), n)], decorator_list=[], type_params=[])
        c.cy = dict(kind="typedef", type=self.type_of_base(n.base_type) + self.decl_suffix(n.declarator))
        return self.loc(c, n)

    def s_CDefExternNode(self, n):
        return self.block(n.body)

    def s_CImportStatNode(self, n):
        return self.loc(ast.Import(names=[ast.alias(name=n.module_name, asname=n.as_name)]), n)

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            nm, asn = it[1], it[2] if len(it) > 2 else None
            names.append(ast.alias(name=nm, asname=asn))
        return self.loc(ast.ImportFrom(module=n.module_name, names=names or [ast.alias(name="*")], level=n.relative_level or 0), n)

    def s_FromImportStatNode(self, n):
        names = [ast.alias(name=nm, asname=getattr(tg, "name", None)) for nm, tg in n.items]
        return self.loc(ast.ImportFrom(module=str(n.module.module_name.value), names=names, level=0), n)

    def s_ImportNode(self, n):
        return self.loc(ast.Pass(), n)

    # -- expressions
    def store(self, e):
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple, ast.List, ast.Starred)):
            e.ctx = ast.Store()
            if isinstance(e, (ast.Tuple, ast.List)):
                for x in e.elts:
                    self.store(x)
        return e

    def expr(self, n):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            self.err(n)
        return self.loc(f(n), n)

    def call(self, name, args, n):
        return ast.Call(func=self.loc(ast.Name(id=name, ctx=ast.Load()), n), args=args, keywords=[])

    def e_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        sl = self.loc(
            ast.Slice(
                lower=self.expr(n.start) if n.start is not None else None,
                upper=self.expr(n.stop) if n.stop is not None else None,
                step=None,
            ),
            n,
        )
        return ast.Subscript(value=self.expr(n.base), slice=sl, ctx=ast.Load())

    def e_SliceNode(self, n):
        def o(x):
            return None if x is None or type(x).__name__ == "NoneNode" else self.expr(x)
        return ast.Slice(lower=o(n.start), upper=o(n.stop), step=o(n.step))

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        if type(pa).__name__ == "TupleNode":
            args = [self.expr(a) for a in pa.args]
        else:
            args = [self.loc(ast.Starred(value=self.expr(pa), ctx=ast.Load()), n)]
        kws = []
        kw = n.keyword_args
        if kw is not None:
            for it in getattr(kw, "key_value_pairs", []):
                kws.append(ast.keyword(arg=str(it.key.value), value=self.expr(it.value)))
            if not hasattr(kw, "key_value_pairs"):
                kws.append(ast.keyword(arg=None, value=self.expr(kw)))
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def e_AsTupleNode(self, n):
        return self.expr(n.arg)

    def e_MergedDictNode(self, n):
        keys, vals = [], []
        for kw in n.keyword_args:
            if hasattr(kw, "key_value_pairs"):
                for it in kw.key_value_pairs:
                    keys.append(self.expr(it.key)); vals.append(self.expr(it.value))
            else:
                keys.append(None); vals.append(self.expr(kw))
        return ast.Dict(keys=keys, values=vals)

    def e_TypecastNode(self, n):
        t = self.type_of_base(n.base_type) + self.decl_suffix(n.declarator) if n.base_type is not None else "?"
        return self.call("__cast__", [self.loc(ast.Constant(value=t), n), self.expr(n.operand)], n)

    def e_AmpersandNode(self, n):
        return self.call("__addr__", [self.expr(n.operand)], n)

    def e_SizeofVarNode(self, n):
        return self.call("__sizeof__", [self.expr(n.operand)], n)

    def e_SizeofTypeNode(self, n):
        t = self.type_of_base(n.base_type) + self.decl_suffix(n.declarator)
        return self.call("__sizeof__", [self.loc(ast.Constant(value=t), n)], n)

    def e_PrimaryCmpNode(self, n):
        ops, comps = [_CMP[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps)

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        vals = []
        for x in (n.operand1, n.operand2):
            e = self.expr(x)
            if isinstance(e, ast.BoolOp) and type(e.op) is type(op):
                vals.extend(e.values)
            else:
                vals.append(e)
        return ast.BoolOp(op=op, values=vals)

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))

    def bin(self, n):
        return ast.BinOp(left=self.expr(n.operand1), op=_BIN[n.operator](), right=self.expr(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_BitwiseOrNode = bin

    def e_UnaryMinusNode(self, n):
        e = self.expr(n.operand)
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return ast.Constant(value=-e.value)
        return ast.UnaryOp(op=ast.USub(), operand=e)

    def e_UnaryPlusNode(self, n):
        return self.expr(n.operand)

    def e_TildeNode(self, n):
        return ast.UnaryOp(op=ast.Invert(), operand=self.expr(n.operand))

    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.expr(n.condition if hasattr(n, "condition") else n.test), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def e_IntNode(self, n):
        return ast.Constant(value=_int(n.value))

    def e_FloatNode(self, n):
        return ast.Constant(value=float(str(n.value).rstrip("fF") if not str(n.value).endswith("inf") else n.value))

    def e_BoolNode(self, n):
        return ast.Constant(value=bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(value=None)

    def e_EllipsisNode(self, n):
        return ast.Constant(value=Ellipsis)

    def e_NullNode(self, n):
        return ast.Name(id="NULL", ctx=ast.Load())

    def e_CharNode(self, n):
        return ast.Constant(value=str(n.value))

    def e_UnicodeNode(self, n):
        return ast.Constant(value=str(n.value))

    e_IdentifierStringNode = e_UnicodeNode

    def e_StringNode(self, n):
        return ast.Constant(value=str(n.value))

    def e_BytesNode(self, n):
        return ast.Constant(value=bytes(n.value))

    def e_TupleNode(self, n):
        return ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=[self.expr(a) for a in n.args], ctx=ast.Load())

    def e_SetNode(self, n):
        return ast.Set(elts=[self.expr(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict(
            keys=[self.expr(i.key) for i in n.key_value_pairs], values=[self.expr(i.value) for i in n.key_value_pairs]
        )

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(value=self.expr(n.target), ctx=ast.Load())

    def e_JoinedStrNode(self, n):
        vals = []
        for v in n.values:
            vals.append(self.expr(v))
        return ast.JoinedStr(values=vals)

    def e_FormattedValueNode(self, n):
        return ast.FormattedValue(value=self.expr(n.value), conversion=-1, format_spec=None)

    def comp_parts(self, loop):
        gens, elt = [], None
        n = loop
        while True:
            k = type(n).__name__
            if k == "StatListNode" and len(n.stats) == 1:
                n = n.stats[0]
            elif k == "ForInStatNode":
                gens.append(ast.comprehension(target=self.store(self.expr(n.target)), iter=self.expr(n.iterator.sequence), ifs=[], is_async=0))
                n = n.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.expr(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            else:
                return gens, n

    def e_ComprehensionNode(self, n):
        gens, ap = self.comp_parts(n.loop)
        k = type(ap).__name__
        if k == "DictComprehensionAppendNode":
            return ast.DictComp(key=self.expr(ap.dict_item.key), value=self.expr(ap.dict_item.value), generators=gens)
        t = str(getattr(n.type, "name", n.type))
        cls = ast.SetComp if t == "set" else ast.ListComp
        return cls(elt=self.expr(ap.expr), generators=gens)

    def e_GeneratorExpressionNode(self, n):
        gens, y = self.comp_parts(n.loop)
        e = y
        while type(e).__name__ in ("ExprStatNode", "YieldExprNode"):
            e = e.expr if type(e).__name__ == "ExprStatNode" else e.arg
        return ast.GeneratorExp(elt=self.expr(e), generators=gens)

    def e_YieldExprNode(self, n):
        return ast.Yield(value=self.expr(n.arg) if n.arg is not None else None)

    def e_LambdaNode(self, n):
        f = self.make_func("<lambda>", n.args, [], n)
        r = n.result_expr
        return ast.Lambda(args=f.args, body=self.expr(r))

    def e_ImportNode(self, n):
        return ast.Name(id="__import__", ctx=ast.Load())

    def e_AssignmentExpressionNode(self, n):
        return ast.NamedExpr(target=self.store(self.expr(n.lhs)), value=self.expr(n.rhs))

    def e_AnnotationNode(self, n):
        return self.expr(n.expr)
