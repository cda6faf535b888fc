"""Python `ast` -> mini-IR."""
import ast
import os
from .ir import Func, Cls, Module

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def expr(n):
    if n is None:
        return None
    if isinstance(n, ast.Constant):
        return ("const", n.value)
    if isinstance(n, ast.Name):
        return ("name", n.id)
    if isinstance(n, ast.Attribute):
        return ("attr", expr(n.value), n.attr)
    if isinstance(n, ast.Subscript):
        return ("idx", expr(n.value), expr(n.slice))
    if isinstance(n, ast.Slice):
        return ("slice", expr(n.lower), expr(n.upper), expr(n.step))
    if isinstance(n, ast.Call):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(("star", expr(a.value)))
            else:
                args.append(expr(a))
        return ("call", expr(n.func), args, [(k.arg, expr(k.value)) for k in n.keywords], n.lineno)
    if isinstance(n, ast.BinOp):
        return ("bin", BIN[type(n.op)], expr(n.left), expr(n.right))
    if isinstance(n, ast.UnaryOp):
        if isinstance(n.op, ast.Not):
            return ("not", expr(n.operand))
        if isinstance(n.op, ast.USub):
            if isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, (int, float)) and not isinstance(n.operand.value, bool):
                return ("const", -n.operand.value)
            return ("un", "-", expr(n.operand))
        if isinstance(n.op, ast.UAdd):
            return expr(n.operand)
        return ("un", "~", expr(n.operand))
    if isinstance(n, ast.Compare):
        parts = []
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            parts.append(("cmp", CMP[type(op)], expr(l), expr(r)))
            l = r
        return parts[0] if len(parts) == 1 else ("and", parts)
    if isinstance(n, ast.BoolOp):
        return ("and" if isinstance(n.op, ast.And) else "or", [expr(v) for v in n.values])
    if isinstance(n, ast.IfExp):
        return ("ite", expr(n.test), expr(n.body), expr(n.orelse))
    if isinstance(n, ast.List):
        return ("list", [expr(e) for e in n.elts])
    if isinstance(n, ast.Tuple):
        return ("tuple", [expr(e) for e in n.elts])
    if isinstance(n, ast.Set):
        return ("set", [expr(e) for e in n.elts])
    if isinstance(n, ast.Dict):
        return ("dict", [(expr(k), expr(v)) for k, v in zip(n.keys, n.values)])
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        kind = {ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "gen"}[type(n)]
        return ("comp", kind, expr(n.elt), [(expr(g.target), expr(g.iter), [expr(c) for c in g.ifs]) for g in n.generators])
    if isinstance(n, ast.DictComp):
        return ("comp", "dict", ("tuple", [expr(n.key), expr(n.value)]), [(expr(g.target), expr(g.iter), [expr(c) for c in g.ifs]) for g in n.generators])
    if isinstance(n, ast.Lambda):
        return ("lambda", params(n.args)[0], expr(n.body))
    if isinstance(n, ast.JoinedStr):
        return ("fstr", [expr(v.value) if isinstance(v, ast.FormattedValue) else expr(v) for v in n.values])
    if isinstance(n, ast.Starred):
        return ("star", expr(n.value))
    if isinstance(n, ast.NamedExpr):
        return ("walrus", expr(n.target), expr(n.value))
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
        return ("yield", expr(n.value))
    if isinstance(n, ast.Await):
        return expr(n.value)
    return ("unk", type(n).__name__)


def params(a):
    pos = list(a.posonlyargs) + list(a.args)
    defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, expr(d)) for p, d in zip(pos, defs)]
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((p.arg, expr(d)))
    types = {}
    for p in pos + list(a.kwonlyargs):
        if p.annotation is not None:
            try:
                types[p.arg] = ast.unparse(p.annotation)
            except Exception:
                pass
    return out, (a.vararg.arg if a.vararg else None), (a.kwarg.arg if a.kwarg else None), types


class Builder:
    def __init__(self, modname, file):
        self.m = Module(modname, file)
        self.file = file

    def func(self, n, cls, prefix):
        ps, va, kw, types = params(n.args)
        f = Func(n.name, prefix + n.name, ps, None, cls=cls, file=self.file, line=n.lineno, decorators=[expr(d) for d in n.decorator_list], vararg=va, kwarg=kw, ptypes=types)
        f.static = any(d in (("name", "staticmethod"),) for d in f.decorators)
        f.node = n
        f.body = self.block(n.body, cls, f.qual + ".", skipdoc=True)
        self.m.all_funcs.append(f)
        return f

    def block(self, body, cls, prefix, skipdoc=False):
        out = []
        for i, n in enumerate(body):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            out.extend(self.stmt(n, cls, prefix))
        return out

    def stmt(self, n, cls, prefix):
        L = n.lineno
        if isinstance(n, ast.Assign):
            return [("assign", [expr(t) for t in n.targets], expr(n.value), L)]
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return []
            return [("assign", [expr(n.target)], expr(n.value), L)]
        if isinstance(n, ast.AugAssign):
            return [("aug", expr(n.target), BIN[type(n.op)], expr(n.value), L)]
        if isinstance(n, ast.Expr):
            return [("expr", expr(n.value), L)]
        if isinstance(n, ast.If):
            return [("if", expr(n.test), self.block(n.body, cls, prefix), self.block(n.orelse, cls, prefix), L)]
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return [("for", expr(n.target), expr(n.iter), self.block(n.body, cls, prefix), self.block(n.orelse, cls, prefix), L)]
        if isinstance(n, ast.While):
            return [("while", expr(n.test), self.block(n.body, cls, prefix), self.block(n.orelse, cls, prefix), L)]
        if isinstance(n, ast.Return):
            return [("return", expr(n.value), L)]
        if isinstance(n, ast.Break):
            return [("break", L)]
        if isinstance(n, ast.Continue):
            return [("continue", L)]
        if isinstance(n, ast.Raise):
            return [("raise", expr(n.exc), L)]
        if isinstance(n, ast.Try):
            hs = [(expr(h.type), h.name, self.block(h.body, cls, prefix)) for h in n.handlers]
            return [("try", self.block(n.body, cls, prefix), hs, self.block(n.orelse, cls, prefix), self.block(n.finalbody, cls, prefix), L)]
        if isinstance(n, ast.With):
            return [("with", [(expr(i.context_expr), expr(i.optional_vars)) for i in n.items], self.block(n.body, cls, prefix), L)]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return [("def", self.func(n, None, prefix), L)]
        if isinstance(n, ast.ClassDef):
            return [("class", self.cls(n, prefix), L)]
        if isinstance(n, ast.Assert):
            return [("assert", expr(n.test), L)]
        if isinstance(n, ast.Delete):
            return [("del", [expr(t) for t in n.targets], L)]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            self.imp(n)
            return []
        if isinstance(n, ast.Global):
            return [("global", list(n.names), L)]
        if isinstance(n, ast.Match):
            # match/case -> if chain on opaque tests
            out = []
            subj = expr(n.subject)
            chain = []
            for c in reversed(n.cases):
                p = c.pattern
                if isinstance(p, ast.MatchValue):
                    t = ("cmp", "==", subj, expr(p.value))
                elif isinstance(p, ast.MatchSingleton):
                    t = ("cmp", "is", subj, ("const", p.value))
                elif isinstance(p, ast.MatchAs) and p.pattern is None:
                    t = ("const", True)
                elif isinstance(p, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in p.patterns):
                    t = ("or", [("cmp", "==", subj, expr(q.value)) for q in p.patterns])
                else:
                    t = ("unk", "match")
                if c.guard is not None:
                    t = ("and", [t, expr(c.guard)])
                chain = [("if", t, self.block(c.body, cls, prefix), chain, L)]
            return chain
        return []

    def imp(self, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                self.m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        else:
            mod = ("." * n.level) + (n.module or "")
            for a in n.names:
                if a.name == "*":
                    self.m.star.append(mod)
                else:
                    self.m.imports[a.asname or a.name] = mod + ":" + a.name

    def cls(self, n, prefix=""):
        c = Cls(n.name, self.file, n.lineno, [expr(b) for b in n.bases])
        c.qual = prefix + n.name
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.func(b, c, prefix + n.name + ".")
                decs = f.decorators
                if any(d[0] == "attr" and d[2] == "setter" for d in decs):
                    c.setters[b.name] = f
                else:
                    c.methods[b.name] = f
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.fields[t.id] = expr(b.value)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.fields[b.target.id] = expr(b.value) if b.value is not None else None
        return c

    def build(self, src):
        tree = src if isinstance(src, ast.AST) else ast.parse(src)
        self.m.tree = tree
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.m.funcs[n.name] = self.func(n, None, "")
            elif isinstance(n, ast.ClassDef):
                c = self.cls(n)
                self.m.classes[n.name] = c
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imp(n)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                pass
            else:
                ss = self.stmt(n, None, "")
                self.m.toplevel.extend(ss)
                for s in ss:
                    if s[0] == "assign":
                        for t in s[1]:
                            if t[0] == "name":
                                self.m.globals[t[1]] = s[2]
        # imports nested in functions
        for n in ast.walk(tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imp(n)
        return self.m


def load(path, modname):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    return Builder(modname, path).build(src)
