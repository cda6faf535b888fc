"""Raw clang AST of the C++ engine with OpenMP directives, indexed by function (types and declarations kept)."""
import os
import re
from . import cppfront
from . import project as P

SRC = ("traffi.cpp", "dta_solver.cpp")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class Fn:
    def __init__(self, qual, cls, decl, file):
        self.qual, self.cls, self.decl, self.file = qual, cls, decl, file
        self.id = decl.get("id")
        self.line = cppfront.line_of(decl)
        self.params = [x for x in decl.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        self.body = next((x for x in decl.get("inner", []) if x.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)
        self.inits = [x for x in decl.get("inner", []) if x.get("kind") == "CXXCtorInitializer"]

    def where(self, n=None):
        return "%s:%s (%s)" % (short(self.file), line(n) if n is not None and line(n) else self.line, self.qual)


def line(n):
    r = n.get("range", {}).get("begin", {})
    for k in (r, r.get("expansionLoc", {}), r.get("spellingLoc", {}), n.get("loc", {})):
        if k.get("line"):
            return k["line"]
    return 0


def short(f):
    return f[f.index("uxsim"):] if "uxsim" in f else f


class Unit:
    def __init__(self, path, decls):
        self.path = path
        self.byid = {}
        self.funcs = {}       # qual -> Fn
        self.fnid = {}        # decl id -> Fn
        self.classes = {}     # name -> {field: type}
        self.globals = {}     # id -> decl
        self.clsid = {}
        for d in decls:
            self.top(d, d.get("_file", path), None)
        for d in decls:
            self.index(d)

    def index(self, n):
        if not isinstance(n, dict):
            return
        if "id" in n and n["id"] not in self.byid:
            self.byid[n["id"]] = n
        for x in n.get("inner", ()):
            self.index(x)

    def top(self, d, f, cls):
        k = d.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for x in d.get("inner", []):
                self.top(x, x.get("_file", f), None)
        elif k == "CXXRecordDecl" and d.get("completeDefinition"):
            nm = d.get("name", "?")
            self.classes[nm] = {x["name"]: x.get("type", {}).get("qualType", "") for x in d.get("inner", []) if x.get("kind") == "FieldDecl" and "name" in x}
            self.clsid[d.get("id")] = nm
            for x in d.get("inner", []):
                self.top(x, f, nm)
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            c = cls or self.clsid.get(d.get("parentDeclContextId"))
            if any(x.get("kind") in ("CompoundStmt", "CXXTryStmt") for x in d.get("inner", [])) and not d.get("isImplicit"):
                self.add("%s.%s" % (c, d.get("name")), c, d, f)
        elif k == "FunctionDecl":
            if any(x.get("kind") in ("CompoundStmt", "CXXTryStmt") for x in d.get("inner", [])):
                self.add(d.get("name"), None, d, f)
        elif k == "FunctionTemplateDecl":
            for x in d.get("inner", []):
                if x.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                    self.top(x, f, cls)
        elif k == "VarDecl":
            self.globals[d.get("id")] = d

    def add(self, qual, cls, d, f):
        fn = Fn(qual, cls, d, f)
        self.funcs.setdefault(qual, fn)
        self.fnid[d["id"]] = fn
        if d.get("previousDecl"):
            self.fnid[d["previousDecl"]] = fn

    def all(self):
        seen = set()
        for fn in list(self.funcs.values()) + list(self.fnid.values()):
            if fn.id not in seen:
                seen.add(fn.id)
                yield fn


_units = {}


def units(files=SRC):
    out = []
    for f in files:
        p = os.path.join(P.REPO, "uxsim/trafficpp", f)
        if p not in _units:
            d = cppfront.fast_decls(p, ["-fopenmp", "-I" + STUBS, "-I" + os.path.dirname(p)], os.path.dirname(p))
            if d is None:
                raise cppfront.FrontendError("cannot parse %s with OpenMP" % p)
            _units[p] = Unit(p, d)
        out.append(_units[p])
    return out


def functions():
    """every function with a body in the engine's sources, once (template instantiations included)"""
    seen = set()
    for u in units():
        for fn in u.all():
            k = (fn.qual, fn.file, fn.line, str(fn.decl.get("type", {}).get("qualType")))
            if k not in seen:
                seen.add(k)
                yield u, fn


def walk(n, skip=()):
    """all AST nodes below n, without the repeated declarations that follow the body of a captured region"""
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict) or x.get("kind") in skip:
            continue
        yield x
        I = x.get("inner", [])
        if x.get("kind") == "CapturedDecl":
            I = I[:1]
        elif x.get("kind") == "CapturedStmt":
            I = [y for y in I if y.get("kind") == "CapturedDecl"]
        elif x.get("kind") == "LambdaExpr":
            I = [y for y in I if y.get("kind") in ("CompoundStmt", "CXXRecordDecl")][-1:] or I
        st.extend(reversed(I))


def roots(fn):
    return [fn.body] + fn.inits if fn.body is not None else list(fn.inits)


def qt(n):
    t = n.get("type", {})
    return t.get("qualType", "")


def dqt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def strip(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "SubstNonTypeTemplateParmExpr") and n.get("inner"):
        n = n["inner"][-1]
    return n


def callee(n):
    """name called by a call expression"""
    I = n.get("inner", [])
    if not I:
        return ""
    f = strip(I[0])
    if f.get("kind") == "MemberExpr":
        return f.get("name", "")
    return f.get("referencedDecl", {}).get("name", "") or f.get("name", "")


def args(n):
    return n.get("inner", [])[1:]


def ptypes(ft):
    """parameter types of a function type string"""
    m = re.match(r"^[^(]*", ft)
    d = 0
    depth = 0
    start = None
    # the parameter list is the last top-level parenthesis group
    groups = []
    for i, ch in enumerate(ft):
        if ch in "<":
            depth += 1
        elif ch == ">" and ft[i - 1:i] != "-":
            depth -= 1
        elif ch == "(" and depth == 0:
            if d == 0:
                start = i
            d += 1
        elif ch == ")" and depth == 0:
            d -= 1
            if d == 0:
                groups.append((start, i))
    if not groups:
        return []
    a, b = groups[-1]
    s = ft[a + 1:b]
    out, cur, dd = [], "", 0
    for ch in s:
        if ch in "<(":
            dd += 1
        elif ch in ">)":
            dd -= 1
        if ch == "," and dd == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
