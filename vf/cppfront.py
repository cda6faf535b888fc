"""clang JSON AST -> mini-IR (only declarations located in the analysed repository are kept)."""
import json
import os
import re
import subprocess
import tempfile
from .ir import Func, Cls, Module

_FILE = re.compile(rb'(includedFrom": \{\s+)?"file": "([^"]*)"')


class FrontendError(Exception):
    pass


def dump(path, args):
    fd, tmp = tempfile.mkstemp(prefix="vfast", suffix=".json")
    try:
        p = subprocess.run(["clang++", "-std=c++17", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json"] + args + [path], stdout=fd, stderr=subprocess.PIPE)
        os.close(fd)
        if p.returncode != 0:
            raise FrontendError("clang cannot parse %s:\n%s" % (path, p.stderr.decode()[:2000]))
        with open(tmp, "rb") as f:
            return f.read()
    finally:
        os.unlink(tmp)


_MARK = re.compile(r'^# (\d+) "([^"]*)"')


def fast_decls(path, args, root):
    """Parse with every repository declaration wrapped in one namespace, so that clang dumps only those.

    Returns parsed declarations with original files and line numbers, or None when the wrapped unit does not compile."""
    p = subprocess.run(["clang++", "-std=c++17", "-w", "-E"] + args + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontendError("clang cannot preprocess %s:\n%s" % (path, p.stderr.decode()[:2000]))
    root = os.path.abspath(root)
    out, lmap = [], {}
    cur, line, inside = None, 0, False
    for ln in p.stdout.decode(errors="replace").split("\n"):
        m = _MARK.match(ln)
        if m:
            cur, line = m.group(2), int(m.group(1))
            mine = os.path.abspath(cur).startswith(root) and not cur.startswith("<")
            if mine != inside:
                out.append("namespace vfns_ {" if mine else "}")
                inside = mine
            out.append(ln)
            continue
        out.append(ln)
        lmap[len(out)] = (cur, line)
        line += 1
    if inside:
        out.append("}")
    fd, tmp = tempfile.mkstemp(prefix="vfast", suffix=".ii")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(out))
        q = subprocess.run(["clang++", "-std=c++17", "-w", "-fsyntax-only", "-x", "c++-cpp-output", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=vfns_"] + args + [tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        os.unlink(tmp)
    if q.returncode != 0:
        return None
    dec = json.JSONDecoder()
    text = q.stdout.decode(errors="replace").replace("vfns_::", "")
    pos = 0
    decls = []
    while True:
        j = text.find("{", pos)
        if j == -1:
            break
        d, pos = dec.raw_decode(text, j)
        decls.append(d)
    st = [0]

    def mapl(n):
        if isinstance(n, dict):
            if "offset" in n and "col" in n:
                if "line" in n:
                    st[0] = n["line"]
                n["line"] = lmap.get(st[0], (None, 0))[1]
                return
            for k, v in n.items():
                if k in ("loc", "range", "begin", "end", "spellingLoc", "expansionLoc"):
                    mapl(v)
            if "range" in n and "kind" in n:
                pass
            for x in n.get("inner", ()):
                mapl(x)
        elif isinstance(n, list):
            for x in n:
                mapl(x)

    out = []
    for d in decls:
        # file of the block: from the first located declaration inside
        if d.get("kind") != "NamespaceDecl":
            continue
        st[0] = 0
        for key in ("loc", "range"):
            if key in d:
                mapl(d[key])
        for x in d.get("inner", []):
            mapl(x)
            x["_file"] = lmap.get(st[0], (path, 0))[0]
            out.append(x)
    return out


def top_decls(data, root):
    """yield parsed JSON of the top-level declarations located under root"""
    i = data.find(b'"inner": [')
    pos = data.find(b"\n    {", i)
    last = b""
    out = []
    rootb = root.encode()
    while pos != -1:
        end = data.find(b"\n    }", pos)
        if end == -1:
            break
        chunk = data[pos + 1:end + 6]
        # file of this declaration: the first non-includedFrom file before "inner", else the last one seen
        head_end = chunk.find(b'"inner": [')
        head = chunk if head_end == -1 else chunk[:head_end]
        # loc first
        loc = head.find(b'"loc": {')
        rng = head.find(b'"range": {')
        f_here = None
        for m in _FILE.finditer(head):
            if m.group(1):
                continue
            f_here = m.group(2)
            if True:
                pass
            break
        cur = f_here if f_here is not None else last
        if cur.startswith(rootb) or (f_here is None and last.startswith(rootb)):
            d = json.loads(chunk)
            d["_file"] = cur.decode()
            out.append(d)
        # update last
        k = chunk.rfind(b'"file": "')
        while k != -1:
            pre = chunk[max(0, k - 60):k]
            if pre.rstrip().endswith(b'"includedFrom": {'):
                k = chunk.rfind(b'"file": "', 0, k)
                continue
            e = chunk.find(b'"', k + 9)
            last = chunk[k + 9:e]
            break
        pos = data.find(b"\n    {", end)
        nxt = data[end + 6:end + 8]
        if not nxt.startswith(b","):
            break
    return out


def assign_lines(node, st):
    """absolute line numbers: clang prints 'line' only when it changes"""
    if isinstance(node, dict):
        if "offset" in node and ("col" in node):
            if "line" in node:
                st[0] = node["line"]
            else:
                node["line"] = st[0]
            return
        for k, v in node.items():
            if k in ("loc", "range", "begin", "end", "spellingLoc", "expansionLoc", "inner"):
                assign_lines(v, st)
    elif isinstance(node, list):
        for x in node:
            assign_lines(x, st)


def line_of(n):
    for key in ("loc",):
        l = n.get(key)
        if isinstance(l, dict):
            if "line" in l:
                return l["line"]
            if "expansionLoc" in l:
                return l["expansionLoc"].get("line", 0)
    r = n.get("range", {}).get("begin", {})
    if "line" in r:
        return r["line"]
    if "expansionLoc" in r:
        return r["expansionLoc"].get("line", 0)
    return 0


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def qt_raw(n):
    return n.get("type", {}).get("qualType", "")


INTT = re.compile(r"^(const )?(unsigned |signed )?(int|long|long long|short|char|size_t|unsigned|unsigned int|unsigned long|std::size_t|bool|size_type|difference_type|uint\w*|int\d+_t|std::vector<.*>::size_type|std::ptrdiff_t|ptrdiff_t|__gnu_cxx.*difference_type|VehicleState|RouteChoicePrinciple)$")
FLT = re.compile(r"^(const )?(double|float|long double)$")


def is_intt(t):
    t = t.replace(" &", "").strip()
    return bool(INTT.match(t))


def is_flt(t):
    return bool(FLT.match(t.replace(" &", "").strip()))


def clsname(t):
    t = t.replace("const ", "").replace("struct ", "").replace("class ", "")
    t = t.rstrip("*& ").strip()
    return t.split("::")[-1] if "<" not in t else t


CONT = re.compile(r"^(const )?(std::)?(vector|deque|map|unordered_map|set|unordered_set|basic_string|string|pair|priority_queue|queue)\b")


class Conv:
    def __init__(self, mod):
        self.refalias = {}
        self.m = mod
        self.enums = {}
        self.methods_by_id = {}

    # ------------------------------------------------------------ expressions
    def e(self, n):
        k = n.get("kind")
        I = n.get("inner", [])
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr"):
            if not I:
                return ("unk", k)
            inner = self.e(I[-1])
            ck = n.get("castKind", "")
            if ck == "FloatingToIntegral":
                return ("call", ("name", "int"), [inner], [], line_of(n))
            return inner
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr", "CXXRewrittenBinaryOperator"):
            return self.e(I[0]) if I else ("unk", k)
        if k == "IntegerLiteral":
            return ("const", int(n["value"]))
        if k == "FloatingLiteral":
            return ("const", float(n["value"]))
        if k == "StringLiteral":
            try:
                return ("const", json.loads(n["value"]))
            except Exception:
                return ("const", n["value"])
        if k == "CharacterLiteral":
            return ("const", n["value"])
        if k == "CXXBoolLiteralExpr":
            return ("const", bool(n["value"]))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("const", None)
        if k == "CXXThisExpr":
            return ("name", "self")
        if k == "DeclRefExpr":
            r = n.get("referencedDecl", {})
            if r.get("kind") == "EnumConstantDecl":
                return ("name", "@enum:" + r.get("name", "?"))
            if r.get("id") in self.refalias:
                return self.refalias[r["id"]]
            return ("name", r.get("name", "?"))
        if k == "MemberExpr":
            base = self.e(I[0]) if I else ("name", "self")
            return ("attr", base, n.get("name", "?"))
        if k == "ArraySubscriptExpr":
            return ("idx", self.e(I[0]), self.e(I[1]))
        if k == "UnaryOperator":
            op = n.get("opcode")
            x = self.e(I[0])
            if op == "!":
                return ("not", x)
            if op == "-":
                if x[0] == "const" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
                    return ("const", -x[1])
                return ("un", "-", x)
            if op in ("*", "&", "+"):
                return x
            if op in ("++", "--"):
                return ("incdec", x, "+" if op == "++" else "-", bool(n.get("isPostfix")))
            return ("un", op, x)
        if k == "BinaryOperator":
            op = n.get("opcode")
            l, r = self.e(I[0]), self.e(I[1])
            if op == "&&":
                return ("and", [l, r])
            if op == "||":
                return ("or", [l, r])
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return ("cmp", op, l, r)
            if op == "=":
                return ("walrus", l, r)
            if op == "/" and is_intt(qt(n)):
                return ("bin", "//", l, r)
            if op == ",":
                return ("seq", [l, r])
            return ("bin", op, l, r)
        if k == "CompoundAssignOperator":
            return ("augx", self.e(I[0]), n["opcode"][:-1], self.e(I[1]), is_intt(qt(n)))
        if k == "ConditionalOperator":
            return ("ite", self.e(I[0]), self.e(I[1]), self.e(I[2]))
        if k == "CXXMemberCallExpr":
            c = I[0]
            args = [self.e(a) for a in I[1:] if a.get("kind") != "CXXDefaultArgExpr"]
            while c.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                c = c["inner"][0]
            if c.get("kind") == "MemberExpr":
                bi = c.get("inner", [])
                base = self.e(bi[0]) if bi else ("name", "self")
                bt = clsname(qt(bi[0])) if bi else ""
                if str(c.get("name", "")).startswith("operator ") and not args:
                    return base         # conversion function
                return ("call", ("attr", base, c.get("name", "?")), args, [], line_of(n), bt)
            return ("call", self.e(c), args, [], line_of(n))
        if k == "CXXOperatorCallExpr":
            f = I[0]
            while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                f = f["inner"][0]
            op = f.get("referencedDecl", {}).get("name", "")
            args = [self.e(a) for a in I[1:]]
            if op == "operator[]":
                return ("idx", args[0], args[1])
            if op == "operator()":
                return ("call", args[0], args[1:], [], line_of(n))
            if op in ("operator*", "operator->") and len(args) == 1:
                return ("deref", args[0])
            if op == "operator=":
                return ("walrus", args[0], args[1])
            if op in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
                return ("cmp", op[8:], args[0], args[1])
            if op in ("operator+", "operator-", "operator*", "operator/") and len(args) == 2:
                return ("bin", op[8:], args[0], args[1])
            if op == "operator+=":
                return ("augx", args[0], "+", args[1], False)
            if op == "operator-=":
                return ("augx", args[0], "-", args[1], False)
            if op in ("operator++", "operator--"):
                return ("incdec", args[0], "+" if op == "operator++" else "-", len(args) > 1)
            if op == "operator<<":
                return ("call", ("name", "@stream"), args, [], line_of(n))
            return ("call", ("name", op), args, [], line_of(n))
        if k == "CallExpr":
            args = [self.e(a) for a in I[1:] if a.get("kind") != "CXXDefaultArgExpr"]
            return ("call", self.e(I[0]), args, [], line_of(n))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [self.e(a) for a in I if a.get("kind") != "CXXDefaultArgExpr"]
            t = clsname(qt(n))
            if len(args) == 1 and (n.get("elidable") or CONT.match(qt_raw(n)) or CONT.match(qt(n)) or True):
                if CONT.match(qt(n)) and I and is_intt(qt(I[0])) and not I[0].get("kind") == "InitListExpr":
                    return ("call", ("name", "@sized"), args, [], line_of(n))
                return args[0]
            if len(args) == 0:
                if CONT.match(qt(n)):
                    return ("list", [])
                return ("call", ("name", t), [], [], line_of(n))
            if t.startswith("pair") or t.startswith("std::pair") or t.startswith("tuple"):
                return ("tuple", args)
            if CONT.match(qt(n)):
                return ("call", ("name", "@sized"), args, [], line_of(n))
            return ("call", ("name", t), args, [], line_of(n))
        if k == "CXXNewExpr":
            for x in I:
                if x.get("kind") == "CXXConstructExpr":
                    t = clsname(qt(x))
                    return ("call", ("name", t), [self.e(a) for a in x.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"], [], line_of(n))
            return ("unk", k)
        if k == "CXXDeleteExpr":
            return ("call", ("name", "@delete"), [self.e(x) for x in I], [], line_of(n))
        if k == "InitListExpr":
            return ("list", [self.e(x) for x in I])
        if k == "LambdaExpr":
            ps, body = [], []
            for x in I:
                if x.get("kind") == "CXXRecordDecl":
                    for m in x.get("inner", []):
                        if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                            for p in m.get("inner", []):
                                if p.get("kind") == "ParmVarDecl":
                                    ps.append((p.get("name", "_"), None))
                                elif p.get("kind") == "CompoundStmt":
                                    body = self.s(p)
                        elif m.get("kind") == "FunctionTemplateDecl":
                            for mm in m.get("inner", []):
                                if mm.get("kind") == "CXXMethodDecl" and mm.get("name") == "operator()":
                                    ps = [(p.get("name", "_"), None) for p in mm.get("inner", []) if p.get("kind") == "ParmVarDecl"]
                                    for p in mm.get("inner", []):
                                        if p.get("kind") == "CompoundStmt":
                                            body = self.s(p)
                                    break
            f = Func("<lambda>", "<lambda>", ps, body, file=self.m.file, line=line_of(n), lang="cpp")
            return ("lambdaf", f)
        if k == "CXXThrowExpr":
            return ("throw", self.e(I[0]) if I else None)
        if k == "CXXDefaultArgExpr":
            return self.e(I[0]) if I else ("unk", "defaultarg")
        if k == "CXXDefaultInitExpr":
            return self.e(I[0]) if I else ("unk", "defaultinit")
        if k in ("CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            return ("const", 0)
        if k == "PredefinedExpr":
            return ("const", "__func__")
        if k == "UnaryExprOrTypeTraitExpr":
            return ("unk", "sizeof")
        if k in ("UnresolvedLookupExpr",):
            return ("name", n.get("name", "?"))
        if k in ("CXXDependentScopeMemberExpr",):
            return ("attr", self.e(I[0]) if I else ("name", "self"), n.get("member", "?"))
        return ("unk", k or "?")

    # ------------------------------------------------------------ statements
    def block(self, n):
        if n is None or not n:
            return []
        return self.s(n)

    def s(self, n):
        k = n.get("kind")
        I = n.get("inner", [])
        L = line_of(n)
        if k == "CompoundStmt":
            out = []
            for x in I:
                out.extend(self.s(x))
            return out
        if k == "DeclStmt":
            out = []
            for d in I:
                out.extend(self.vardecl(d))
            return out
        if k == "IfStmt":
            J = list(I)
            pre = []
            if n.get("hasInit"):
                pre += self.s(J.pop(0))
            if n.get("hasVar"):
                pre += self.s(J.pop(0))
            c = self.e(J[0])
            t = self.block(J[1])
            e = self.block(J[2]) if len(J) > 2 else []
            return pre + [("if", c, t, e, L)]
        if k == "ForStmt":
            init, var, cond, inc, body = (I + [{}] * 5)[:5]
            return self.forstmt(init, cond, inc, body, L)
        if k == "CXXForRangeStmt":
            # inner: init, range decl, begin, end, cond, inc, loop var, body
            rng = None
            var = None
            body = I[-1]
            for x in I[:-1]:
                if x and x.get("kind") == "DeclStmt":
                    for d in x.get("inner", []):
                        nm = d.get("name", "")
                        if nm.startswith("__range"):
                            rng = self.e(d["inner"][0])
                        elif nm.startswith("__"):
                            pass
                        else:
                            var = d
            if var is not None and var.get("kind") == "DecompositionDecl":
                tgt = ("tuple", [("name", b.get("name")) for b in var.get("inner", []) if b.get("kind") == "BindingDecl"])
            else:
                tgt = ("name", var.get("name") if var else "_")
            return [("for", tgt, rng or ("unk", "range"), self.block(body), [], L)]
        if k == "WhileStmt":
            J = [x for x in I]
            return [("while", self.e(J[0]), self.block(J[-1]), [], L)]
        if k == "DoStmt":
            body = self.block(I[0])
            return body + [("while", self.e(I[1]), body, [], L)]
        if k == "ReturnStmt":
            return [("return", self.e(I[0]) if I else None, L)]
        if k == "BreakStmt":
            return [("break", L)]
        if k == "ContinueStmt":
            return [("continue", L)]
        if k == "NullStmt":
            return []
        if k == "CXXTryStmt":
            hs = []
            for h in I[1:]:
                hi = h.get("inner", [])
                hs.append((None, None, self.block(hi[-1]) if hi else []))
            return [("try", self.block(I[0]), hs, [], [], L)]
        if k == "SwitchStmt":
            return self.switch(n, L)
        if k in ("LabelStmt", "AttributedStmt"):
            return self.block(I[-1]) if I else []
        if k and k.endswith("Directive"):
            out = []
            for x in I:
                if x.get("kind", "").endswith("Stmt"):
                    out += self.s(x)
            return out
        if k == "CapturedStmt":
            return self.s(I[0].get("inner", [{}])[0]) if I else []
        # expression statement
        return self.exprstmt(n, L)

    def switch(self, n, L):
        I = n.get("inner", [])
        subj = self.e(I[-2])
        body = I[-1].get("inner", []) if I[-1].get("kind") == "CompoundStmt" else [I[-1]]
        groups = []
        cur = None
        for x in body:
            labels = []
            while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    labels.append(self.e(x["inner"][0]))
                else:
                    labels.append(None)
                x = x["inner"][-1] if x.get("inner") else {}
            if labels:
                cur = (labels, [])
                groups.append(cur)
            if cur is not None and x:
                cur[1].extend(self.s(x))
        chain = []
        for labels, b in reversed(groups):
            b = [z for z in b]
            if b and b[-1][0] == "break":
                b = b[:-1]
            if None in labels:
                chain = b if not chain else chain
                if None in labels and not chain:
                    chain = b
                continue
            c = ("or", [("cmp", "==", subj, l) for l in labels]) if len(labels) > 1 else ("cmp", "==", subj, labels[0])
            chain = [("if", c, b, chain, L)]
        return chain

    def exprstmt(self, n, L):
        x = self.e(n)
        return self.estmt(x, L)

    def estmt(self, x, L):
        if x[0] == "walrus":
            if x[2][0] == "walrus":
                pre = self.estmt(x[2], L)
                return pre + [("assign", [x[1]], x[2][1], L)]
            return [("assign", [x[1]], x[2], L)]
        if x[0] == "augx":
            op = x[2]
            if op == "/" and x[4]:
                op = "//"
            return [("aug", x[1], op, x[3], L)]
        if x[0] == "incdec":
            return [("aug", x[1], x[2], ("const", 1), L)]
        if x[0] == "throw":
            return [("raise", x[1], L)]
        if x[0] == "seq":
            out = []
            for y in x[1]:
                out += self.estmt(y, L)
            return out
        return [("expr", x, L)]

    def vardecl(self, d):
        if d.get("kind") == "DecompositionDecl":
            I = d.get("inner", [])
            names = [b.get("name") for b in I if b.get("kind") == "BindingDecl"]
            init = [b for b in I if b.get("kind") != "BindingDecl"]
            if init:
                return [("assign", [("tuple", [("name", x) for x in names])], self.e(init[0]), line_of(d))]
            return []
        if d.get("kind") != "VarDecl":
            return []
        I = [x for x in d.get("inner", []) if not x.get("kind", "").endswith("Attr")]
        nm = d.get("name", "_")
        t = qt(d)
        if d.get("storageClass") == "static":
            pass
        if I:
            v = self.e(I[-1])
            if CONT.match(t) and t.endswith("&") and v[0] == "attr" and v[1] == ("name", "self") and d.get("id"):
                # a reference to a container is the container itself
                self.refalias[d["id"]] = v
                return []
            if CONT.match(t) and not t.endswith("&") and not t.endswith("*") and v[0] in ("name", "attr", "idx"):
                v = ("call", ("name", "list"), [v], [], line_of(d))
            elif is_flt(t) and v[0] == "const" and isinstance(v[1], int) and not isinstance(v[1], bool):
                v = ("const", v[1])
        else:
            if CONT.match(t):
                v = ("list", [])
            else:
                v = ("unk", "uninit")
        return [("assign", [("name", nm)], v, line_of(d))]

    def forstmt(self, init, cond, inc, body, L):
        ini = self.block(init)
        b = self.block(body)
        c = self.e(cond) if cond else ("const", True)
        incs = self.exprstmt(inc, L) if inc else []
        # canonical counted loop
        if len(ini) == 1 and ini[0][0] == "assign" and c[0] == "cmp" and len(incs) == 1 and incs[0][0] == "aug":
            var = ini[0][1][0]
            if incs[0][1] == var and incs[0][3] == ("const", 1):
                up = incs[0][2] == "+"
                l, op, r = c[2], c[1], c[3]
                if r == var:
                    l, r = r, l
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}[op]
                if l == var and not _assigned(b, var):
                    if up and op in ("<", "!="):
                        return [("for", var, ("call", ("name", "range"), [ini[0][2], r], [], L), b, [], L)]
                    if up and op == "<=":
                        return [("for", var, ("call", ("name", "range"), [ini[0][2], ("bin", "+", r, ("const", 1))], [], L), b, [], L)]
                    if not up and op == ">=":
                        return [("for", var, ("call", ("name", "range"), [ini[0][2], ("bin", "-", r, ("const", 1)), ("const", -1)], [], L), b, [], L)]
                    if not up and op in (">", "!="):
                        return [("for", var, ("call", ("name", "range"), [ini[0][2], r, ("const", -1)], [], L), b, [], L)]
        return ini + [("while", c, b, [], L, incs)]

    # ------------------------------------------------------------ declarations
    def func(self, d, cls, qual):
        ps, types = [], {}
        body = None
        inits = []
        for x in d.get("inner", []):
            if x.get("kind") == "ParmVarDecl":
                nm = x.get("name", "_%d" % len(ps))
                di = [y for y in x.get("inner", []) if not y.get("kind", "").endswith("Attr")]
                ps.append((nm, self.e(di[0]) if di else None))
                types[nm] = qt_raw(x)
            elif x.get("kind") == "CompoundStmt":
                body = x
            elif x.get("kind") == "CXXCtorInitializer":
                ai = x.get("anyInit")
                if ai and x.get("inner"):
                    v = self.e(x["inner"][0])
                    if v[0] == "unk" and v[1] in ("defaultinit",):
                        continue
                    # implicit default construction of non-listed members
                    inits.append(("assign", [("attr", ("name", "self"), ai.get("name"))], v, line_of(d)))
        if body is None and not inits:
            return None
        b = inits + (self.s(body) if body else [])
        rt = d.get("type", {}).get("qualType", "")
        f = Func(d.get("name"), qual, ps, b, cls=cls, file=d.get("_file", self.m.file), line=line_of(d), lang="cpp", ptypes=types, static=d.get("storageClass") == "static", rettype=rt)
        f.end = d.get("range", {}).get("end", {}).get("line", 0)
        self.m.all_funcs.append(f)
        return f


def _assigned(body, var):
    from .ir import stmts_walk, expr_walk, stmt_exprs
    for s in stmts_walk(body):
        if s[0] == "assign" and var in s[1]:
            return True
        if s[0] == "aug" and s[1] == var:
            return True
        for e in stmt_exprs(s):
            for x in expr_walk(e):
                if x and x[0] in ("incdec",) and x[1] == var:
                    return True
                if x and x[0] in ("walrus", "augx") and x[1] == var and s[0] not in ("assign", "aug"):
                    return True
    return False


def build(path, args, root):
    decls = fast_decls(path, args, root)
    mapped = decls is not None
    if decls is None:
        data = dump(path, args)
        decls = top_decls(data, root)
        del data
    mod = Module(os.path.basename(path), path)
    cv = Conv(mod)
    st = [0]
    # flatten namespaces
    flat = []

    def flatten(ds, f):
        for d in ds:
            d.setdefault("_file", f)
            if d.get("kind") in ("NamespaceDecl", "LinkageSpecDecl"):
                flatten(d.get("inner", []), d["_file"])
            else:
                flat.append(d)

    if not mapped:
        for d in decls:
            assign_lines(d, st)
    flatten(decls, path)
    ids = {}
    for d in flat:
        if d.get("kind") == "CXXRecordDecl" and d.get("completeDefinition"):
            c = Cls(d.get("name", "?"), d["_file"], line_of(d))
            mod.classes[c.name] = c
            ids[d.get("id")] = c
            for x in d.get("inner", []):
                if x.get("kind") == "FieldDecl":
                    di = [y for y in x.get("inner", []) if not y.get("kind", "").endswith("Attr")]
                    c.fields[x.get("name")] = (qt_raw(x), cv.e(di[0]) if di and x.get("hasInClassInitializer") else None)
                    cv  # noqa
        elif d.get("kind") == "EnumDecl":
            val = -1
            for x in d.get("inner", []):
                if x.get("kind") == "EnumConstantDecl":
                    val += 1
                    for y in x.get("inner", []):
                        if y.get("kind") == "ConstantExpr":
                            try:
                                val = int(y.get("value"))
                            except Exception:
                                pass
                    mod.globals["@enum:" + x["name"]] = ("const", x["name"])
    for d in flat:
        if d.get("kind") == "CXXRecordDecl" and d.get("id") in ids:
            c = ids[d["id"]]
            for x in d.get("inner", []):
                x["_file"] = d["_file"]
                if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and not x.get("isImplicit"):
                    f = cv.func(x, c, c.name + "::" + x.get("name", "?"))
                    if f:
                        c.methods[_mname(x, c)] = f
        elif d.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
            c = ids.get(d.get("parentDeclContextId"))
            if c is None:
                continue
            f = cv.func(d, c, c.name + "::" + d.get("name", "?"))
            if f:
                c.methods[_mname(d, c)] = f
        elif d.get("kind") == "FunctionDecl":
            f = cv.func(d, None, d.get("name", "?"))
            if f:
                mod.funcs[f.name] = f
        elif d.get("kind") == "FunctionTemplateDecl":
            for x in d.get("inner", []):
                if x.get("kind") == "FunctionDecl":
                    x["_file"] = d["_file"]
                    f = cv.func(x, None, x.get("name", "?"))
                    if f and f.name not in mod.funcs:
                        mod.funcs[f.name] = f
                    break
        elif d.get("kind") == "VarDecl":
            mod.globals[d.get("name")] = ("unk", "global")
            mod.globals["@tls:" + d.get("name", "?")] = ("const", d.get("tls") or "")
    return mod


def _mname(d, c):
    if d.get("kind") == "CXXConstructorDecl":
        return "__init__"
    if d.get("kind") == "CXXDestructorDecl":
        return "__del__"
    return d.get("name")
