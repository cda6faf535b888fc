"""Which engine fields does a C++ function change (itself or through the functions it calls)?"""
import re
from . import cppraw as X

NONCONST = {"push_back", "pop_back", "clear", "erase", "insert", "resize", "assign", "emplace", "emplace_back", "push_front", "pop_front", "swap", "push", "pop", "emplace_front", "splice", "sort", "remove", "remove_if", "reset", "fill", "merge", "seed", "discard", "unique", "reverse"}
ALGO = {"sort", "stable_sort", "shuffle", "reverse", "fill", "fill_n", "iota", "rotate", "swap", "partial_sort", "nth_element", "remove", "remove_if", "unique", "partition", "stable_partition", "transform", "copy", "move", "swap_ranges"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def parents(fn):
    out = {}
    for rt in X.roots(fn):
        for x in X.walk(rt):
            for y in x.get("inner", ()):
                if isinstance(y, dict) and "id" in y:
                    out.setdefault(y["id"], x)
    return out


def base(u, n, d=0):
    """field changed when the object denoted by n changes: (field, type) or None for locals"""
    n = X.strip(n)
    k = n.get("kind")
    if d > 12:
        return None
    I = n.get("inner", [])
    if k == "MemberExpr":
        t = X.qt(n)
        b = X.strip(I[0]) if I else {}
        if not n.get("isArrow") and b.get("kind") in ("DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr", "CallExpr", "CXXMemberCallExpr"):
            inner = base(u, b, d + 1)
            if inner is None and local_value(u, b):
                return None
        return (n.get("name", "?"), t)
    if k == "DeclRefExpr":
        r = n.get("referencedDecl", {})
        t = X.qt(r) if r.get("type") else X.qt(n)
        dec = u.byid.get(r.get("id"))
        if r.get("kind") == "ParmVarDecl":
            if re.search(r"[&*]\s*$", t.replace("const", "").strip()) or t.strip().endswith("&"):
                return ("param:" + r.get("name", "?"), t)
            return None
        if r.get("kind") == "VarDecl":
            if dec is not None and r.get("id") in u.globals:
                return ("global " + r.get("name", "?"), t)
            tt = X.qt(dec) if dec is not None else t
            if tt.strip().endswith("&") or tt.strip().endswith("*"):
                init = (dec or {}).get("inner", [])
                for x in reversed(init):
                    if isinstance(x, dict) and "kind" in x and "Expr" in x["kind"] or isinstance(x, dict) and x.get("kind", "").endswith("Operator"):
                        return base(u, x, d + 1)
            return None
        return None
    if k == "CXXThisExpr":
        return ("*this", X.qt(n))
    if k in ("ArraySubscriptExpr", "UnaryOperator", "CXXOperatorCallExpr", "CXXMemberCallExpr"):
        if k == "CXXOperatorCallExpr" and len(I) > 1:
            return base(u, I[1], d + 1)
        if k == "CXXMemberCallExpr" and I:
            f = X.strip(I[0])
            if f.get("kind") == "MemberExpr" and f.get("inner"):
                return base(u, f["inner"][0], d + 1)
        return base(u, I[0], d + 1) if I else None
    if k == "ConditionalOperator" and len(I) == 3:
        return base(u, I[1], d + 1) or base(u, I[2], d + 1)
    return None


def local_value(u, b):
    b = X.strip(b)
    while b.get("kind") in ("MemberExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr") and b.get("inner"):
        if b.get("kind") == "MemberExpr" and b.get("isArrow"):
            return False
        b = X.strip(b["inner"][1] if b["kind"] == "CXXOperatorCallExpr" and len(b["inner"]) > 1 else b["inner"][0])
    if b.get("kind") != "DeclRefExpr":
        return False
    r = b.get("referencedDecl", {})
    dec = u.byid.get(r.get("id")) or r
    t = X.qt(dec).strip()
    return r.get("kind") in ("VarDecl", "ParmVarDecl") and not t.endswith("&") and not t.endswith("*") and r.get("id") not in u.globals


def own(u, fn):
    """[(field, node, text)] changed by statements of fn itself; calls [(callee id, this-args nodes)]"""
    eff, calls = [], []
    for rt in X.roots(fn):
        for x in X.walk(rt):
            k = x.get("kind")
            I = x.get("inner", [])
            if k in ("BinaryOperator", "CompoundAssignOperator") and x.get("opcode") in ASSIGN:
                b = base(u, I[0])
                if b:
                    eff.append((b[0], x))
            elif k == "UnaryOperator" and x.get("opcode") in ("++", "--"):
                b = base(u, I[0])
                if b:
                    eff.append((b[0], x))
            elif k == "CXXOperatorCallExpr":
                nm = X.callee(x).replace("operator", "").strip()
                if nm in ASSIGN or nm in ("++", "--") or nm == "()" and len(I) > 1 and re.search(r"mersenne|random|engine|minstd", X.dqt(I[1]) + X.qt(I[1])):
                    b = base(u, I[1]) if len(I) > 1 else None
                    if b:
                        eff.append((b[0], x))
                for a in I[2:]:
                    if re.search(r"mersenne_twister|mt19937|minstd|random_device", X.dqt(a) + X.qt(a)):
                        b = base(u, a)
                        if b:
                            eff.append((b[0], x))
            elif k == "CXXMemberCallExpr":
                f = X.strip(I[0]) if I else {}
                nm = f.get("name", "")
                callee_ = u.fnid.get(f.get("referencedMemberDecl"))
                if callee_ is not None:
                    calls.append(callee_)
                elif nm in NONCONST and f.get("inner"):
                    b = base(u, f["inner"][0])
                    if b:
                        eff.append((b[0], x))
            elif k == "CallExpr":
                f = X.strip(I[0]) if I else {}
                r = f.get("referencedDecl", {})
                callee_ = u.fnid.get(r.get("id"))
                if callee_ is not None:
                    calls.append(callee_)
                elif r.get("name") in ALGO and len(I) > 1:
                    b = base(u, I[1])
                    if b and r.get("name") not in ("copy", "transform", "move"):
                        eff.append((b[0], x))
            elif k == "CXXDeleteExpr":
                b = base(u, I[0]) if I else None
                if b:
                    eff.append((b[0], x))
    return eff, calls


_memo = {}


def effects(fn_name, pred=None):
    """(field, where) pairs changed by the C++ function with this qualified name, transitively; None if unknown"""
    u0 = X.units()
    key = fn_name
    if (u0[0].path, key) in _memo:
        return _memo[(u0[0].path, key)]
    res = None
    for u in u0:
        fn = u.funcs.get(fn_name)
        if fn is None:
            continue
        res = []
        seen, st = set(), [fn]
        while st:
            g = st.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            e, calls = own(u, g)
            for fld, n in e:
                if fld.startswith("param:"):
                    if g is not fn:
                        continue
                res.append((fld, g.where(n)))
            st.extend(calls)
        break
    _memo[(u0[0].path, key)] = res
    return res
