"""P11: results of the C++ engine do not depend on the number of threads (ownership effect analysis of the OpenMP regions)."""
import re
from .common import *
from .. import cppraw as X, cppeff as E

_C = {}


def regs():
    if "r" not in _C:
        out = []
        for u, fn, n, b, par in E.regions():
            k = n["kind"]
            a = None
            if k in ("OMPForDirective", "OMPParallelForDirective", "OMPForSimdDirective", "OMPParallelForSimdDirective", "OMPTaskLoopDirective"):
                if b is None or b.get("kind") not in ("ForStmt", "CXXForRangeStmt"):
                    raise Floor("the work-shared loop at %s could not be read" % fn.where(n))
                a = E.analyse(u, fn, n, b, par)
            elif k.startswith("OMPParallel"):
                a = E.analyse_common(u, fn, n, b)
            out.append((u, fn, n, b, par, a, E.pragma(fn, n)))
        _C["r"] = out
    return _C["r"]


def loops():
    return [t for t in regs() if t[5] is not None and t[4] is not t[2] and t[2]["kind"] != "OMPParallelDirective"]


def label(t):
    """stable name of a parallel loop: function and what the loop handles"""
    u, fn, n, b, par, a, pg = t
    calls = []
    for x in X.walk(b) if b else ():
        if x.get("kind") == "CXXMemberCallExpr":
            i = u.fnid.get(X.strip(x["inner"][0]).get("referencedMemberDecl"))
            if i is not None and i.qual not in calls:
                calls.append(i.qual)
    return "%s:%s:%s" % (fn.qual, a.ctx if a else n["kind"], ",".join(calls[:2]))


@rule("P11", "R1", "an iteration of a parallel loop changes only memory of the element it handles")
def r1(c):
    ls = loops()
    c.floor(len(ls), 4, "parallel loops of the C++ engine")
    for t in ls:
        u, fn, n, b, par, a, pg = t
        lb = label(t)
        if a.ctx == "?":
            raise Floor("the elements handled by the parallel loop at %s could not be determined" % fn.where(n))
        c.ob(True, fn.where(n), "%s: %d accesses in %d functions analysed" % (lb, a.sites, len(a.funcs) + 1), "%s:scan" % lb)
        for (w, text) in sorted(a.issues):
            c.ob(False, w, "in the parallel loop at %s: %s" % (fn.where(n), text), "%s:%s" % (lb, re.sub(r":\d+", "", w) + text))
        for (w, text) in sorted(a.unknown):
            c.ob(None, w, "in the parallel loop at %s: %s" % (fn.where(n), text), "%s:%s" % (lb, re.sub(r":\d+", "", w) + text))
        for k in sorted(a.W):
            bad = False
            if k[0] == "World" and len(a.Wkind.get(k[1], {})) > 1:
                bad = True
            c.ob(not bad, a.W[k], "%s.%s is written %s" % (k[0], k[1], "under different kinds of indices by concurrent iterations" if bad else "at the own element only"), "%s:%s.%s" % (lb, k[0], k[1]))


@rule("P11", "R2", "an iteration does not read what another iteration of the same loop changes")
def r2(c):
    for t in loops():
        u, fn, n, b, par, a, pg = t
        lb = label(t)
        for k in sorted(a.Rd):
            hit = k in a.W or (k[0], "*") in a.W
            c.ob(not hit, a.Rd[k], "%s.%s of other elements is read%s" % (k[0], k[1], ", while it is changed at %s by the parallel loop at %s" % (a.W.get(k) or a.W.get((k[0], "*")), fn.where(n)) if hit else ""), "%s:%s.%s" % (lb, k[0], k[1]))


@rule("P11", "R3", "what every thread of a parallel region executes changes no common data")
def r3(c):
    m = 0
    for u, fn, n, b, par, a, pg in regs():
        if n["kind"] != "OMPParallelDirective":
            continue
        m += 1
        c.ob(not a.issues, fn.where(n), "parallel region: " + ("; ".join("%s: %s" % k for k in sorted(a.issues)[:3]) if a.issues else "no common data changed outside of the work-shared loops and serial sections"), fn.qual + ":region")
        for k in sorted(a.unknown):
            c.ob(None, k[0], k[1], fn.qual + ":region-unknown")
    c.floor(m, 1, "parallel regions")


@rule("P11", "R4", "no result is combined in an order, or by a rule, that depends on the threads")
def r4(c):
    for t in regs():
        u, fn, n, b, par, a, pg = t
        k = n["kind"]
        for v in re.findall(r"reduction\s*\(([^)]*)\)", pg):
            names = [x.strip() for x in v.split(":", 1)[-1].split(",")]
            for nm in names:
                ts = {X.dqt(d) for rt in X.roots(fn) for d in X.walk(rt) if d.get("kind") == "VarDecl" and d.get("name") == nm}
                fl = any(y in "".join(ts) for y in ("double", "float"))
                c.ob(not fl if ts else None, fn.where(n), "reduction over %s of type %s" % (nm, "/".join(sorted(ts)) or "?"), "%s:reduction:%s" % (fn.qual, nm))
        if k == "OMPAtomicDirective" or k == "OMPOrderedDirective":
            continue
        if "nowait" in re.findall(r"\w+", pg.split("//")[0]):
            later = [z for z in regs() if z[1].file == fn.file and z[1].id == fn.id and z[4] is par and X.line(z[2]) > X.line(n)]
            c.ob(not later, fn.where(n), "threads do not wait for the others at the end of this construct%s" % (", although %s follows" % later[0][1].where(later[0][2]) if later else ""), fn.qual + ":nowait")
        elif k in ("OMPForDirective",):
            c.ob(True, fn.where(n), "threads wait for each other at the end of the loop", label(t) + ":barrier")
        if k == "OMPMasterDirective" or k == "OMPMaskedDirective":
            later = [z for z in regs() if z[1].id == fn.id and z[4] is par and X.line(z[2]) > X.line(n)]
            nxt = later[0][2]["kind"] if later else None
            c.ob(nxt in (None, "OMPBarrierDirective"), fn.where(n), "serial section without barrier before the next construct", fn.qual + ":master")
    # scheduling information never becomes part of the results
    uses = 0
    for u in X.units():
        for fn in u.all():
            for rt in X.roots(fn):
                for x in X.walk(rt):
                    nm = None
                    if x.get("kind") == "DeclRefExpr" and re.match(r"omp_(get_thread_num|get_num_threads|get_max_threads|get_num_procs|get_wtime|get_team)", x.get("referencedDecl", {}).get("name", "")):
                        nm = x["referencedDecl"]["name"]
                    elif x.get("kind") == "MemberExpr" and x.get("name") == "num_threads":
                        nm = "num_threads"
                    elif x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") in ("get_id", "hardware_concurrency"):
                        nm = x["referencedDecl"]["name"]
                    if nm is None:
                        continue
                    uses += 1
                    ok = only_thread_count(u, fn)
                    c.ob(ok, fn.where(x), "%s %s" % (nm, "determines the number of threads only" if ok else "enters computations"), "%s:%s" % (fn.qual, nm))
    c.floor(uses, 1, "uses of the thread count")


def only_thread_count(u, fn):
    """the function computes the number of threads, and is called for num_threads clauses only"""
    ret = X.dqt(fn.decl).split("(")[0].strip()
    if ret not in ("int", "unsigned int", "unsigned", "long", "size_t", "unsigned long"):
        # constructors and setters that only store it
        return not any(x.get("kind") == "MemberExpr" and x.get("name") == "num_threads" and not stored(fn, x) for rt in X.roots(fn) for x in X.walk(rt)) and not any(
            x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name", "").startswith("omp_get") for rt in X.roots(fn) for x in X.walk(rt))
    for v in X.units():
        for g in v.all():
            for rt in X.roots(g):
                for call in X.walk(rt):
                    if call.get("kind") in ("CXXMemberCallExpr", "CallExpr") and X.callee(call) == fn.qual.split("::")[-1].split(".")[-1]:
                        p = g_parent(g, call)
                        while p is not None and p.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "ExprWithCleanups"):
                            p = g_parent(g, p)
                        if p is None:
                            continue
                        if not p.get("kind") or p["kind"].startswith("OMP") or p["kind"] in ("CapturedStmt", "CapturedDecl"):
                            continue
                        if p.get("kind") == "VarDecl" and clause_var(g, p):
                            continue
                        if p.get("kind") == "ReturnStmt" and g.qual != fn.qual:
                            continue
                        return False
    return True


def clause_var(g, d):
    """the variable is used by num_threads clauses only"""
    for rt in X.roots(g):
        for x in X.walk(rt):
            if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("id") == d.get("id"):
                p = g_parent(g, x)
                while p is not None and p.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"):
                    p = g_parent(g, p)
                if p is not None and p.get("kind") and not p["kind"].startswith("OMP"):
                    return False
    return True


def stored(fn, x):
    p = g_parent(fn, x)
    return p is not None and p.get("kind") == "BinaryOperator" and p.get("opcode") == "=" and p["inner"][0] is x


_PAR = {}


def g_parent(fn, n):
    if id(fn) not in _PAR:
        d = {}
        for rt in X.roots(fn):
            for y in X.walk(rt):
                for z in y.get("inner", []):
                    if isinstance(z, dict):
                        d[id(z)] = y
        _PAR[id(fn)] = d
    return _PAR[id(fn)].get(id(n))


@rule("P11", "R5", "memory a thread keeps between iterations is reset before it is read")
def r5(c):
    m = 0
    for t in loops():
        u, fn, n, b, par, a, pg = t
        inside = {x.get("id") for x in X.walk(b) if x.get("kind") in ("VarDecl", "BindingDecl")}
        # references to scratch memory, declared inside
        alias = {}
        for x in X.walk(b):
            if x.get("kind") == "VarDecl" and X.dqt(x).endswith("&") and x.get("inner"):
                s = X.strip(x["inner"][0])
                if s.get("kind") == "DeclRefExpr":
                    alias[x["id"]] = s["referencedDecl"]["id"]
        first, drained = {}, set()
        region = {x.get("id"): x for x in (X.walk(E.body_of(par), skip=("ForStmt", "CXXForRangeStmt")) if par is not None and par is not n and E.body_of(par) else ()) if x.get("kind") == "VarDecl"}
        for x in order(b):
            k = x.get("kind")
            if k == "WhileStmt":
                s = [y for y in X.walk(x["inner"][0]) if y.get("kind") == "CXXMemberCallExpr" and X.callee(y) == "empty"]
                if s and not any(y.get("kind") in ("BreakStmt", "ReturnStmt", "GotoStmt") for y in X.walk(x, skip=("ForStmt", "CXXForRangeStmt", "LambdaExpr"))):
                    for y in X.walk(s[0]):
                        if y.get("kind") == "DeclRefExpr":
                            drained.add(res(y, alias))
            if k != "DeclRefExpr":
                continue
            d = x.get("referencedDecl", {})
            if d.get("kind") not in ("VarDecl",):
                continue
            i = res(x, alias)
            if i in inside:
                continue
            dd = u.byid.get(i, {})
            if i in region or dd.get("tls"):
                p = g_parent(fn, x)
                if p is not None and p.get("kind") == "VarDecl" and p.get("id") in alias:
                    continue
                first.setdefault(i, (x, dd))
        for i, (x, dd) in first.items():
            if X.qt(dd).startswith("const") or not written(b, i, alias):
                continue
            m += 1
            ok = resets(fn, x) or i in drained
            c.ob(ok, fn.where(x), "scratch %s of the thread is %s" % (dd.get("name"), "reset in every iteration" if ok else "read with what an earlier iteration of the same thread left there"), "%s:%s" % (fn.qual, dd.get("name")))
    c.ob(True, "uxsim/trafficpp", "%d scratch variables of threads checked" % m, "scan")
    # the same for scratch of the thread in functions called by the loops
    qs = {q for t in loops() for q in t[5].funcs}
    for u in X.units():
        for fn in u.all():
            if fn.qual not in qs:
                continue
            seen = {}
            for rt in X.roots(fn):
                for x in order(rt):
                    if x.get("kind") == "DeclRefExpr":
                        i = x.get("referencedDecl", {}).get("id")
                        dd = u.byid.get(i, {})
                        if dd.get("tls") and i not in seen and not X.qt(dd).startswith("const"):
                            seen[i] = x
                            p = g_parent(fn, x)
                            if p is not None and p.get("kind") == "VarDecl":
                                continue
                            ok = resets(fn, x)
                            c.ob(ok, fn.where(x), "thread-local %s is %s" % (dd.get("name"), "reset before use" if ok else "read with what earlier work of the same thread left there"), "%s:%s" % (fn.qual, dd.get("name")))


def res(x, alias):
    i = x.get("referencedDecl", {}).get("id")
    return alias.get(i, i)


def order(n):
    """nodes in order of evaluation (assignments: right side first)"""
    if not isinstance(n, dict):
        return
    yield n
    I = [x for x in n.get("inner", []) if isinstance(x, dict)]
    if n.get("kind") in ("BinaryOperator",) and n.get("opcode") == "=" and len(I) == 2:
        I = [I[1], I[0]]
    for x in I:
        yield from order(x)


def written(b, i, alias):
    for x in X.walk(b):
        if x.get("kind") in ("CXXMemberCallExpr",):
            mm = X.strip(x["inner"][0])
            if mm.get("kind") == "MemberExpr" and mm.get("name") not in E.CONST_CALLS - {"begin", "end", "front", "back", "at", "data", "top"}:
                s = X.strip(mm["inner"][0]) if mm.get("inner") else {}
                if s.get("kind") == "DeclRefExpr" and res(s, alias) == i:
                    return True
        elif x.get("kind") in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr"):
            op = x.get("opcode") or X.callee(x)
            if op in ("==", "!=", "<=", ">=") or not (op.endswith("=") or op in ("++", "--")):
                continue
            I = x["inner"] if x["kind"] != "CXXOperatorCallExpr" else X.args(x)
            if any(y.get("kind") == "DeclRefExpr" and res(y, alias) == i for y in X.walk(I[0])):
                return True
    return False


def resets(fn, x):
    """the reference resets the object: plain assignment, assign(), clear(), fill over its whole range"""
    p, y = g_parent(fn, x), x
    while p is not None and p.get("kind") in ("ImplicitCastExpr", "ParenExpr", "MemberExpr") and p.get("kind") != "VarDecl":
        if p.get("kind") == "MemberExpr":
            if p.get("name") in ("assign", "clear"):
                return True
            if p.get("name") in ("begin",):
                q = g_parent(fn, g_parent(fn, p) or {})
                z = p
                for _ in range(8):
                    z = g_parent(fn, z)
                    if z is None:
                        return False
                    if z.get("kind") == "CallExpr":
                        return X.callee(z) in ("fill", "fill_n")
                return False
            return False
        y, p = p, g_parent(fn, p)
    if p is None:
        return False
    if p.get("kind") == "BinaryOperator" and p.get("opcode") == "=":
        return p["inner"][0] is y
    if p.get("kind") == "CXXOperatorCallExpr" and X.callee(p) == "operator=":
        return len(p["inner"]) > 1 and p["inner"][1] is y
    return False


@rule("P11", "R6", "errors of concurrent work stay inside the region, the one of the smallest id is reported")
def r6(c):
    n_ = 0
    thr = throwers()
    for t in loops():
        u, fn, n, b, par, a, pg = t
        lb = label(t)
        # calls that may throw outside of a catch-all
        body = a.body
        for x in unprotected(body):
            nm = None
            if x.get("kind") == "CXXThrowExpr":
                nm = "throw"
            elif x.get("kind") in ("CXXMemberCallExpr", "CallExpr", "CXXConstructExpr"):
                f = X.strip(x["inner"][0]) if x.get("inner") else {}
                g = u.fnid.get(f.get("referencedMemberDecl") or f.get("referencedDecl", {}).get("id"))
                if g is not None and g.id in thr.get(u.path, {}):
                    live = a.states
                    if live is None or not dead_throw(u, g, live, thr[u.path], set()):
                        nm = g.qual
            if nm:
                n_ += 1
                c.ob(False, fn.where(x), "%s may raise an error that would leave the parallel loop" % nm, "%s:%s" % (lb, nm))
        # handlers
        for x in X.walk(body):
            if x.get("kind") == "CXXCatchStmt":
                n_ += 1
                crit = [y for y in X.walk(x) if y.get("kind") == "OMPCriticalDirective"]
                if not crit:
                    c.ob(False, fn.where(x), "the error of an iteration is dropped or stored without protection", lb + ":catch")
                    continue
                ok, why = keeps_smallest(u, fn, crit[0], b, a)
                c.ob(ok, fn.where(crit[0]), why, lb + ":catch")
    c.floor(n_, 1, "error handlers in parallel loops")


def throwers():
    """per unit: ids of functions that may raise"""
    if "t" in _C:
        return _C["t"]
    out = {}
    for u in X.units():
        T = set()
        ch = True
        while ch:
            ch = False
            for fn in u.all():
                if fn.id in T or fn.body is None:
                    continue
                for x in unprotected(fn.body):
                    hit = x.get("kind") == "CXXThrowExpr" or x.get("kind") == "CallExpr" and X.callee(x) == "rethrow_exception"
                    if x.get("kind") in ("CXXMemberCallExpr", "CallExpr"):
                        f = X.strip(x["inner"][0]) if x.get("inner") else {}
                        g = u.fnid.get(f.get("referencedMemberDecl") or f.get("referencedDecl", {}).get("id"))
                        hit = hit or g is not None and g.id in T
                    if hit:
                        T.add(fn.id)
                        ch = True
                        break
        out[u.path] = T
    _C["t"] = out
    return out


def dead_throw(u, g, live, T, seen):
    """no raising statement of g can be reached for vehicles in these states"""
    if g.id in seen:
        return True
    seen.add(g.id)

    def go(n):
        if not isinstance(n, dict):
            return True
        k = n.get("kind")
        if k == "CXXThrowExpr":
            return False
        if k in ("CXXMemberCallExpr", "CallExpr"):
            f = X.strip(n["inner"][0]) if n.get("inner") else {}
            h = u.fnid.get(f.get("referencedMemberDecl") or f.get("referencedDecl", {}).get("id"))
            if h is not None and h.id in T and not dead_throw(u, h, live, T, seen):
                return False
        I = [x for x in n.get("inner", []) if isinstance(x, dict)]
        if k == "IfStmt" and I and g.cls == "Vehicle":
            st = E.state_test(I[0])
            if st is not None:
                names, eq = st
                r = go(I[0])
                for x in I[1:]:
                    pos = x is I[1]
                    allowed = (live & names if eq else live - names) if pos else (live - names if eq else live & names)
                    if allowed:
                        r = r and go(x)
                return r
        return all(go(x) for x in I)
    return go(g.body)


def unprotected(n):
    """nodes outside of try blocks with a catch-all handler"""
    if not isinstance(n, dict):
        return
    k = n.get("kind")
    I = [x for x in n.get("inner", []) if isinstance(x, dict)]
    if k == "CXXTryStmt":
        allh = any(h.get("kind") == "CXXCatchStmt" and not any(isinstance(y, dict) and y.get("kind") == "VarDecl" for y in h.get("inner", [])[:1]) for h in I[1:])
        for x in I[1:]:
            yield from unprotected(x)
        if not allh:
            yield from unprotected(I[0])
        return
    yield n
    if k == "LambdaExpr":
        for x in I:
            if x.get("kind") == "CompoundStmt":
                yield from unprotected(x)
        return
    for x in I:
        yield from unprotected(x)


def keeps_smallest(u, fn, crit, loop, a):
    body = E.body_of(crit)
    sets = []
    for x in X.walk(body):
        if x.get("kind") == "BinaryOperator" and x.get("opcode") == "=" or x.get("kind") == "CXXOperatorCallExpr" and X.callee(x) == "operator=":
            l = X.strip(x["inner"][0] if x["kind"] == "BinaryOperator" else X.args(x)[0])
            r = x["inner"][1] if x["kind"] == "BinaryOperator" else X.args(x)[1]
            sets.append((l.get("referencedDecl", {}).get("id"), l.get("referencedDecl", {}).get("name"), r, x))
    exc = [s for s in sets if any(X.callee(y) == "current_exception" for y in X.walk(s[2]) if y.get("kind") == "CallExpr")]
    if not exc:
        return False, "the handler does not keep the error"
    tests = [x for x in X.walk(body) if x.get("kind") == "BinaryOperator" and x.get("opcode") in ("<", ">", "<=", ">=")]
    for tst in tests:
        l, r = X.strip(tst["inner"][0]), X.strip(tst["inner"][1])
        if tst["opcode"] in (">", ">="):
            l, r = r, l
        # own key < kept key, kept key updated with the own key
        rid = r.get("referencedDecl", {}).get("id")
        if not own_key(l, loop):
            continue
        upd = [s for s in sets if s[0] == rid]
        if upd and own_key(X.strip(upd[0][2]), loop):
            # raised again after the region
            ev = exc[0][0]
            rr = []
            for rt in X.roots(fn):
                for y in X.walk(rt):
                    if y.get("kind") == "CallExpr" and X.callee(y) == "rethrow_exception" and any(z.get("referencedDecl", {}).get("id") == ev for z in X.walk(y) if z.get("kind") == "DeclRefExpr"):
                        rr.append(y)
            inreg = {id(y) for y in X.walk(E.body_of(crit))}
            if rr:
                return True, "the error of the smallest id is kept and raised again after the region"
            return False, "the error kept by the handler is never raised again"
    return False, "which of several errors is kept depends on the order of the threads"


def own_key(e, loop):
    if e.get("kind") == "MemberExpr" and e.get("name") == "id":
        return True
    if e.get("kind") == "DeclRefExpr" and loop is not None and loop.get("kind") == "ForStmt":
        I = loop.get("inner", [])
        ids = [d.get("id") for d in (I[0].get("inner", []) if isinstance(I[0], dict) else []) if d.get("kind") == "VarDecl"]
        return e.get("referencedDecl", {}).get("id") in ids
    return False


@rule("P11", "R7", "exchange of vehicles between links is serial")
def r7(c):
    m = 0
    inpar = set()
    for u, fn, n, b, par, a, pg in regs():
        if a is not None:
            inpar |= a.funcs
    for u in X.units():
        for fn in u.all():
            if fn.qual in ("Node.transfer",) and fn.body is not None and u.path.endswith("traffi.cpp"):
                m += 1
                c.ob("Node.transfer" not in inpar, fn.where(), "transfer over a node is %s" % ("not called by concurrent work" if "Node.transfer" not in inpar else "called by concurrent work although nodes share the links between them"), "Node.transfer")
    c.floor(m, 1, "transfer functions")
