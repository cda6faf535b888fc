"""Ownership effect analysis of the parallel loops of the C++ engine.

Every iteration of a work-shared loop handles one element (a link, a node, one row of a table). An abstract value tells
whether memory belongs to that element (own), to the executing thread (priv), to nobody in particular (val) or is
reachable from several iterations (shared, world). Assignments and mutating calls to shared memory, and readings of what
other iterations write, are the violations."""
from . import cppraw as X

VAL = ("val",)
PROJECT = ("Link", "Node", "Vehicle", "World")
# fields through which an own element reaches further own elements: (context, class, field)
OWN_PTR = {("Link", "Vehicle", "link"), ("Link", "Vehicle", "leader"), ("Link", "Vehicle", "follower"), ("Node", "Vehicle", "link"), ("Node", "Vehicle", "leader"),
           ("Node", "Vehicle", "follower"), ("Node", "Vehicle", "orig"), ("Node", "Vehicle", "route_next_link"), ("Node", "Link", "start_node")}
OWN_ELEM = {("Link", "Link", "vehicles"), ("Node", "Link", "vehicles"), ("Node", "Node", "out_links"), ("Node", "Node", "generation_queue")}
CONST_CALLS = {"size", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "front", "back", "at", "count", "find", "data", "capacity", "max_size", "top", "c_str", "length", "max", "min", "contains", "substr", "compare", "key_eq", "bucket_count", "lower_bound", "upper_bound", "equal_range", "get"}
WRITE_ALGOS = {"fill", "fill_n", "sort", "stable_sort", "shuffle", "reverse", "iota", "swap", "iter_swap", "rotate", "unique", "remove", "remove_if", "replace", "replace_if", "generate", "partial_sort", "nth_element", "partition", "random_shuffle"}
COPY_ALGOS = {"copy", "copy_if", "transform", "move", "copy_n", "merge"}
RESETS = {"assign", "clear", "resize", "operator=", "swap"}


def clsof(t):
    t = t.replace("const ", "").replace("struct ", "").replace("class ", "").strip()
    p = t.endswith("*")
    t = t.rstrip("*& ").strip().split("::")[-1]
    return (t, p) if t in PROJECT else (None, p)


def is_ptr_to(t):
    t = t.replace("const", "").strip().rstrip("&").strip()
    c, p = clsof(t)
    return c if p and c and "<" not in t else None


class Region:
    """one work-shared loop (or the code between the loops of a parallel region)"""

    def __init__(self, unit, fn, node, directive, loop, ctx):
        self.u, self.fn, self.node, self.directive, self.loop, self.ctx = unit, fn, node, directive, loop, ctx
        self.issues = {}        # (where, text) -> node
        self.unknown = {}
        self.W = {}             # (class, field) -> where written
        self.Wkind = {}
        self.Rd = {}            # (class, field) read through a shared base -> where
        self.funcs = set()
        self.sites = 0
        self.elems = {}         # scratch container -> abstract element
        self.memo = {}
        self.stack = []
        self.throws = []

    # ------------------------------------------------------------ reporting
    def bad(self, fn, n, text):
        self.issues.setdefault((fn.where(n), text), n)

    def unk(self, fn, n, text):
        self.unknown.setdefault((fn.where(n), text), n)


class Eff:
    def __init__(self, region):
        self.r = region
        self.u = region.u

    # ------------------------------------------------------------ helpers
    def write(self, fn, n, lv, env, what=""):
        self.r.sites += 1
        k = lv[0]
        if k in ("val", "priv", "idx"):
            return
        if k == "obj":
            if lv[1] == "own":
                self.r.W.setdefault((lv[2], "*"), fn.where(n))
                return
            self.r.bad(fn, n, "a whole %s is changed" % (lv[2] or "object"))
            return
        if k == "fld":
            if lv[1] == "own":
                self.r.W.setdefault((lv[2], lv[3]), fn.where(n))
                if lv[2] == "World":
                    self.r.Wkind.setdefault(lv[3], {}).setdefault(lv[4] if len(lv) > 4 else None, fn.where(n))
                return
            if lv[1] == "priv":
                return
            if env.get("@critical") is not None:
                env["@critical"].append((lv[2] + "." + lv[3], n))
                return
            self.r.bad(fn, n, "%s.%s is changed although it is common to several iterations" % (lv[2], lv[3]))
            return
        if k == "sharedvar":
            if env.get("@critical") is not None:
                env["@critical"].append((lv[1], n))
                return
            self.r.bad(fn, n, "variable %s, common to all iterations, is changed" % lv[1])
            return
        if k == "elemof":
            self.write(fn, n, lv[1], env)
            return
        self.r.unk(fn, n, "unknown memory is changed")

    def read(self, fn, n, lv):
        self.r.sites += 1
        if lv[0] == "fld" and lv[1] in ("shared", "world"):
            self.r.Rd.setdefault((lv[2], lv[3]), fn.where(n))

    def elem(self, lv, t, idx=None):
        """element of a container lvalue"""
        c = is_ptr_to(t)
        if lv[0] == "fld":
            own, cls, f = lv[1], lv[2], lv[3]
            if cls == "World" and own in ("world", "shared"):
                if idx is not None and idx[0] == "idx":
                    if c and c == idx[1]:
                        return ("obj", "own", c)
                    if c:
                        return ("obj", "shared", c)
                    return ("fld", "own", "World", f, idx[1])
                if c:
                    return ("obj", "shared", c)
                return ("fld", "shared", "World", f)
            if c:
                if own == "own" and (self.r.ctx, cls, f) in OWN_ELEM:
                    return ("obj", "own", c)
                if own in ("own", "priv"):
                    e = self.r.elems.get((cls, f))
                    if e == "own":
                        return ("obj", "own", c)
                return ("obj", "shared", c)
            return lv
        if lv[0] == "priv":
            if c:
                e = self.r.elems.get(lv[1]) if len(lv) > 1 else None
                return ("obj", e or "shared", c)
            return lv
        if lv[0] == "sharedvar":
            return ("obj", "shared", c) if c else lv
        if lv[0] == "elemof":
            return self.elem(lv[1], t, idx)
        return ("obj", "shared", c) if c else VAL

    def push(self, lv, v):
        """an element is put into a scratch container"""
        key = (lv[2], lv[3]) if lv[0] == "fld" else (lv[1] if lv[0] == "priv" and len(lv) > 1 else None)
        if key is None:
            return
        o = v[1] if v[0] == "obj" else None
        if o is None:
            return
        old = self.r.elems.get(key)
        new = o if old in (None, o) else "shared"
        if old != new:
            self.r.elems[key] = new
            self.r.changed = True

    def load(self, lv, t):
        """value read from an lvalue"""
        c = is_ptr_to(t)
        if lv[0] == "fld":
            if c == "World":
                return ("obj", "world", "World")
            if c:
                if lv[1] == "own" and (self.r.ctx, lv[2], lv[3]) in OWN_PTR:
                    return ("obj", "own", c)
                return ("obj", "shared", c)
            if lv[3] == "id" and lv[1] == "own" and lv[2] in PROJECT:
                return ("idx", lv[2])
            return lv if container(t) else VAL
        if lv[0] == "elemof":
            return self.elem(lv[1], t)
        if lv[0] in ("obj", "idx"):
            return lv
        if lv[0] in ("priv", "sharedvar"):
            return ("obj", "world" if c == "World" else "shared", c) if c else lv
        return lv

    # ------------------------------------------------------------ expressions
    def ex(self, n, env, fn):
        k = n.get("kind")
        I = [x for x in n.get("inner", []) if isinstance(x, dict)]
        t = X.dqt(n)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr"):
            v = self.ex(I[-1], env, fn) if I else VAL
            if n.get("castKind") == "LValueToRValue":
                self.read(fn, n, v)
                return self.load(v, t)
            if n.get("castKind") in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
                return VAL
            return v
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
            return self.ex(I[-1], env, fn) if I else VAL
        if k == "CXXThisExpr":
            return env.get("@this", ("obj", "shared", None))
        if k == "DeclRefExpr":
            d = n.get("referencedDecl", {})
            if d.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"):
                if d.get("id") in env:
                    return env[d["id"]]
                g = self.u.globals.get(d.get("id"))
                if g is not None:
                    return ("priv", d.get("name")) if g.get("tls") else (VAL if X.qt(g).startswith("const") else ("sharedvar", d.get("name")))
                if d.get("kind") == "VarDecl" and self.inside is not None and d.get("id") in self.inside:
                    return ("priv", d.get("id"))
                dd = self.u.byid.get(d.get("id"), {})
                if dd.get("tls"):
                    return ("priv", d.get("name"))
                return ("sharedvar", d.get("name"))
            return VAL
        if k == "MemberExpr":
            if "bound member" in X.qt(n):
                return VAL
            b = self.ex(I[0], env, fn) if I else env.get("@this", VAL)
            f = n.get("name", "?")
            if b[0] == "fld" and n.get("isArrow"):
                b = self.load(b, X.dqt(I[0]))
            if b[0] == "obj":
                return ("fld", b[1], b[2] or "?", f)
            if b[0] == "elemof":
                return ("elemof", b[1])
            return b
        if k == "ArraySubscriptExpr":
            a = self.ex(I[0], env, fn)
            i = self.ex(I[1], env, fn)
            return self.elem(a, t, i)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.get("opcode", "")
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                v = self.ex(I[1], env, fn)
                lv = self.ex(I[0], env, fn)
                if k == "CompoundAssignOperator":
                    self.read(fn, n, lv)
                l0 = X.strip(I[0])
                if l0.get("kind") == "DeclRefExpr" and l0.get("referencedDecl", {}).get("id") in env and op == "=":
                    self.bind(env, l0["referencedDecl"]["id"], v, X.dqt(I[0]))
                    if lv[0] != "elemof" and not X.dqt(self.u.byid.get(l0["referencedDecl"]["id"], {})).endswith("&"):
                        return v
                if lv[0] == "fld" and v[0] == "obj" and lv[1] == "own" and (self.r.ctx, lv[2], lv[3]) in OWN_PTR and v[1] != "own" and lv[3] != "route_next_link":
                    # an own element must keep pointing to own elements: the table of owned references would be wrong
                    self.r.bad(fn, n, "%s.%s is set to an element of another iteration" % (lv[2], lv[3]))
                self.write(fn, n, lv, env)
                return lv
            a = [self.ex(x, env, fn) for x in I]
            return VAL
        if k == "UnaryOperator":
            op = n.get("opcode")
            v = self.ex(I[0], env, fn)
            if op in ("++", "--"):
                l0 = X.strip(I[0])
                if l0.get("kind") == "DeclRefExpr" and v[0] in ("val", "idx") and l0.get("referencedDecl", {}).get("id") in env:
                    return VAL
                self.write(fn, n, v, env)
                return v
            if op in ("*", "&"):
                return v
            return VAL
        if k == "ConditionalOperator":
            self.ex(I[0], env, fn)
            a, b = self.ex(I[1], env, fn), self.ex(I[2], env, fn)
            return join(a, b)
        if k == "CXXMemberCallExpr":
            return self.member(n, I, env, fn)
        if k == "CXXOperatorCallExpr":
            return self.oper(n, I, env, fn)
        if k == "CallExpr":
            return self.call(n, I, env, fn)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXNewExpr"):
            vs = [self.ex(x, env, fn) for x in I]
            if k == "CXXNewExpr":
                return ("obj", "own", is_ptr_to(t))
            if len(vs) == 1 and vs[0][0] in ("fld", "priv") and not t.endswith("*"):
                return ("copy", vs[0])
            if len(vs) == 1 and vs[0][0] in ("elemof",):
                return vs[0]
            its = [v for v in vs if v[0] == "elemof"]
            if its and "<" in t and "iterator" not in t:
                return ("copy", its[0][1])
            return VAL
        if k == "CXXThrowExpr":
            for x in I:
                self.ex(x, env, fn)
            return VAL
        if k == "LambdaExpr":
            for x in I:
                if x.get("kind") == "CXXRecordDecl":
                    for m in x.get("inner", []):
                        if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                            for b in m.get("inner", []):
                                if b.get("kind") == "ParmVarDecl":
                                    env[b["id"]] = VAL
                                elif b.get("kind") == "CompoundStmt":
                                    self.st(b, env, fn)
            return VAL
        for x in I:
            self.ex(x, env, fn)
        return VAL

    def bind(self, env, i, v, t):
        old = env.get(i)
        if v[0] == "copy":
            v = ("priv", i)
            if old is None:
                env[i] = v
            return
        if old is None or old == v or old == ("unset",):
            env[i] = v
        else:
            env[i] = join(old, v)

    def member(self, n, I, env, fn):
        m = X.strip(I[0]) if I else {}
        while m.get("kind") == "ParenExpr":
            m = m["inner"][0]
        name = m.get("name", "?")
        bi = m.get("inner", [])
        base = self.ex(bi[0], env, fn) if bi else env.get("@this", VAL)
        if m.get("isArrow") and base[0] == "fld":
            base = self.load(base, X.dqt(bi[0]))
        av = [self.ex(a, env, fn) for a in I[1:]]
        f = self.u.fnid.get(m.get("referencedMemberDecl"))
        if f is not None:
            if base[0] == "fld":
                base = ("obj", base[1], base[2])
            return self.enter(f, base, av, env, n, fn)
        bt = X.dqt(bi[0]) if bi else ""
        const = "const" in bt.split("<")[0]
        if base[0] == "obj" and not const and name not in CONST_CALLS:
            # a method of the project without a body in reach
            self.r.unk(fn, n, "method %s cannot be followed" % name)
            return VAL
        if not const and name not in CONST_CALLS:
            self.write(fn, n, base, env)
            if name in ("push_back", "emplace_back", "push_front", "insert", "push") and av:
                self.push(base, av[-1])
            if name == "assign":
                for a in av:
                    if a[0] == "elemof" or a[0] == "fld":
                        c = a[1] if a[0] == "elemof" else a
                        e = self.elem(c, "Vehicle *")
                        self.push(base, e)
        else:
            self.read(fn, n, base)
        self.byref(m, I[1:], av, env, fn, n)
        if name in ("begin", "end", "rbegin", "rend", "find", "cbegin", "cend", "data"):
            return ("elemof", base)
        if name in ("front", "back", "at", "top", "operator[]"):
            return self.elem(base, X.dqt(n), av[0] if av else None) if not is_ptr_to(X.dqt(n)) or True else VAL
        return VAL

    def oper(self, n, I, env, fn):
        f0 = X.strip(I[0])
        op = f0.get("referencedDecl", {}).get("name", "")
        av = [self.ex(a, env, fn) for a in I[1:]]
        if op == "operator[]":
            t0 = X.dqt(I[1])
            if "map<" in t0.split("<")[0] + "<" and not t0.startswith("const"):
                self.write(fn, n, av[0], env)
            self.read(fn, n, av[0]) if not (av[0][0] == "fld" and av[0][2] == "World" and av[1][0] == "idx") else None
            return self.elem(av[0], X.dqt(n), av[1])
        if op in ("operator=", "operator+=", "operator-=", "operator++", "operator--", "operator*=", "operator/="):
            l0 = X.strip(I[1])
            i = l0.get("referencedDecl", {}).get("id") if l0.get("kind") == "DeclRefExpr" else None
            if i in env and av[0][0] in ("priv", "val", "elemof") :
                if op == "operator=" and len(av) > 1 and av[0][0] != "priv":
                    self.bind(env, i, av[1], X.dqt(I[1]))
                return av[0]
            self.write(fn, n, av[0], env)
            return av[0]
        if op in ("operator*", "operator->") and len(av) == 1:
            if av[0][0] == "elemof":
                return self.elem(av[0][1], X.dqt(n))
            return av[0]
        if op == "operator()":
            lam = self.u.byid.get(f0.get("referencedDecl", {}).get("id"))
            self.byref(f0, I[1:], av, env, fn, n, skip=1)
            return VAL
        if op == "operator<<":
            self.write(fn, n, av[0], env)
            return av[0]
        self.byref(f0, I[1:], av, env, fn, n, skip=1 if len(X.ptypes(X.qt(f0))) < len(av) else 0)
        return VAL

    def call(self, n, I, env, fn):
        f0 = X.strip(I[0])
        d = f0.get("referencedDecl", {})
        name = d.get("name", "") or f0.get("name", "")
        av = [self.ex(a, env, fn) for a in I[1:]]
        f = self.u.fnid.get(d.get("id"))
        if f is not None:
            return self.enter(f, None, av, env, n, fn)
        if name in WRITE_ALGOS:
            for a in av[:2]:
                if a[0] == "elemof":
                    self.write(fn, n, a[1], env)
                    break
            self.byref(f0, I[1:], av, env, fn, n)
            return VAL
        if name in COPY_ALGOS:
            outs = [a for a in av if a[0] == "elemof"]
            if len(outs) > 2:
                self.write(fn, n, outs[2][1], env)
            return VAL
        if name in ("back_inserter", "inserter", "front_inserter"):
            self.write(fn, n, av[0], env)
            return ("elemof", av[0])
        if name in ("move", "forward", "ref"):
            return av[0] if av else VAL
        if name in ("current_exception", "rethrow_exception", "make_exception_ptr"):
            return VAL
        self.byref(f0, I[1:], av, env, fn, n)
        its = [a for a in av if a[0] == "elemof"]
        if name in ("find", "find_if", "lower_bound", "upper_bound", "min_element", "max_element", "next", "prev") and its:
            return its[0]
        return VAL

    def byref(self, callee_, args, av, env, fn, n, skip=0):
        """arguments handed over by non-constant reference are written"""
        ps = X.ptypes(X.qt(callee_)) if callee_ else []
        if skip:
            ps = [""] * skip + ps
        for p, a, v in zip(ps, args, av):
            p = p.strip()
            if p.endswith("&&"):
                if v[0] in ("fld", "sharedvar") and a.get("valueCategory") == "lvalue" and "engine" in X.dqt(a):
                    self.write(fn, n, v, env)
                continue
            if p.endswith("&") and not p.startswith("const") and "const" not in p.split("<")[0]:
                self.write(fn, n, v, env)

    def enter(self, f, this, av, env, n, fn):
        """analyse a function of the project with the ownership of its receiver and arguments"""
        if f.qual == "Vehicle.route_next_link_choice" and self.r.ctx == "Node":
            # the next link of an entering vehicle is an own element because it is chosen among the links of the node (P14)
            if not (av and av[0][:1] == ("fld",) and av[0][1] == "own"):
                self.r.bad(fn, n, "the next link of a vehicle is chosen among links that do not belong to this node")
        self.r.funcs.add(f.qual)
        key = (f.id, this, tuple(av), env.get("@critical") is not None)
        if key in self.r.memo:
            return self.r.memo[key] or VAL
        if key in self.r.stack or len(self.r.stack) > 40:
            return VAL
        self.r.stack.append(key)
        e = {"@this": this or VAL, "@ret": [], "@critical": env.get("@critical")}
        for i, p in enumerate(f.params):
            v = av[i] if i < len(av) else VAL
            t = X.dqt(p)
            if v[0] == "fld" and not t.endswith("&") and not t.endswith("*"):
                v = ("priv", p["id"])
            if v[0] == "fld" and t.endswith("*"):
                v = self.load(v, t)
            e[p["id"]] = v
        save = self.inside
        self.inside = {x.get("id") for rt in X.roots(f) for x in X.walk(rt) if x.get("kind") == "VarDecl" and x.get("storageClass") != "static"}
        for x in f.inits:
            for y in x.get("inner", []):
                self.ex(y, e, f)
        if f.body is not None:
            self.st(f.body, e, f)
        self.inside = save
        self.r.stack.pop()
        ret = None
        for v in e["@ret"]:
            ret = v if ret is None else join(ret, v)
        self.r.memo[key] = ret or VAL
        return ret or VAL

    # ------------------------------------------------------------ statements
    def st(self, n, env, fn):
        if not isinstance(n, dict) or not n:
            return
        k = n.get("kind", "")
        I = [x for x in n.get("inner", []) if isinstance(x, dict)]
        if k in ("CompoundStmt", "CXXTryStmt", "CXXCatchStmt", "LabelStmt", "AttributedStmt", "SwitchStmt", "CaseStmt", "DefaultStmt", "DoStmt", "WhileStmt"):
            if k in ("WhileStmt", "DoStmt"):
                for x in I:
                    self.st(x, env, fn)
            for x in I:
                self.st(x, env, fn)
            return
        if k == "IfStmt":
            st = state_test(I[0]) if I and not n.get("hasInit") and not n.get("hasVar") else None
            live = self.r.states
            self.st(I[0], env, fn)
            for x in I[1:]:
                if st is not None and live is not None and fn.cls == "Vehicle":
                    # branches for states a vehicle of this loop cannot have
                    pos = x is I[1]
                    names, eq = st
                    allowed = (live & names if eq else live - names) if pos else (live - names if eq else live & names)
                    if not allowed:
                        continue
                self.st(x, env, fn)
            return
        if k == "ForStmt":
            for x in I:
                self.st(x, env, fn)
            for x in I[1:]:
                self.st(x, env, fn)
            return
        if k == "CXXForRangeStmt":
            rng, var = VAL, None
            for x in I[:-1]:
                if x.get("kind") == "DeclStmt":
                    for d in x.get("inner", []):
                        if d.get("name", "").startswith("__range"):
                            rng = self.ex(d["inner"][0], env, fn)
                        elif not d.get("name", "").startswith("__"):
                            var = d
            self.read(fn, n, rng)
            if var is not None:
                v = self.elem(rng, X.dqt(var))
                if v[0] == "fld" and not X.dqt(var).endswith("&"):
                    v = VAL if not container(X.dqt(var)) else ("priv", var["id"])
                self.declare(var, v, env)
            self.st(I[-1], env, fn)
            self.st(I[-1], env, fn)
            return
        if k == "DeclStmt":
            for d in I:
                if d.get("kind") in ("VarDecl", "DecompositionDecl"):
                    init = [x for x in d.get("inner", []) if isinstance(x, dict) and x.get("kind") not in ("BindingDecl",) and not x.get("kind", "").endswith("Attr")]
                    v = self.ex(init[-1], env, fn) if init else ("unset",)
                    self.declare(d, v, env)
            return
        if k == "ReturnStmt":
            if I:
                v = self.ex(I[0], env, fn)
                env.setdefault("@ret", []).append(v)
            return
        if k == "OMPCriticalDirective":
            e = env
            old = e.get("@critical")
            e["@critical"] = []
            for x in I:
                self.st(X_body(x), e, fn)
            self.r.crit = getattr(self.r, "crit", []) + [(fn, n, list(e["@critical"]))]
            e["@critical"] = old
            return
        if k == "OMPAtomicDirective":
            self.r.bad(fn, n, "an update shared by the iterations takes place in an undefined order")
            return
        if k.startswith("OMP") and k.endswith("Directive"):
            self.r.unk(fn, n, "nested OpenMP directive")
            return
        if k in ("CapturedStmt", "CapturedDecl"):
            self.st(X_body(n), env, fn)
            return
        if k in ("BreakStmt", "ContinueStmt", "NullStmt", "CXXRecordDecl", "TypedefDecl", "UsingDecl"):
            return
        self.ex(n, env, fn)

    def declare(self, d, v, env):
        t = X.dqt(d)
        if d.get("kind") == "DecompositionDecl":
            for b in d.get("inner", []):
                if b.get("kind") == "BindingDecl":
                    env[b["id"]] = v if v[0] in ("priv",) else VAL
            env[d["id"]] = v
            return
        i = d.get("id")
        if d.get("storageClass") == "static" and not d.get("tls"):
            env[i] = ("sharedvar", d.get("name"))
            return
        if d.get("tls"):
            env[i] = ("priv", d.get("name"))
            return
        if t.endswith("&") or t.endswith("*"):
            if v[0] == "copy":
                v = v[1]
            if t.endswith("*") and v[0] == "fld":
                v = self.load(v, t)
            self.bind(env, i, v, t) if i in env else env.__setitem__(i, v)
            return
        if v[0] in ("idx",) and not container(t):
            env[i] = v if i not in env or env[i] == v else VAL
            return
        if v[0] == "elemof":
            env[i] = v
            return
        if container(t) or clsof(t)[0]:
            if v[0] == "copy":
                key = ("priv", i)
                e = None
                if v[1][0] in ("fld", "priv"):
                    e = self.elem(v[1], "Vehicle *")
                    self.push(key, e)
            env[i] = ("priv", i)
            return
        env[i] = VAL


def state_test(c):
    """(names, equal) when the condition compares the vehicle's own state with enumerators"""
    c = X.strip(c)
    while c.get("kind") == "ParenExpr":
        c = X.strip(c["inner"][0])
    if c.get("kind") != "BinaryOperator":
        return None
    I = c.get("inner", [])
    op = c.get("opcode")
    if op == "||":
        a, b = state_test(I[0]), state_test(I[1])
        return (a[0] | b[0], True) if a and b and a[1] and b[1] else None
    if op not in ("==", "!="):
        return None
    l, r = X.strip(I[0]), X.strip(I[1])
    if l.get("kind") == "DeclRefExpr":
        l, r = r, l
    if l.get("kind") == "MemberExpr" and l.get("name") == "state" and r.get("kind") == "DeclRefExpr" and r.get("referencedDecl", {}).get("kind") == "EnumConstantDecl":
        b = X.strip(l["inner"][0]) if l.get("inner") else {"kind": "CXXThisExpr"}
        if b.get("kind") == "CXXThisExpr":
            return frozenset([r["referencedDecl"]["name"]]), op == "=="
    return None


STATES = {("Link", "vehicles"): frozenset(["vsRUN", "vsEND", "vsABORT"]), ("Node", "generation_queue"): frozenset(["vsWAIT"])}


def loop_states(loop):
    """states of the vehicles an iteration handles: those on a link run, those in a queue at a node wait (P08)"""
    src = set()
    for x in X.walk(loop):
        if x.get("kind") == "MemberExpr" and x.get("inner"):
            c = clsof(X.dqt(x["inner"][0]))[0]
            if (c, x.get("name")) in STATES:
                src.add((c, x["name"]))
    return STATES[next(iter(src))] if len(src) == 1 else None


def X_body(n):
    """the statement inside of captured wrappers"""
    while isinstance(n, dict) and n.get("kind") in ("CapturedStmt", "CapturedDecl"):
        I = [x for x in n.get("inner", []) if isinstance(x, dict)]
        if n["kind"] == "CapturedStmt":
            n = next((x for x in I if x.get("kind") == "CapturedDecl"), {})
        else:
            n = I[0] if I else {}
    return n


def container(t):
    t = t.replace("const ", "").strip()
    return "<" in t and not t.endswith("*")


def join(a, b):
    if a == b:
        return a
    if a == ("unset",):
        return b
    if b == ("unset",):
        return a
    if a[0] == "obj" and b[0] == "obj":
        o = a[1] if a[1] == b[1] else "shared"
        return ("obj", o, a[2] or b[2])
    if a[0] == "val" and b[0] == "obj":
        return b        # a null pointer
    if b[0] == "val" and a[0] == "obj":
        return a
    if "val" in (a[0], b[0]):
        return VAL if {a[0], b[0]} <= {"val", "idx"} else (a if b[0] == "val" else b)
    for o in (a, b):
        if o[0] == "sharedvar" or o[0] == "fld" and o[1] in ("shared", "world"):
            return o
    return a


def pragma(fn, n):
    """text of the directive"""
    ln = X.line(n)
    try:
        L = open(fn.file, encoding="utf-8", errors="replace").read().split("\n")
    except OSError:
        return ""
    s = L[ln - 1] if 0 < ln <= len(L) else ""
    while s.rstrip().endswith("\\") and ln < len(L):
        s = s.rstrip()[:-1] + L[ln]
        ln += 1
    return s


def regions():
    """all work-shared loops and single sections of the engine: (unit, fn, directive node, loop node or None, enclosing parallel node)"""
    out = []
    for u in X.units():
        for fn in u.all():
            for rt in X.roots(fn):
                collect(u, fn, rt, None, out)
    # headers are parsed with every unit
    seen, res = set(), []
    for t in out:
        k = (t[1].file, X.line(t[2]))
        if k not in seen:
            seen.add(k)
            res.append(t)
    return res


def collect(u, fn, n, par, out):
    if not isinstance(n, dict):
        return
    k = n.get("kind", "")
    if k.startswith("OMP") and k.endswith("Directive"):
        if k in ("OMPParallelDirective", "OMPForDirective", "OMPParallelForDirective", "OMPForSimdDirective", "OMPSingleDirective", "OMPMasterDirective", "OMPMaskedDirective", "OMPSectionsDirective", "OMPTaskDirective", "OMPTaskLoopDirective", "OMPParallelSectionsDirective", "OMPAtomicDirective", "OMPCriticalDirective", "OMPOrderedDirective", "OMPBarrierDirective", "OMPSimdDirective"):
            out.append((u, fn, n, body_of(n), par))
        if k.startswith("OMPParallel"):
            par = n
    I = n.get("inner", [])
    if k == "CapturedDecl":
        I = I[:1]
    elif k == "CapturedStmt":
        I = [x for x in I if isinstance(x, dict) and x.get("kind") == "CapturedDecl"]
    for x in I:
        collect(u, fn, x, par, out)


def body_of(n):
    for x in n.get("inner", []):
        if isinstance(x, dict) and x.get("kind") in ("CapturedStmt", "ForStmt", "CXXForRangeStmt", "CompoundStmt", "ExprStmt"):
            return X_body(x)
    return None


def loop_context(u, fn, loop):
    """kind of element an iteration handles, and the id of its loop variable"""
    I = loop.get("inner", [])
    if loop.get("kind") == "ForStmt":
        var = None
        for d in (I[0].get("inner", []) if isinstance(I[0], dict) else []):
            if d.get("kind") == "VarDecl":
                var = d
        kinds = {}
        if var is not None:
            for x in X.walk(loop):
                if x.get("kind") == "CXXOperatorCallExpr" and X.callee(x) == "operator[]":
                    a = X.args(x)
                    i = X.strip(a[1])
                    c = is_ptr_to(X.dqt(x))
                    if c and i.get("referencedDecl", {}).get("id") == var["id"]:
                        kinds[c] = kinds.get(c, 0) + 1
        return (next(iter(kinds)) if len(kinds) == 1 else ("Row" if not kinds else "?")), var
    if loop.get("kind") == "CXXForRangeStmt":
        for x in I:
            if isinstance(x, dict) and x.get("kind") == "DeclStmt":
                for d in x.get("inner", []):
                    if d.get("kind") == "VarDecl" and not d.get("name", "").startswith("__"):
                        return is_ptr_to(X.dqt(d)) or "Row", d
    return "?", None


def analyse(u, fn, directive, loop, par):
    ctx, var = loop_context(u, fn, loop)
    r = Region(u, fn, directive, directive.get("kind"), loop, ctx)
    r.changed = True
    r.states = loop_states(loop)
    rounds = 0
    this = ("obj", "world", "World") if fn.cls == "World" else (("obj", "shared", fn.cls) if fn.cls else VAL)
    while r.changed and rounds < 5:
        rounds += 1
        r.changed = False
        r.memo, r.issues, r.unknown, r.W, r.Rd, r.Wkind, r.sites, r.crit = {}, {}, {}, {}, {}, {}, 0, []
        e = Eff(r)
        e.inside = {x.get("id") for x in X.walk(loop) if x.get("kind") in ("VarDecl", "BindingDecl")}
        env = {"@this": this, "@ret": [], "@critical": None}
        if par is not None and par is not directive:
            # variables of the parallel region outside of the loop belong to the thread
            pb = body_of(par)
            for x in X.walk(pb, skip=("ForStmt", "CXXForRangeStmt")) if pb else ():
                if x.get("kind") == "VarDecl" and x.get("storageClass") != "static":
                    env[x["id"]] = ("priv", x["id"])
        if var is not None:
            env[var["id"]] = ("idx", ctx if ctx in PROJECT else "Row") if loop.get("kind") == "ForStmt" else ("obj", "own", ctx)
        if loop.get("kind") == "ForStmt":
            I = loop.get("inner", [])
            r.body = I[-1]
            # references declared before the loop to rows etc. are followed; loop condition and increment belong to the runtime
            e.st(I[-1], env, fn)
        else:
            r.body = loop.get("inner", [])[-1]
            e.st(r.body, env, fn)
    return r


def analyse_common(u, fn, directive, body):
    """what every thread of a parallel region executes itself: the statements outside of the constructs that share or serialise work"""
    r = Region(u, fn, directive, directive.get("kind"), None, "Thread")
    r.states = None
    r.changed = True
    if body is None:
        return r
    this = ("obj", "world", "World") if fn.cls == "World" else (("obj", "shared", fn.cls) if fn.cls else VAL)
    e = Eff(r)
    e.inside = {x.get("id") for x in X.walk(body) if x.get("kind") in ("VarDecl", "BindingDecl") and x.get("storageClass") != "static"}
    env = {"@this": this, "@ret": [], "@critical": None}

    def go(n):
        k = n.get("kind", "") if isinstance(n, dict) else ""
        if k.startswith("OMP") and k.endswith("Directive"):
            return
        if k in ("CompoundStmt",):
            for x in n.get("inner", []):
                go(x)
            return
        e.st(n, env, fn)
    go(body)
    return r
