import ast
from .common import *
from .. import pyraw, cppraw, binds

GLOBAL_DRAWS = {"random", "seed", "randint", "randrange", "choice", "choices", "shuffle", "sample", "uniform", "gauss", "normalvariate", "expovariate", "triangular", "betavariate", "getrandbits", "setstate", "rand", "randn",
                "normal", "permutation", "random_sample", "random_integers", "standard_normal", "exponential", "poisson", "binomial", "set_state", "multinomial", "ranf", "bytes"}
SEEDED = {"default_rng", "Random", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SystemRandom", "get_state", "getstate", "BitGenerator"}
ENV = ("os.environ", "os.getenv", "os.getpid", "os.cpu_count", "os.urandom", "multiprocessing.", "platform.", "socket.", "uuid.", "secrets.", "threading.", "psutil.")
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns", "time.perf_counter_ns", "datetime.", "time.localtime", "time.strftime", "time.ctime", "time.gmtime", "datetime.datetime.")
# modules of the simulation: drawing maps and network files is not part of it
SIM = pyraw.SIM


def gen_name(m, e):
    """the process-wide generator function an expression denotes, or None"""
    d = m.dotted(e)
    if d is None:
        return None
    p = d.split(".")
    if p[0] == "random" and len(p) == 2 and p[1] not in SEEDED:
        return d
    if p[0] in ("numpy", "np", "scipy", "pylab", "matplotlib") and "random" in p[:-1] and p[-1] not in SEEDED:
        return d
    if isinstance(e, ast.Name) and e.id in GLOBAL_DRAWS and e.id not in m.imports and e.id not in m.names and m.star and not local_name(m, e):
        if any(s in ("pylab", "numpy.random", "random", "numpy", "matplotlib.pylab") for s in m.star):
            return "%s.%s" % (m.star[0], e.id)
    return None


def local_name(m, e):
    f = m.owner(e)
    while f is not None:
        a = f.node.args
        ns = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        if a.vararg:
            ns.add(a.vararg.arg)
        if a.kwarg:
            ns.add(a.kwarg.arg)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                ns.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                ns.add(n.name)
        if e.id in ns:
            return True
        p = getattr(f.node, "_parent", None)
        f = m.owner(p) if p is not None else None
    return False


@rule("P10", "R1", "no random number of the simulation comes from a process-wide generator, and none is reseeded")
def r1(c):
    n = 0
    for m in pyraw.mods(SIM):
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.Name, ast.Attribute)) or isinstance(getattr(x, "_parent", None), ast.Attribute) and isinstance(x, ast.Attribute) and False:
                continue
            if isinstance(getattr(x, "ctx", None), ast.Store):
                continue
            if isinstance(getattr(x, "_parent", None), (ast.alias, ast.Import)):
                continue
            if not isinstance(x._parent, ast.Attribute) and m.dotted(x) in ("random", "numpy.random", "np.random"):
                c.ob(False, m.where(x), "the process-wide generators of %s are handed on as a generator" % m.dotted(x), key="%s|%s|module" % (m.rel, q_of(m, x)))
                continue
            g = gen_name(m, x)
            if g is None:
                continue
            if isinstance(x._parent, ast.Attribute) and gen_name(m, x._parent) is None:
                continue        # random.Random(...)
            c.ob(False, m.where(x), "the process-wide generator %s is used" % g, key="%s|%s|%s" % (m.rel, q_of(m, x), g))
        for f in m.funcs:
            n += 1
            c.ob(True, f.where(), "draws only from generators of the world")
    c.floor(n, 150, "functions of the simulation")


def q_of(m, x):
    f = m.owner(x)
    return f.qual if f else "module"


@rule("P10", "R2", "every generator of a world is made from its seed and belongs to that world")
def r2(c):
    made = 0
    draws = 0
    for m in pyraw.mods(SIM):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                d = m.dotted(x.func) or ""
                if d.split(".")[-1] in ("default_rng", "RandomState", "Random") and ("random" in d or d in ("default_rng", "RandomState", "Random")):
                    f = m.owner(x)
                    a = list(x.args) + [k.value for k in x.keywords if k.arg in ("seed", "x")]
                    src = ast.unparse(a[0]) if a else ""
                    ok = bool(a) and mentions_seed(m, f, a[0])
                    made += 1
                    if ok and loses_seed(m, f, a[0]):
                        ok = False
                    c.ob(ok, m.where(x), "the generator is made from the seed of the world, found %s" % (src or "no seed"), key="%s|%s|make" % (m.rel, q_of(m, x)))
            if isinstance(x, ast.Attribute) and x.attr == "rng" and isinstance(x.ctx, ast.Load):
                draws += 1
                b = x.value
                ok = isinstance(b, ast.Attribute) and b.attr == "W" and isinstance(b.value, ast.Name) or isinstance(b, ast.Name)
                if not ok:
                    ok = None
                c.ob(ok, m.where(x), "the generator of the element's own world is used", key="%s|%s|rng" % (m.rel, q_of(m, x)))
            if isinstance(x, ast.Attribute) and x.attr in ("rng", "random_seed") and isinstance(x.ctx, ast.Store):
                f = m.owner(x)
                v = getattr(x._parent, "value", None)
                ok = f is not None and f.node.name == "__init__"
                c.ob(ok, m.where(x), "%s is set when its owner is created" % x.attr, key="%s|%s|set %s" % (m.rel, q_of(m, x), x.attr))
                if ok and x.attr == "random_seed":
                    c.ob(isinstance(v, ast.Name) and v.id == "random_seed", m.where(x), "the seed given by the user is kept", key="%s|%s|seed" % (m.rel, q_of(m, x)))
    c.floor(made, 2, "generators")
    c.floor(draws, 15, "draws from the generator of the world")
    # C++ mode: the seed given reaches the C++ world
    m = pyraw.mod("uxsim/uxsim_cpp_wrapper.py")
    b = binds.table().get("", {}).get("create_world")
    names = [a for a, _ in b.args]
    calls = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (getattr(x.func, "id", "") or getattr(x.func, "attr", "")).lstrip("_") == "create_world"]
    c.floor(len(calls), 1, "creations of a C++ world")
    for x in calls:
        a = {n: v for n, v in zip(names, x.args)}
        a.update({k.arg: k.value for k in x.keywords})
        v = a.get("random_seed")
        ok = v is not None and mentions_seed(m, m.owner(x), v) and not loses_seed(m, m.owner(x), v)
        c.ob(ok, m.where(x), "the seed of the world is handed to the C++ world", key="create_world|seed")


def loses_seed(m, f, e, depth=0):
    """a seed that counts as false is replaced by an unseeded generator"""
    if depth > 3:
        return False

    def is_seed(x):
        return isinstance(x, ast.Name) and x.id == "random_seed" or isinstance(x, ast.Attribute) and x.attr == "random_seed"
    for x in ast.walk(e):
        if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or) and any(is_seed(y) for y in x.values[:-1]) and not (isinstance(x.values[-1], ast.Constant) and x.values[-1].value is not None):
            return True
        if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And) and any(is_seed(y) for y in x.values):
            return True
        if isinstance(x, ast.IfExp) and (is_seed(x.test) and is_seed(x.body)) and not (isinstance(x.orelse, ast.Constant) and x.orelse.value is not None):
            return True
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and f is not None and not is_seed(x):
            for y in ast.walk(f.node):
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets) and y.value is not e and loses_seed(m, f, y.value, depth + 1):
                    return True
    return False


def mentions_seed(m, f, e, depth=0):
    """the value is computed from the seed of the world"""
    if e is None or depth > 3:
        return False
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id == "random_seed" or isinstance(x, ast.Attribute) and x.attr == "random_seed":
            return True
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and f is not None:
            for y in ast.walk(f.node):
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets) and y.value is not e:
                    if mentions_seed(m, f, y.value, depth + 1):
                        return True
    return False


ORDERFREE = {"len", "sorted", "set", "frozenset", "any", "all", "min", "max", "isinstance", "bool"}


@rule("P10", "R3", "no decision of the simulation depends on the order of a set, on object identity or on string hashes")
def r3(c):
    n = 0
    for m in pyraw.mods(SIM):
        setattrs = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Assign) and is_set(m, x.value, ()):
                for t in x.targets:
                    if isinstance(t, ast.Attribute):
                        setattrs.add(t.attr)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hash", "id") and x.func.id not in m.names and x.func.id not in m.imports and not local_name(m, x.func):
                c.ob(False, m.where(x), "%s() of an object decides nothing" % x.func.id, key="%s|%s|%s" % (m.rel, q_of(m, x), x.func.id))
            its = []
            if isinstance(x, ast.For):
                its.append(x.iter)
            elif isinstance(x, (ast.ListComp, ast.DictComp)):
                its += [g.iter for g in x.generators]
            elif isinstance(x, ast.GeneratorExp):
                p = x._parent
                if not (isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDERFREE):
                    its += [g.iter for g in x.generators]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate", "iter", "next", "zip", "map", "deque", "dict", "reversed"):
                its += list(x.args)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("choice", "shuffle", "sample", "extend", "join", "array", "choices", "permutation"):
                its += list(x.args)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and not x.args and is_set(m, x.func.value, setattrs):
                its.append(x.func.value)
            elif isinstance(x, ast.Starred):
                its.append(x.value)
            for e in its:
                n += 1
                bad = is_set(m, e, setattrs) and not (isinstance(x, ast.For) and False)
                if bad and isinstance(x, (ast.ListComp,)) and isinstance(x._parent, ast.Call) and isinstance(x._parent.func, ast.Name) and x._parent.func.id in ORDERFREE:
                    bad = False
                c.ob(not bad, m.where(e), "the elements are taken in a defined order" if not bad else "the elements of a set are taken in hash order: %s" % ast.unparse(e)[:80], key="%s|%s|set order" % (m.rel, q_of(m, e)))
    c.floor(n, 100, "places where elements are taken one by one")


def is_set(m, e, setattrs, depth=0):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy") and is_set(m, e.func.value, setattrs, depth + 1):
            return True
        if isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "iter", "reversed", "enumerate") and e.args:
            return False        # reported at the conversion itself
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return is_set(m, e.left, setattrs, depth + 1) or (not isinstance(e.op, ast.Sub) and is_set(m, e.right, setattrs, depth + 1))
    if isinstance(e, ast.IfExp):
        return is_set(m, e.body, setattrs, depth + 1) or is_set(m, e.orelse, setattrs, depth + 1)
    if isinstance(e, ast.Attribute):
        return e.attr in setattrs
    if isinstance(e, ast.Name) and depth < 4:
        f = m.owner(e)
        if f is None:
            return False
        vals = reaching(m, f, e)
        return bool(vals) and any(not (isinstance(v, ast.Name) and v.id == e.id) and is_set(m, v, setattrs, depth + 1) for v in vals)
    return False


def blocks(n):
    """statement lists around a node, innermost first"""
    out = []
    while n is not None:
        p = getattr(n, "_parent", None)
        if isinstance(n, ast.stmt):
            out.append((p, n))
        n = p
    return out


def reaching(m, f, e):
    """values a local name may have where it is read (assignments before it, back to an unconditional one; later ones in a common loop)"""
    asg = []
    for y in ast.walk(f.node):
        if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in y.targets):
            asg.append((y.lineno, y, y.value))
        elif isinstance(y, ast.NamedExpr) and y.target.id == e.id:
            asg.append((y.lineno, y, y.value))
    asg.sort(key=lambda t: t[0])
    inside = {id(p) for p, _ in blocks(e)}
    stmt = blocks(e)[0][1] if blocks(e) else None
    out = []
    for ln, y, v in reversed([a for a in asg if a[0] <= e.lineno and a[1] is not stmt]):
        out.append(v)
        if isinstance(y, ast.Assign) and id(y._parent) in inside:
            break
    loops = [p for p, _ in blocks(e) if isinstance(p, (ast.For, ast.While))]
    for ln, y, v in asg:
        if ln >= e.lineno and any(any(z is y for z in ast.walk(l)) for l in loops):
            out.append(v)
    return out


@rule("P10", "R4", "clock and computing environment reach only what is printed")
def r4(c):
    n = 0
    for m in pyraw.mods(SIM):
        tainted = set()
        for rnd in range(3):
            for x in ast.walk(m.tree):
                if not isinstance(x, (ast.Call, ast.Attribute, ast.Name)):
                    continue
                if not source(m, x, tainted):
                    continue
                st = sink(m, x)
                if isinstance(st, tuple):
                    tainted.add(st)
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Call, ast.Attribute, ast.Name)) and source(m, x, tainted):
                n += 1
                st = sink(m, x)
                ok = st is True or isinstance(st, tuple)
                c.ob(ok, m.where(x), "the clock or the environment decides nothing" if ok else "a value of the clock or the environment is used outside of output: %s" % ast.unparse(x)[:80], key="%s|%s|clock" % (m.rel, q_of(m, x)))
    c.floor(n, 3, "readings of the clock")


def source(m, x, tainted):
    if isinstance(getattr(x, "ctx", None), ast.Store):
        return False
    if isinstance(x, ast.Call):
        d = m.dotted(x.func) or ""
        return any(d == k or (k.endswith(".") and d.startswith(k)) for k in ENV + CLOCK) and "path" not in d
    if isinstance(x, ast.Attribute):
        if m.dotted(x) == "os.environ":
            return True
        return ("attr", x.attr) in tainted
    f = m.owner(x)
    return f is not None and ("name", f.qual, x.id) in tainted


def sink(m, x):
    """True: the value ends in output; a tuple: it is stored under that name; False: anything else"""
    while True:
        p = getattr(x, "_parent", None)
        if p is None:
            return False
        if isinstance(p, ast.Call):
            d = m.dotted(p.func) or (p.func.attr if isinstance(p.func, ast.Attribute) else "")
            if x is p.func:
                x = p
                continue
            if d.split(".")[-1] in ("print", "write", "info", "debug", "warning", "warn", "log") :
                return True
            if d.split(".")[-1] in ("int", "float", "str", "round", "format", "max", "min", "abs"):
                x = p
                continue
            return False
        if isinstance(p, (ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue, ast.IfExp, ast.Tuple, ast.List, ast.keyword, ast.Attribute, ast.BoolOp)):
            if isinstance(p, ast.IfExp) and x is p.test:
                return False
            x = p
            continue
        if isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, ast.Attribute):
                return ("attr", t.attr)
            if isinstance(t, ast.Name):
                f = m.owner(t)
                return ("name", f.qual if f else "", t.id)
            return False
        if isinstance(p, ast.Expr):
            return True
        return False


BADCALLS = {"rand", "srand", "random", "srandom", "drand48", "time", "clock", "getenv", "secure_getenv", "getpid", "gettimeofday", "clock_gettime", "hardware_concurrency", "sched_getcpu", "get_id", "entropy"}


@rule("P10", "R5", "the C++ engine draws only from its own generators, which are made from seed, kind and identifier")
def r5(c):
    n = draws = 0
    seeds = []
    for u, fn in cppraw.functions():
        n += 1
        for rt in cppraw.roots(fn):
            for x in cppraw.walk(rt):
                k = x.get("kind")
                if k == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") == "FunctionDecl" and x["referencedDecl"].get("name") in BADCALLS and x["referencedDecl"].get("id") not in u.fnid:
                    c.ob(False, fn.where(x), "%s() is not used" % x["referencedDecl"]["name"], key="%s|%s" % (fn.qual, x["referencedDecl"]["name"]))
                if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "VarDecl") and "random_device" in cppraw.dqt(x):
                    c.ob(False, fn.where(x), "std::random_device is not used", key="%s|random_device" % fn.qual)
                if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_engine(cppraw.dqt(x)) and not is_copy(x):
                    a = [y for y in x.get("inner", []) if y.get("kind") != "CXXDefaultArgExpr"]
                    ps = {p.get("name") for p in fn.params}
                    refs = {y.get("referencedDecl", {}).get("name") for z in a for y in cppraw.walk(z) if y.get("kind") == "DeclRefExpr"}
                    locs = {y.get("name"): y for rr in cppraw.roots(fn) for y in cppraw.walk(rr) if y.get("kind") == "VarDecl"}
                    reach = set(refs)
                    for r_ in refs:
                        if r_ in locs:
                            reach |= {y.get("referencedDecl", {}).get("name") for y in cppraw.walk(locs[r_]) if y.get("kind") == "DeclRefExpr"}
                    seedp = {p for p in ps if p and "seed" in p}
                    c.ob(bool(a) and bool(reach & seedp), fn.where(x), "a generator is made from the seed handed in", key="%s|engine" % fn.qual)
                    seeds.append((fn, reach, ps))
                if k == "VarDecl" and is_engine(cppraw.dqt(x)) and (x.get("storageClass") == "static" or x.get("tls")):
                    c.ob(False, fn.where(x), "no generator outlives the world", key="%s|static engine" % fn.qual)
                if k in ("CallExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr"):
                    for a in cppraw.args(x):
                        if is_engine(cppraw.dqt(a).replace("&", "").strip()) and a.get("valueCategory") == "lvalue":
                            s = cppraw.strip(a)
                            nm = cppraw.callee(x)
                            if nm in ("push_back", "operator=", "operator[]") and not s.get("kind") == "DeclRefExpr":
                                continue
                            if nm == "operator[]":
                                continue
                            draws += 1
                            ok, why = own_engine(u, fn, s)
                            c.ob(ok, fn.where(x), "the draw uses the generator of the deciding element" + (": " + why if ok is not True else ""), key="%s|draw" % fn.qual)
    c.floor(n, 60, "functions of the C++ engine")
    c.floor(draws, 6, "draws in the C++ engine")
    for u in cppraw.units():
        for d in u.globals.values():
            c.ob(not is_engine(cppraw.dqt(d)), "%s (global %s)" % (cppraw.short(u.path), d.get("name")), "no generator is global", key="global|%s" % d.get("name"))
    # seeding of the streams
    kinds = {}
    for u, fn in cppraw.functions():
        for rt in cppraw.roots(fn):
            for x in cppraw.walk(rt):
                if x.get("kind") == "CallExpr" and cppraw.callee(x) == "make_entity_rng" or x.get("kind") == "CallExpr" and is_engine(cppraw.dqt(x)) and cppraw.callee(x) in u.funcs:
                    a = cppraw.args(x)
                    s0 = cppraw.strip(a[0])
                    c.ob(s0.get("kind") == "MemberExpr" and s0.get("name") == "random_seed", fn.where(x), "the stream is seeded with the seed of the world", key="%s|seed arg" % fn.qual)
                    ids = [y for z in a[1:] for y in cppraw.walk(z) if y.get("kind") == "MemberExpr" and y.get("name") == "id" or y.get("kind") == "MemberExpr" and y.get("name", "").endswith("_id")]
                    c.ob(bool(ids), fn.where(x), "the stream is seeded with the identifier of the element", key="%s|id arg" % fn.qual)
                    ks = [y.get("value") for z in a[1:] for y in cppraw.walk(z) if y.get("kind") == "IntegerLiteral"]
                    kinds.setdefault(tuple(ks), []).append(fn)
    if kinds:
        for ks, fs in kinds.items():
            c.ob(len({f.cls for f in fs}) == 1, fs[0].where(), "nodes and links have different streams", key="kind|%s" % (fs[0].cls,))
    c.floor(sum(len(v) for v in kinds.values()), 2, "seeded streams")
    r = run("cpp", "World.World")
    c.used(r)
    v = r.heap("s.random_seed")
    c.ob(v is mk("p", "random_seed") or (None if opaque_in(v, (mk("p", "random_seed"),)) is not None else False), head(r), "the C++ world keeps the seed given", key="World|random_seed")
    mk_rng = [fn for u, fn in cppraw.functions() if fn.qual == "make_entity_rng"]
    for fn in mk_rng[:1]:
        refs = {y.get("referencedDecl", {}).get("name") for rt in cppraw.roots(fn) for y in cppraw.walk(rt) if y.get("kind") == "DeclRefExpr"}
        for p in fn.params:
            c.ob(p.get("name") in refs, fn.where(), "the stream depends on %s" % p.get("name"), key="make_entity_rng|%s" % p.get("name"))


def is_engine(t):
    t = t.replace("const ", "").strip()
    return t.startswith(("std::mersenne_twister_engine", "mersenne_twister_engine", "std::mt19937", "mt19937", "std::default_random_engine", "std::minstd_rand", "std::linear_congruential_engine")) and not t.endswith("*")


def is_copy(x):
    a = [y for y in x.get("inner", []) if y.get("kind") != "CXXDefaultArgExpr"]
    return len(a) == 1 and is_engine(cppraw.dqt(a[0]).replace("&", "").strip())


def own_engine(u, fn, s):
    """the engine expression is one of the streams of the world, at the index of the element itself"""
    if s.get("kind") == "DeclRefExpr":
        d = s.get("referencedDecl", {})
        if d.get("kind") == "ParmVarDecl":
            return True, ""
        if d.get("id") in u.globals:
            return False, "a global generator"
        return True, ""     # a local engine: its seeding is an obligation of its own
    if s.get("kind") == "CXXOperatorCallExpr" and cppraw.callee(s) == "operator[]":
        a = cppraw.args(s)
        arr = cppraw.strip(a[0])
        idx = cppraw.strip(a[1])
        nm = arr.get("name", "")
        want = {"node_rngs": "Node", "link_rngs": "Link"}.get(nm)
        if want is None:
            return None, "an unknown family of generators"
        if idx.get("kind") == "MemberExpr" and idx.get("name") == "id":
            b = idx.get("inner", [{}])[0]
            t = cppraw.dqt(b).replace("const ", "").replace("*", "").replace("&", "").strip()
            return (t == want), "index of a %s for the streams of %ss" % (t, want)
        if idx.get("kind") == "DeclRefExpr":
            # a local that holds the identifier
            return None, "index %s" % idx.get("referencedDecl", {}).get("name")
        return False, "an index that is not the identifier of the element"
    return None, "unknown generator"


@rule("P10", "R6", "the C++ engine takes nothing in hash order or in order of addresses, and uses the clock only for output")
def r6(c):
    n = 0
    used = {callee_id for u in cppraw.units() for fn in u.all() for rt in cppraw.roots(fn) for callee_id in refs(rt)}
    for u, fn in cppraw.functions():
        if fn.cls is None and fn.qual not in used and fn.qual not in bound_functions():
            continue        # a helper nobody calls decides nothing
        for rt in cppraw.roots(fn):
            for x in cppraw.walk(rt):
                k = x.get("kind")
                if k == "CXXForRangeStmt":
                    for y in x.get("inner", []):
                        if isinstance(y, dict) and y.get("kind") == "DeclStmt":
                            for d in y.get("inner", []):
                                if d.get("name", "").startswith("__range"):
                                    t = cont_type(d)
                                    n += 1
                                    bad = unordered(t)
                                    c.ob(not bad, fn.where(x), "the elements are visited in a defined order" if not bad else "the elements of %s are visited in hash or address order" % t[:80], key="%s|range" % fn.qual)
                if k == "CXXMemberCallExpr" and cppraw.callee(x) in ("begin", "cbegin"):
                    f = cppraw.strip(x["inner"][0])
                    b = f.get("inner", [{}])[0]
                    t = cppraw.dqt(b)
                    if unordered(t) and not cppraw.strip(b).get("referencedDecl", {}).get("name", "").startswith("__range"):
                        c.ob(False, fn.where(x), "the elements of %s are taken in hash or address order" % t[:80], key="%s|begin" % fn.qual)
                if k == "BinaryOperator" and x.get("opcode") in ("<", ">", "<=", ">=") and all(cppraw.dqt(y).rstrip().endswith("*") for y in x.get("inner", [])) and x.get("inner"):
                    c.ob(False, fn.where(x), "addresses are not compared by size", key="%s|pointer order" % fn.qual)
                if k == "CallExpr" and cppraw.callee(x) in ("sort", "stable_sort", "min_element", "max_element", "nth_element", "partial_sort") and len(cppraw.args(x)) == 2:
                    t = cppraw.dqt(cppraw.args(x)[0])
                    if re_ptr(t):
                        c.ob(False, fn.where(x), "elements are not ordered by their addresses", key="%s|sort" % fn.qual)
                if k in ("CXXReinterpretCastExpr", "CStyleCastExpr") and x.get("castKind") == "PointerToIntegral":
                    c.ob(False, fn.where(x), "addresses are not used as numbers", key="%s|address" % fn.qual)
                if k == "CallExpr" and cppraw.callee(x) == "now" or k == "MemberExpr" and x.get("name") in ("timestamp", "sim_start_time"):
                    n += 1
                    ok = clock_ok(fn, x)
                    c.ob(ok, fn.where(x), "the clock is used for output only", key="%s|clock" % fn.qual)
    c.floor(n, 30, "loops and readings of the clock in the C++ engine")


def refs(rt):
    for x in cppraw.walk(rt):
        if x.get("kind") in ("DeclRefExpr", "UnresolvedLookupExpr"):
            yield x.get("referencedDecl", {}).get("name") or x.get("name")


def bound_functions():
    return {t for c_ in binds.table().values() for b in c_.values() for t in ([b.target] if b.target else []) + list(b.getter or [])}


def cont_type(d):
    for y in d.get("inner", []):
        return cppraw.dqt(y)
    return cppraw.dqt(d)


def unordered(t):
    t = t.replace("const ", "").strip().rstrip("&* ").strip()
    if t.startswith(("std::unordered_", "unordered_", "std::unordered_map", "std::unordered_set")):
        return True
    for pre in ("std::map<", "map<", "std::set<", "set<", "std::multimap<", "std::multiset<"):
        if t.startswith(pre):
            a = t[len(pre):]
            d = 0
            for i, ch in enumerate(a):
                if ch in "<(":
                    d += 1
                elif ch in ">)":
                    d -= 1
                if d < 0 or ch == "," and d == 0:
                    return a[:i].strip().endswith("*")
    return False


def re_ptr(t):
    import re
    return bool(re.search(r"\*\s*\*", t)) or bool(re.search(r"__normal_iterator<\s*[\w:]+ \*\s*\*", t))


def clock_ok(fn, x):
    """the reading is stored in a clock field or ends in a stream or in a duration that is printed"""
    parents = {}
    for rt in cppraw.roots(fn):
        for y in cppraw.walk(rt):
            for z in y.get("inner", []):
                if isinstance(z, dict):
                    parents[id(z)] = y
    y = x
    while id(y) in parents:
        p = parents[id(y)]
        k = p.get("kind")
        if k == "CXXCtorInitializer":
            return p.get("anyInit", {}).get("name") in ("timestamp", "sim_start_time")
        if k in ("IfStmt", "WhileStmt", "ForStmt", "ReturnStmt", "CXXNewExpr", "ConditionalOperator"):
            return False
        if k == "CXXOperatorCallExpr" and cppraw.callee(p) == "operator<<":
            return True
        if k in ("BinaryOperator", "CXXOperatorCallExpr") and (p.get("opcode") == "=" or cppraw.callee(p) == "operator="):
            l = cppraw.strip(p["inner"][0] if k == "BinaryOperator" else cppraw.args(p)[0])
            return l.get("name") in ("timestamp", "sim_start_time")
        if k == "VarDecl":
            nm = p.get("name")
            uses = [z for rt in cppraw.roots(fn) for z in cppraw.walk(rt) if z.get("kind") == "DeclRefExpr" and z.get("referencedDecl", {}).get("id") == p.get("id")]
            return all(local_out(z, parents) for z in uses)
        if k in ("CompoundStmt",):
            return True
        y = p
    return None if y is x else True


def local_out(z, parents):
    y = z
    while id(y) in parents:
        p = parents[id(y)]
        k = p.get("kind")
        if k == "CXXOperatorCallExpr" and cppraw.callee(p) == "operator<<" or k == "CallExpr" and cppraw.callee(p) in ("printf", "fprintf", "snprintf", "sprintf"):
            return True
        if k in ("IfStmt", "WhileStmt", "ForStmt", "ReturnStmt", "CompoundStmt", "ConditionalOperator"):
            return False
        y = p
    return False
