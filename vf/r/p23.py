"""P23: saved scenarios reload completely (writer, reader and recording of arguments)."""
import ast
from .common import *
from .. import pyraw
from .p22 import Escape, shown

SRW = "uxsim/scenario_reader_writer.py"
MAIN = "uxsim/uxsim.py"
SKIP = ("W", "auto_rename")


def fn(rel, qual):
    for f in pyraw.mod(rel).funcs:
        if f.qual == qual:
            return f
    raise Floor("%s: function %s not found" % (rel, qual))


def params(f, drop=1):
    a = f.node.args
    ps = a.posonlyargs + a.args
    d = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
    d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults)})
    return [p.arg for p in ps[drop:]] + [p.arg for p in a.kwonlyargs], d


def writer():
    """the function that turns an element into its arguments: called in save_scenario for each node"""
    m = pyraw.mod(SRW)
    sv = fn(SRW, "save_scenario")
    for n in ast.walk(sv.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            for f in m.funcs:
                if f.node.name == n.func.id and any("signature" in shown(x.func) for x in ast.walk(f.node) if isinstance(x, ast.Call)):
                    return f
    return None


@rule("P23", "R1", "every constructor parameter of a node and a link is kept under its own name, in a form the constructor maps to itself")
def r1(c):
    n_ = 0
    for cls in ("Node", "Link"):
        init = fn(MAIN, cls + ".__init__")
        ps, defaults = params(init, 1)
        r = run("py", cls + ".__init__", all=False)
        c.used(r)
        props = {f.node.name for f in pyraw.mod(MAIN).funcs if f.cls == cls and any(shown(d) in ("property", "cached_property", "functools.cached_property") for d in f.node.decorator_list)}
        for p in ps:
            if p in SKIP or p.endswith("_old"):
                continue
            n_ += 1
            if p in props:
                c.ob(uses_getattr(), init.where(), "%s.%s is a property: it is not among the attributes the writer reads" % (cls, p), "%s.%s" % (cls, p))
                continue
            st = stores(init, p)
            if not st:
                c.ob(False, init.where(), "parameter %s of %s is not kept under its name, a saved scenario loses it" % (p, cls), "%s.%s" % (cls, p))
                continue
            v = r.heap("s.%s" % p)
            ok, why = idempotent(init, st, v, p)
            c.ob(ok, init.where(), "parameter %s of %s: %s" % (p, cls, why), "%s.%s" % (cls, p))
    c.floor(n_, 20, "constructor parameters")


def uses_getattr():
    w = writer()
    return w is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" for x in ast.walk(w.node))


def stores(init, p, depth=0):
    """assignments of self.p in the constructor or in methods it calls on itself"""
    slf = init.node.args.args[0].arg
    out = []
    for n in ast.walk(init.node):
        if isinstance(n, ast.Attribute) and n.attr == p and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == slf:
            out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == slf and depth < 2:
            for f in init.mod.funcs:
                if f.cls == init.cls and f.node.name == n.func.attr and f.node is not init.node:
                    out += stores(f, p, depth + 1)
    return out


def leaves(v):
    if v.kind == "ite":
        return leaves(v.a[1]) | leaves(v.a[2])
    return {v}


def normal_form(v, p):
    """v is the parameter p up to a conversion that maps its own results to themselves"""
    while True:
        if v.kind in ("p", "s") and v.a[0] == p:
            return True
        if v.kind == "call" and v.a[0] in ("int", "float", "str", "list", "tuple", "bool", "abs", "ceil", "round") and len(v.a[1]) == 1:
            v = v.a[1][0]
        elif v.kind in ("int", "float", "list", "tuple", "ceil", "abs") and len(v.a) == 1:
            v = v.a[0]
        elif v.kind == "mcall" and len(v.a[2]) == 1 and v.a[1] in ("get_node", "get_link"):
            v = v.a[2][0]
        elif isinstance(v, tuple) and len(v) == 1:
            v = v[0]
        elif v.kind == "ite":
            ls = [x for x in leaves(v)]
            return all(normal_form(x, p) for x in ls)
        else:
            return False
        if isinstance(v, tuple):
            if len(v) != 1:
                return False
            v = v[0]


def mentions(v, p):
    return any(x.kind in ("p", "s") and x.a[0] == p for x in V_.walk(v))


def alien(v, p):
    """an opaque call between the value and the parameter"""
    return any(x.kind in ("call", "mcall", "apply", "idx", "attr", "cat") and not (x.kind == "call" and x.a[0] in ("int", "float", "abs", "round")) and mentions(x, p) for x in V_.walk(v))


def idempotent(init, st, v, p):
    """the stored value is the parameter, or a normal form of it"""
    if v is None or not mentions(v, p):
        for n in st:
            par = getattr(n, "_parent", None)
            if isinstance(par, ast.Assign) and isinstance(par.value, ast.Name) and par.value.id == p:
                return True, "kept as it is"
        src = [getattr(n, "_parent", None) for n in st]
        if any(isinstance(x, ast.Name) and x.id == p for q in src if q is not None for x in ast.walk(q)):
            return True, "kept"
        if v is None or any(x.kind not in ("s", "c", "ite", "f", "fld", "attr", "add", "mul", "poly", "p") for x in V_.walk(v)):
            return None, "the kept value could not be determined"
        return False, "the kept value does not come from the parameter"
    bad = []
    for x in leaves(v):
        if not mentions(x, p) or normal_form(x, p):
            continue
        if alien(x, p):
            return (True if p == "name" else None), "kept in a form that is not analysed"
        bad.append(x)
    if bad:
        return False, "it is kept as %r, which the constructor changes again when the scenario is loaded" % bad[0]
    return True, "kept"


@rule("P23", "R2", "the writer leaves out a parameter only if it has its default value")
def r2(c):
    w = writer()
    if w is None:
        raise Floor("the function that collects the arguments of an element was not found")
    loop = None
    for n in ast.walk(w.node):
        if isinstance(n, ast.For) and ("parameters" in shown(n.iter)):
            loop = n
    if loop is None:
        raise Floor("%s: loop over the parameters not found" % w.where())
    tv = [x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)]
    k = 0
    # conditions under which the rest of the loop body is skipped
    for n in ast.walk(loop):
        if isinstance(n, ast.Continue):
            cond = [x for x in enclosing(n, loop)]
            k += 1
            ok, why = allowed_skip(w, loop, cond, tv)
            c.ob(ok, w.where(n), "a parameter is left out when %s: %s" % (" and ".join(shown(x) if pos else "not (%s)" % shown(x) for x, pos in cond), why), "skip|" + why)
        elif isinstance(n, ast.Break):
            c.ob(False, w.where(n), "parameters after this one are not written", "break")
    # the recording assignment itself
    rec = [n for n in ast.walk(loop) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name) and t.slice.id in tv for t in n.targets)]
    rec = [n for n in rec if not any(isinstance(x, ast.Attribute) and x.attr in ("name", "id") for x in ast.walk(n.value))] or rec
    for n in rec[:1]:
        k += 1
        cond = [x for x in enclosing(n, loop)]
        if cond:
            ok, why = allowed_skip(w, loop, [(x, not pos) for x, pos in cond], tv, disj=True)
            c.ob(ok, w.where(n), "a parameter is written only when %s: %s" % (" and ".join(shown(x) if pos else "not (%s)" % shown(x) for x, pos in cond), why), "record")
        else:
            c.ob(True, w.where(n), "parameters are written", "record")
    c.floor(len(rec), 1, "recording of an argument")
    # removal of entries
    for n in ast.walk(w.node):
        if isinstance(n, ast.Delete) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "popitem", "clear"):
            cond = [x for x in enclosing(n, w.node)]
            lits = {x.value for t, pos in cond for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)} | {x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
            k += 1
            c.ob(bool(lits) and lits <= {"W", "self", "s", "world"}, w.where(n), "the entry removed is %s" % (", ".join(sorted(lits)) or "not fixed"), "remove|" + ",".join(sorted(lits)))
    c.floor(k, 2, "conditions of the writer")


def enclosing(n, top):
    p, x = n._parent, n
    while x is not top and p is not None:
        if isinstance(p, ast.If) and x is not p.test:
            yield (p.test, any(x is y for y in p.body))
        x, p = p, getattr(p, "_parent", None)


def defs_of(fn_, name, before):
    out = [st.value for st in ast.walk(fn_.node) if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets)]
    return out


def allowed_skip(w, loop, cond, tv, disj=False):
    """the condition implies: the parameter is the object itself or its world, or the value equals the default"""
    for t, pos in cond:
        x = t
        while isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            x, pos = x.operand, not pos
        if isinstance(x, ast.BoolOp) and (isinstance(x.op, ast.And) if pos else isinstance(x.op, ast.Or)):
            parts = [(y, pos) for y in x.values]
        else:
            parts = [(x, pos)]
        for y, ps in parts:
            r = default_test(w, y, ps, tv)
            if r:
                return True, r
    if not cond:
        return False, "always"
    return False, "the value may differ from the default"


def default_test(w, y, pos, tv, d=0):
    while isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not):
        y, pos = y.operand, not pos
    if isinstance(y, ast.Name) and d < 4:
        ds = defs_of(w, y.id, None)
        if ds and y.id not in tv:
            rs = [default_test(w, x, pos, tv, d + 1) for x in ds]
            return rs[0] if all(rs) else None
        return None
    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "bool" and y.args:
        return default_test(w, y.args[0], pos, tv, d + 1)
    if isinstance(y, ast.BoolOp) and isinstance(y.op, ast.Or) and pos:
        rs = [default_test(w, x, pos, tv, d + 1) for x in y.values]
        return "default value" if all(rs) else None
    if isinstance(y, ast.BoolOp) and isinstance(y.op, ast.And) and pos:
        rs = [default_test(w, x, pos, tv, d + 1) for x in y.values]
        return next((x for x in rs if x), None)
    if not isinstance(y, ast.Compare) or len(y.ops) != 1:
        return None
    op = y.ops[0]
    l, r = y.left, y.comparators[0]
    eq = isinstance(op, (ast.Eq, ast.Is)) and pos or isinstance(op, (ast.NotEq, ast.IsNot)) and not pos
    if isinstance(op, ast.In) and pos and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) and e.value in ("self", "s", "W", "world") for e in r.elts):
        return "the object itself or its world"
    if not eq:
        return None
    for a, b in ((l, r), (r, l)):
        if isinstance(b, ast.Constant) and b.value in ("self", "s", "W", "world") and isinstance(a, (ast.Name, ast.Attribute)):
            return "the object itself or its world"
        if "default" in shown(b) and "default" not in shown(a) and isinstance(a, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
            return "default value"
    return None


@rule("P23", "R3", "nodes and links handed over as arguments are written by name")
def r3(c):
    w = writer()
    if w is None:
        raise Floor("the function that collects the arguments of an element was not found")
    conv = [n for n in ast.walk(w.node) if isinstance(n, ast.Attribute) and n.attr == "name" and isinstance(n.ctx, ast.Load) and isinstance(n._parent, (ast.Assign, ast.IfExp, ast.Return, ast.Call, ast.DictComp))]
    ok = False
    for n in conv:
        cond = [t for t, pos in enclosing(n, w.node) if pos]
        if isinstance(n._parent, ast.IfExp):
            cond.append(n._parent.test)
        lit = {str(x.value) for t in cond for x in ast.walk(t) if isinstance(x, ast.Constant)} | {x.id for t in cond for x in ast.walk(t) if isinstance(x, ast.Name)}
        if any("Node" in x for x in lit) or any(x in ("hasattr",) for x in lit):
            ok = True
    c.ob(ok, w.where(), "the end nodes of a link are %s" % ("written by name" if ok else "not turned into names"), "node-name")


def through(f, n):
    """fully resolved source text of a name: its single definition"""
    if isinstance(n, ast.Name):
        ds = defs_of(f, n.id, None)
        if len(ds) == 1:
            return ds[0]
    return n


@rule("P23", "R4", "all nodes, links and demands are written, in order")
def r4(c):
    sv = fn(SRW, "save_scenario")
    w = writer()
    k = 0
    for reg in ("NODES", "LINKS"):
        its = [n for n in ast.walk(sv.node) if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Attribute) and x.attr == reg for x in ast.walk(n.iter))]
        k += len(its)
        if not its:
            c.ob(False, sv.where(), "%s are not written" % reg, reg)
            continue
        for it in its[:1]:
            plain = isinstance(it.iter, ast.Attribute) or isinstance(it.iter, ast.Call) and isinstance(it.iter.func, ast.Name) and it.iter.func.id in ("list", "tuple") and isinstance(it.iter.args[0], ast.Attribute)
            flt = isinstance(it, ast.comprehension) and it.ifs or isinstance(it, ast.For) and any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(it)) or isinstance(it, ast.For) and any(isinstance(x, ast.If) for x in it.body)
            c.ob(plain and not flt, sv.where(it if isinstance(it, ast.For) else it.iter), "%s are written %s" % (reg, "all and in order" if plain and not flt else "with a filter or in another order: %s" % shown(it.iter)), reg)
    dem = [n for n in ast.walk(sv.node) if isinstance(n, ast.Attribute) and n.attr == "demand_info"]
    c.ob(bool(dem), sv.where(dem[0]) if dem else sv.where(), "recorded demands are %s" % ("written" if dem else "not written"), "demand")
    for n in dem:
        p = n._parent
        while isinstance(p, ast.Call) or isinstance(p, ast.BinOp) and isinstance(p.op, ast.BitOr) or isinstance(p, ast.Attribute) and p.attr in ("copy", "items", "update"):
            p = p._parent
        flt = isinstance(p, ast.comprehension) and p.ifs or isinstance(p, ast.Subscript)
        k += 1
        c.ob(not flt, sv.where(n), "%s recorded demands are written" % ("only some" if flt else "all"), "demand-filter")
    # dumped
    dump = [n for n in ast.walk(sv.node) if isinstance(n, ast.Call) and shown(n.func).split(".")[-1] in ("dump", "write")]
    c.ob(bool(dump), sv.where(), "the result is %swritten to the file" % ("" if dump else "not "), "dump")
    # nothing written is lost again
    names = {n.args[0].id for n in dump if n.args and isinstance(n.args[0], ast.Name)}
    for nm in sorted(names):
        ass = [n for n in ast.walk(sv.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets)]
        ass.sort(key=lambda n: n.lineno)
        for a in ass[1:]:
            keep = any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(a.value))
            c.ob(keep, sv.where(a), "what was collected in %s before is %s" % (nm, "kept" if keep else "lost here"), "lost")
    c.floor(k, 3, "written parts")


def recorded():
    """methods of World whose arguments are recorded: name -> (fn, how)"""
    out = {}
    m = pyraw.mod(MAIN)
    for f in m.funcs:
        if f.cls == "World" and f.qual.count(".") == 1:
            if any("demand_info_record" in shown(d) or records(d) for d in f.node.decorator_list):
                out[f.node.name] = (f, "decorator")
            elif any(isinstance(x, ast.Attribute) and x.attr == "demand_info" for x in ast.walk(f.node)) and f.node.name not in ("__init__", "save_scenario", "load_scenario"):
                out[f.node.name] = (f, "body")
    return out


def records(d):
    m = pyraw.mod(SRW)
    for f in m.funcs:
        if f.qual == shown(d).split(".")[-1] and any(isinstance(x, ast.Attribute) and x.attr == "demand_info" for x in ast.walk(f.node)):
            return True
    return False


def recorded_call(x, rec):
    """a call, as a user would make it, of a method that records its arguments"""
    n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
    g = rec.get(n)
    if g is None:
        return False
    gp, _ = params(g[0])
    for k in x.keywords:
        if k.arg == "direct_call":
            return isinstance(k.value, ast.Constant) and bool(k.value.value)
    if "direct_call" in gp and len(x.args) > gp.index("direct_call") and not any(isinstance(a, ast.Starred) for a in x.args):
        return False
    return True


def says_direct(t, val):
    """the value of a condition for a call made by the user (val) or by another method (not val); None if it says something else"""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        x = says_direct(t.operand, val)
        return None if x is None else not x
    if isinstance(t, ast.BoolOp):
        xs = [says_direct(x, val) for x in t.values]
        stop = isinstance(t.op, ast.Or)
        return stop if stop in xs else (None if None in xs else not stop)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        a, b = [x.value if isinstance(x, ast.Constant) else says_direct(x, val) for x in (t.left, t.comparators[0])]
        if a is None or b is None:
            return None
        return (a == b) == isinstance(t.ops[0], (ast.Eq, ast.Is))
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and len(t.args) == 1:
        return says_direct(t.args[0], val)
    if "direct_call" in shown(t) and isinstance(t, (ast.Name, ast.Subscript, ast.Call, ast.Attribute)):
        return val
    return None


def conditions(fn, node):
    """[(test, positive)]: what is asked on the way to a statement, including earlier returns"""
    out = []
    def inside(b):
        return any(x is node for s in b for x in ast.walk(s))
    def go(body):
        for s in body:
            if not any(x is node for x in ast.walk(s)):
                if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and not s.orelse:
                    out.append((s.test, False))
                continue
            if isinstance(s, ast.If):
                if inside(s.body):
                    out.append((s.test, True))
                elif inside(s.orelse):
                    out.append((s.test, False))
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and inside(b):
                    go(b)
            return
    go(fn.body)
    return out


@rule("P23", "R11", "the arguments are recorded for the calls of the user and for no others")
def r11(c):
    n = 0
    for m in (pyraw.mod(MAIN), pyraw.mod(SRW)):
        for f in m.funcs:
            if f.node.name in ("__init__", "save_scenario", "load_scenario"):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and any(isinstance(y, ast.Attribute) and y.attr == "demand_info" for y in ast.walk(x.func.value)):
                    cs = [(through(f, t), pos) for t, pos in conditions(f.node, x)]
                    n += 1
                    for val, who in ((True, "the user"), (False, "another method")):
                        vs = [None if v is None else v == pos for v, pos in ((says_direct(t, val), pos) for t, pos in cs)]
                        if val:
                            ok = False if False in vs else (None if None in vs else True)
                        else:
                            ok = True if False in vs else (None if None in vs else False)
                            if ok is False and not any("direct_call" in d for d in (getattr(y, "id", None) or getattr(y, "arg", None) or str(getattr(y, "value", "")) for y in ast.walk(f.node))):
                                ok = None   # a helper: its callers decide
                        c.ob(ok, f.where(x), "a call by %s is %s%s" % (who, "recorded" if val else "not recorded", "" if ok is not False else "; found the conditions %s" % [shown(t)[:60] for t, _ in cs]), "%s:%s" % (f.qual, who))
    c.floor(n, 2, "places that record arguments")


@rule("P23", "R5", "every method that adds vehicles records its arguments exactly once")
def r5(c):
    m = pyraw.mod(MAIN)
    rec = recorded()
    adders = {}
    for f in m.funcs:
        if f.cls == "World" and f.qual.count(".") == 1 and not f.node.name.startswith("_"):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else (x.func.id if isinstance(x.func, ast.Name) else "")
                    if n == "Vehicle" or n in ("addVehicle",) or n.startswith("adddemand"):
                        adders.setdefault(f.node.name, (f, []))[1].append(x)
    c.floor(len(adders), 5, "methods that add vehicles")
    for name, (f, calls) in sorted(adders.items()):
        ps, df = params(f)
        if name.startswith("load_"):
            # loading adds through the public methods, which record
            continue
        through_ = all(recorded_call(x, rec) for x in calls)
        if name not in rec and through_:
            c.ob(True, f.where(), "%s adds through methods that record" % name, name)
            continue
        c.ob(name in rec, f.where(), "%s %s" % (name, "records its arguments" if name in rec else "adds vehicles without recording its arguments: they are missing in a saved scenario"), name)
        if name in rec:
            d = df.get("direct_call")
            c.ob(isinstance(d, ast.Constant) and d.value is True, f.where(), "%s is recorded when called by the user" % name, name + ":direct")
        for x in calls:
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
            if n == "Vehicle":
                continue
            dc = [k.value for k in x.keywords if k.arg == "direct_call"]
            g = rec.get(n)
            if g is None:
                continue
            gp, _ = params(g[0])
            if not dc and "direct_call" in gp and len(x.args) > gp.index("direct_call") and not any(isinstance(a, ast.Starred) for a in x.args):
                dc = [x.args[gp.index("direct_call")]]
            ok = bool(dc) and isinstance(dc[0], ast.Constant) and dc[0].value is False
            if not dc and any(k.arg is None for k in x.keywords):
                ok = None
            c.ob(ok if name in rec else True, f.where(x), "the call of %s inside %s is %s" % (n, name, "not recorded a second time" if ok else "recorded in addition to %s, so that loading adds its vehicles twice" % name), "%s->%s" % (name, n))


def only_direct(t):
    """the test depends on direct_call alone"""
    if isinstance(t, ast.BoolOp):
        return all(only_direct(x) for x in t.values)
    names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} | {x.value for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return "direct_call" in names and "direct_call" in shown(t)


@rule("P23", "R6", "the recorded arguments are complete and not changed afterwards")
def r6(c):
    m = pyraw.mod(SRW)
    decs = [f for f in m.funcs if f.qual.count(".") == 0 and any(isinstance(x, ast.Attribute) and x.attr == "demand_info" for x in ast.walk(f.node)) and f.node.name not in ("save_scenario", "load_scenario")]
    c.floor(len(decs), 1, "recording decorators")
    for d in decs:
        app = [x for x in ast.walk(d.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append",) and any(isinstance(y, ast.Attribute) and y.attr == "demand_info" for y in ast.walk(x.func))]
        c.ob(bool(app), d.where(), "arguments are %s" % ("appended to the record" if app else "not appended to the record"), d.qual + ":append")
        if not app:
            continue
        key = [y for y in ast.walk(app[0].func) if isinstance(y, ast.Subscript)]
        kt = shown(through(d, key[0].slice)) if key else ""
        c.ob("__name__" in kt, d.where(app[0]), "the record is kept under %s" % (kt or "?"), d.qual + ":key")
        txt = ast.unparse(d.node)
        binds_ = [x for x in ast.walk(d.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("bind", "bind_partial")]
        star = bool(binds_) and any(isinstance(a, ast.Starred) for a in binds_[0].args) and any(k.arg is None for k in binds_[0].keywords)
        c.ob(star, d.where(), "positional and keyword arguments are %s" % ("all bound to their names" if star else "not all recorded"), d.qual + ":bind")
        # entries left out
        for n in ast.walk(d.node):
            if isinstance(n, ast.DictComp):
                for g in n.generators:
                    for t in g.ifs:
                        lits = {x.value for x in ast.walk(t) if isinstance(x, ast.Constant)}
                        simple = isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.NotEq, ast.NotIn)) and lits <= {"direct_call", "self", "W"}
                        c.ob(simple, d.where(n), "recorded are all arguments but %s" % ", ".join(map(str, sorted(map(str, lits)))), d.qual + ":filter")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
                lo, hi = n.slice.lower, n.slice.upper
                ok = isinstance(lo, ast.Constant) and lo.value == 1 and hi is None and n.slice.step is None
                c.ob(ok, d.where(n), "all arguments after the object itself are recorded" if ok else "some arguments are cut off: %s" % shown(n), d.qual + ":slice")
        # the original call still happens with the same arguments
        calls = [x for x in ast.walk(d.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == d.node.args.args[0].arg]
        c.ob(bool(calls), d.where(), "the recorded method is %s" % ("called with its result handed on" if calls else "not called"), d.qual + ":call")
        # condition of recording
        cond = [(through(d, t), pos) for t, pos in enclosing(app[0], d.node)]
        okc = all(only_direct(t) and pos for t, pos in cond)
        reads = [x for t, _ in cond for x in ast.walk(t) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and len(x.args) == 1]
        if reads and binds_:
            full = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "apply_defaults" and x.lineno < app[0].lineno for x in ast.walk(d.node))
            c.ob(full, d.where(reads[0]), "arguments that are not given are %s" % ("taken from the defaults" if full else "missing, so that direct_call is never true"), d.qual + ":defaults")
        c.ob(okc, d.where(app[0]), "recorded %s" % ("whenever called by the user" if okc else "only when " + " and ".join(shown(t) for t, _ in cond)), d.qual + ":when")
    # recorded in the body
    esc = Escape()
    for name, (f, how) in sorted(recorded().items()):
        if how == "body":
            app = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and any(isinstance(y, ast.Attribute) and y.attr == "demand_info" for y in ast.walk(x.func))]
            key = [y for x in app for y in ast.walk(x.func) if isinstance(y, ast.Subscript)]
            c.ob(bool(app) and shown(key[0].slice) == "'%s'" % name if key else False, f.where(), "%s is recorded under its own name" % name, name + ":key")
            if app:
                used = {x.id for x in ast.walk(app[0]) if isinstance(x, ast.Name)}
                a = f.node.args
                need = {p for p in params(f)[0] if p != "direct_call"} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
                c.ob(need <= used, f.where(app[0]), "all arguments are recorded%s" % ("" if need <= used else ", except " + ", ".join(sorted(need - used))), name + ":args")
                for n in ast.walk(through(f, app[0])):
                    if isinstance(n, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
                        for t in [t for g in n.generators for t in g.ifs]:
                            lits = {x.value for x in ast.walk(t) if isinstance(x, ast.Constant)}
                            simple = isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.NotEq, ast.NotIn)) and lits <= {"direct_call", "self", "W"}
                            c.ob(simple, f.where(app[0]), "arguments are recorded whatever their value, not only if %s" % shown(t), name + ":filter")
                cond = [(through(f, t), pos) for t, pos in enclosing(app[0], f.node)]
                okc = all(only_direct(t) and pos for t, pos in cond)
                c.ob(okc, f.where(app[0]), "recorded %s" % ("whenever called by the user" if okc else "only when " + " and ".join(shown(t) for t, _ in cond)), name + ":when")
        for p in params(f)[0]:
            ch = [x for x in esc.param(f, p) if x[1].startswith("changed by .") or "entry" in x[1]]
            ch = [x for x in ch if f.qual in x[0]]
            c.ob(not ch, f.where(), "the recorded argument %s of %s is %s" % (p, name, "changed at %s after it was recorded" % ch[0][0] if ch else "not changed in place"), "%s:%s:alias" % (name, p))


@rule("P23", "R7", "everything that is written is read again, in order and with all arguments")
def r7(c):
    ld = fn(SRW, "load_scenario")
    sv = fn(SRW, "save_scenario")
    k = 0
    # keys of the network part
    wkeys = {x.value for n in ast.walk(sv.node) if isinstance(n, ast.Dict) for x in n.keys if isinstance(x, ast.Constant)} | {t.slice.value for n in ast.walk(sv.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant)}
    rkeys = {n.slice.value for n in ast.walk(ld.node) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)} | {n.args[0].value for n in ast.walk(ld.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args and isinstance(n.args[0], ast.Constant)}
    for key in sorted(str(x) for x in wkeys):
        k += 1
        c.ob(key in rkeys, ld.where(), "the written part %s is %s" % (key, "read" if key in rkeys else "never read"), "key|" + key)
    # methods called while loading
    W = ld.node.args.args[0].arg
    called = {}
    generic = False
    for n in ast.walk(ld.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == W:
                called.setdefault(n.func.attr, []).append(n)
            elif isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Name) and n.func.func.id == "getattr":
                generic = n
            elif isinstance(n.func, ast.Name) and any(isinstance(d, ast.Call) and shown(d.func) == "getattr" for d in defs_of(ld, n.func.id, None)):
                generic = n
            elif isinstance(n.func, ast.Subscript):
                generic = n
    for name in ["addNode", "addLink"] + sorted(recorded()):
        k += 1
        ns = called.get(name)
        if ns is None:
            table = any(isinstance(x, ast.Attribute) and x.attr == name or isinstance(x, ast.Constant) and x.value == name for x in ast.walk(ld.node))
            ok = True if generic is not False and (table or not any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith("adddemand") for x in ast.walk(ld.node))) and name not in ("addNode", "addLink") else False
            c.ob(ok, ld.where(), "%s of a saved scenario %s" % (name, "is read by a common branch" if ok else "is silently dropped when loading"), "read|" + name)
            continue
        for n in ns:
            full = any(q.arg is None for q in n.keywords)
            c.ob(full, ld.where(n), "%s is called with %s" % (name, "all written arguments" if full else "selected arguments"), "args|" + name)
            # branch
            conds = [(t, pos) for t, pos in enclosing(n, ld.node)]
            lits = {x.value for t, pos in conds if pos for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
            if name not in ("addNode", "addLink"):
                c.ob(not lits or name in lits, ld.where(n), "entries of %s are loaded by %s" % (", ".join(sorted(lits)) or "?", name), "branch|" + name)
                extra = [t for t, pos in conds if pos and not (isinstance(t, ast.Name) and t.id == "demand") and not any(isinstance(x, ast.Constant) and x.value == name for x in ast.walk(t))]
                extra += [t for t, pos in conds if not pos and name in {x.value for x in ast.walk(t) if isinstance(x, ast.Constant)}]
                c.ob(not extra, ld.where(n), "entries are loaded %s" % ("all" if not extra else "only when " + shown(extra[0])), "cond|" + name)
            else:
                extra = [t for t, pos in conds if not (isinstance(t, ast.Name) and t.id == "network" and pos)]
                c.ob(not extra, ld.where(n), "entries are loaded %s" % ("all" if not extra else "only when " + shown(extra[0])), "cond|" + name)
            # the loop over the entries
            p, x = n._parent, n
            loop = None
            while p is not None and p is not ld.node:
                if isinstance(p, (ast.For,)):
                    loop = p
                    break
                p = p._parent
            if loop is None:
                c.ob(False, ld.where(n), "only one entry of %s is loaded" % name, "loop|" + name)
                continue
            it = loop.iter
            plain = isinstance(it, (ast.Subscript, ast.Name)) and not (isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice)) or isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "get"
            brk = any(isinstance(y, (ast.Break, ast.Continue)) for y in ast.walk(loop))
            c.ob(plain and not brk, ld.where(loop), "all entries of %s are loaded in order%s" % (name, "" if plain and not brk else ": not with %s" % shown(it)), "loop|" + name)
    # nodes before links, network before demand
    def line(nm):
        return min([x.lineno for x in called.get(nm, [])] or [0])
    if "addNode" in called and "addLink" in called:
        c.ob(line("addNode") < line("addLink"), ld.where(), "nodes are loaded before links", "order")
    c.floor(k, 8, "written parts")


@rule("P23", "R8", "the methods that add nodes and links hand every parameter to the constructor")
def r8(c):
    k = 0
    for meth, cls in (("addNode", "Node"), ("addLink", "Link")):
        f, init = fn(MAIN, "World." + meth), fn(MAIN, cls + ".__init__")
        ps, df = params(f)
        ip, idf = params(init, 2)
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == cls]
        if not calls:
            raise Floor("%s: call of %s not found" % (f.where(), cls))
        call = calls[0]
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(q.arg is None for q in call.keywords)
        given = {}
        pos = [a for a in call.args if not isinstance(a, ast.Starred)][1:]
        for nm, a in zip(ip, pos):
            given[nm] = a
        for q in call.keywords:
            if q.arg:
                given[q.arg] = q.value
        for p in ip:
            k += 1
            if p in given:
                ok = isinstance(given[p], ast.Name) and given[p].id == p
                ment = any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(through(f, given[p])))
                c.ob(ok if ok or not ment else None, f.where(call), "parameter %s of %s is %s" % (p, cls, "handed on" if ok else "given %s" % shown(given[p])), "%s.%s" % (meth, p))
            else:
                ok = dstar and f.node.args.kwarg is not None or star and f.node.args.vararg is not None
                c.ob(bool(ok), f.where(call), "parameter %s of %s is %s" % (p, cls, "handed on" if ok else "not handed on"), "%s.%s" % (meth, p))
            if p in ps and p in idf:
                a, b = df.get(p), idf.get(p)
                same = a is not None and b is not None and ast.dump(a) == ast.dump(b)
                c.ob(same, f.where(), "default of %s is %s in %s and %s in %s" % (p, shown(a) if a is not None else "none", meth, shown(b), cls), "%s.%s:default" % (meth, p))
    c.floor(k, 20, "parameters")


@rule("P23", "R9", "the C++ mode reports that it cannot save or load scenarios, or does both completely")
def r9(c):
    m = pyraw.mod("uxsim/uxsim_cpp_wrapper.py")
    k = 0
    for f in m.funcs:
        if f.cls == "CppWorld" and f.node.name in ("save_scenario", "load_scenario"):
            k += 1
            body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            raises = bool(body) and isinstance(body[0], ast.Raise)
            calls = any(isinstance(x, ast.Call) and shown(x.func).split(".")[-1] == f.node.name for x in ast.walk(f.node))
            if raises:
                c.ob(True, f.where(), "%s is refused" % f.node.name, f.node.name)
            elif calls:
                # then the attributes must be found by the writer
                for cls, meth in (("CppNode", "__init__"), ("CppLink", "__init__")):
                    g = [x for x in m.funcs if x.qual == cls + "." + meth]
                    for p in params(g[0], 2)[0] if g else ():
                        if p in SKIP or p.endswith("_old"):
                            continue
                        prop = any(x.cls == cls and x.node.name == p for x in m.funcs)
                        c.ob(bool(stores(g[0], p)) and not prop or uses_getattr(), g[0].where(), "parameter %s of %s is kept for the writer" % (p, cls), "%s.%s" % (cls, p))
            else:
                c.ob(False, f.where(), "%s neither works nor reports that it cannot" % f.node.name, f.node.name)
    c.floor(k, 2, "scenario methods of the C++ mode")


@rule("P23", "R10", "World.save_scenario and World.load_scenario hand on what they are given")
def r10(c):
    for nm in ("save_scenario", "load_scenario"):
        f, g = fn(MAIN, "World." + nm), fn(SRW, nm)
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and shown(x.func).split(".")[-1] == nm]
        if not calls:
            raise Floor("%s: call of %s not found" % (f.where(), nm))
        gp = params(g, 0)[0]
        given = dict(zip(gp, calls[0].args))
        given.update({k.arg: k.value for k in calls[0].keywords if k.arg})
        slf = f.node.args.args[0].arg
        if any(isinstance(a, ast.Starred) for a in calls[0].args) or any(k.arg is None for k in calls[0].keywords):
            c.ob(True, f.where(calls[0]), "%s hands on all arguments" % nm, nm)
            continue
        for i, p in enumerate(gp):
            want = slf if i == 0 else p
            if i and p not in params(f)[0]:
                continue
            v = given.get(p)
            v = through(f, v) if v is not None else v
            ok = v is not None and any(isinstance(x, ast.Name) and x.id == want for x in ast.walk(v))
            c.ob(ok, f.where(calls[0]), "%s of %s is %s" % (p, nm, "handed on" if ok else "not handed on"), "%s:%s" % (nm, p))
