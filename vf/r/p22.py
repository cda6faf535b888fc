"""P22: worlds do not influence each other: nothing mutable is shared through defaults, classes, modules or static storage."""
import ast
import glob
import os
from .common import *
from .. import pyraw, cppraw as X
from .. import project as P
from . import p11

FRESH = {"list", "dict", "set", "tuple", "sorted", "frozenset", "sum", "len", "min", "max", "any", "all", "enumerate", "zip", "map", "filter", "range", "reversed", "iter", "str", "repr", "float", "int", "bool", "print", "isinstance", "type",
         "copy", "deepcopy", "array", "asarray", "zeros", "ones", "full", "Counter", "abs", "round", "hash", "format", "join", "deque", "defaultdict", "ddict", "lange", "max_", "DataFrame", "id", "callable", "getattr", "hasattr", "issubclass", "product"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "appendleft", "popleft", "extendleft", "rotate", "fill", "put", "resize", "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__delitem__"}
COPYING = {"copy", "tolist", "keys", "values", "items", "index", "count", "get", "split", "join", "union", "intersection", "difference", "astype", "mean", "sum", "shape"}


def mods():
    rels = sorted(os.path.relpath(p, P.REPO) for p in glob.glob(os.path.join(P.REPO, "uxsim", "**", "*.py"), recursive=True))
    return pyraw.mods(tuple(rels))


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else "")
        return n in ("list", "dict", "set", "ddict", "defaultdict", "OrderedDict", "Counter", "deque", "array", "zeros", "ones", "empty", "full", "arange", "bytearray", "DataFrame", "default_rng", "Random", "RandomState")
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add)):
        return mutable(e.left) or mutable(e.right)
    return False


def shown(e):
    try:
        return ast.unparse(e)[:60]
    except Exception:
        return "?"


class Escape:
    """where the object bound to a parameter ends up"""

    def __init__(self):
        self.memo = {}

    def setters(self, name, cls):
        for m in mods():
            for f in m.funcs:
                if f.cls == cls and f.node.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in f.node.decorator_list):
                    yield f

    def defs(self, name):
        for m in mods():
            for f in m.funcs:
                if f.node.name == name:
                    yield f
            if name in m.classes:
                for f in m.funcs:
                    if f.cls == name and f.node.name == "__init__":
                        yield f

    def param(self, f, name, depth=0):
        """list of (where, what) leaks of the object a parameter holds"""
        k = (f.mod.rel, f.qual, f.node.lineno, name)
        if k in self.memo or depth > 6:
            return self.memo.get(k, [])
        self.memo[k] = []
        out = []
        names = {name}
        for _ in range(4):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for e in self.alias(n.value):
                        if isinstance(e, ast.Name) and e.id in names:
                            for t in n.targets:
                                if isinstance(t, ast.Name):
                                    names.add(t.id)
        # a name that is rebound unconditionally to a copy before any other use is no longer the parameter
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
                if rebound_before(f, n):
                    continue
                out += self.use(f, n, depth)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names and not rebound_before(f, n.target):
                if isinstance(n.op, (ast.Add, ast.BitOr)) :
                    out.append((f.where(n), "changed by %s=" % shown(n.target)))
        self.memo[k] = out
        return out

    def alias(self, e):
        if isinstance(e, ast.IfExp):
            return self.alias(e.body) + self.alias(e.orelse)
        if isinstance(e, ast.BoolOp):
            return [y for x in e.values for y in self.alias(x)]
        return [e]

    def use(self, f, n, depth):
        p = n._parent
        x = n
        while isinstance(p, (ast.IfExp, ast.BoolOp)) and not (isinstance(p, ast.IfExp) and x is p.test):
            x, p = p, p._parent
        if isinstance(p, ast.Assign) and p.value is x:
            out = []
            for t in p.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    if "_cpp" in shown(t):
                        continue        # converted by the binding
                    st = list(self.setters(t.attr, f.cls)) if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) else []
                    if st:
                        for g in st:
                            a = g.node.args.args
                            if len(a) > 1:
                                out += self.param(g, a[1].arg, depth + 1)
                        continue
                    if replaced_later(f, p, t):
                        continue
                    out.append((f.where(p), "kept in %s" % shown(t)))
            return out
        if isinstance(p, ast.Attribute) and p.value is x:
            if isinstance(p._parent, ast.Call) and p._parent.func is p and p.attr in MUTATORS:
                return [(f.where(p), "changed by .%s()" % p.attr)]
            return []
        if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, (ast.Store, ast.Del)):
            return [(f.where(p), "changed by an assignment to an entry")]
        if isinstance(p, ast.Return):
            return [(f.where(p), "handed out as the result")]
        if isinstance(p, (ast.List, ast.Tuple, ast.Dict, ast.Set)) and not isinstance(p._parent, (ast.Compare, ast.For, ast.comprehension)):
            g = p
            while isinstance(g, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
                g = g._parent
            if isinstance(g, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in g.targets):
                return [(f.where(p), "kept in %s" % shown(g.targets[0]))]
            return []
        if isinstance(p, ast.keyword):
            call = p._parent
            return self.passed(f, call, None, p.arg, depth)
        if isinstance(p, ast.Call) and x in p.args:
            return self.passed(f, p, p.args.index(x), None, depth)
        return []

    def passed(self, f, call, pos, kw, depth):
        fn = call.func
        name = fn.id if isinstance(fn, ast.Name) else (fn.attr if isinstance(fn, ast.Attribute) else "")
        if isinstance(fn, ast.Attribute) and name in ("append", "insert", "add", "setdefault", "appendleft"):
            if isinstance(fn.value, ast.Attribute):
                return [(f.where(call), "kept in %s" % shown(fn.value))]
            return []
        if name == "setattr":
            return [(f.where(call), "kept by setattr")]
        if name in FRESH and not list(self.defs(name)):
            return []
        out = []
        for g in self.defs(name):
            a = g.node.args
            ps = [y.arg for y in a.posonlyargs + a.args]
            method = g.cls is not None and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in g.node.decorator_list)
            if kw is not None:
                if kw in ps or kw in [y.arg for y in a.kwonlyargs]:
                    out += self.param(g, kw, depth + 1)
            else:
                i = pos + (1 if method else 0)
                if i < len(ps):
                    out += self.param(g, ps[i], depth + 1)
        return out


def replaced_later(f, st, t):
    """the statements after st replace the place t by a fresh object on every path"""
    blk = getattr(st, "_parent", None)
    for field in ("body", "orelse", "finalbody"):
        b = getattr(blk, field, None)
        if isinstance(b, list) and any(x is st for x in b):
            i = next(k for k, x in enumerate(b) if x is st)
            return any(replaces(x, shown(t)) for x in b[i + 1:])
    return False


def replaces(x, t):
    if isinstance(x, ast.Assign):
        if any(shown(y) == t for y in x.targets):
            v = x.value
            return mutable(v) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in FRESH or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "deepcopy")
        return False
    if isinstance(x, ast.If) and x.orelse:
        return any(replaces(y, t) for y in x.body) and any(replaces(y, t) for y in x.orelse)
    return False


def rebound_before(f, n):
    """the name is assigned something that is not itself at the top level of the function before this use"""
    for st in f.node.body:
        if st.lineno >= n.lineno and not (isinstance(st, ast.Assign)):
            return False
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets):
            if st.lineno < n.lineno and not (isinstance(st.value, ast.Name) or isinstance(st.value, (ast.IfExp, ast.BoolOp))):
                return not (st.lineno <= n.lineno <= (st.end_lineno or st.lineno))
        if st.lineno > n.lineno:
            return False
    return False


@rule("P22", "R1", "a mutable default argument is neither kept, handed out nor changed")
def r1(c):
    esc = Escape()
    m = n_ = 0
    for mm in mods():
        for f in mm.funcs:
            m += 1
            a = f.node.args
            ps = a.posonlyargs + a.args
            pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for p, d in pairs:
                if not mutable(d):
                    continue
                n_ += 1
                leaks = esc.param(f, p.arg)
                if leaks:
                    for w, what in leaks[:3]:
                        c.ob(False, f.where(), "the default %s=%s is one object for all calls and is %s at %s" % (p.arg, shown(d), what, w), "%s|%s|%s" % (mm.rel, f.qual, p.arg))
                else:
                    c.ob(True, f.where(), "default %s=%s is only read or copied" % (p.arg, shown(d)), "%s|%s|%s" % (mm.rel, f.qual, p.arg))
    c.floor(m, 300, "functions of the package")
    c.floor(n_, 1, "mutable defaults")


def bound_in_init(m, cls, attr):
    for f in m.funcs:
        if f.cls == cls and f.node.name in ("__init__", "__new__"):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    return True
    return False


def plain_call(v):
    return isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id in ("float", "int", "str", "tuple", "frozenset", "bool", "namedtuple", "TypeVar", "property", "len", "max", "min", "sum", "round", "abs", "range"))


def other_class(m, n, cn, an):
    """the attribute belongs to an object of another class that has its own attribute of this name"""
    f = m.owner(n)
    if f is None or f.cls is None or f.cls == cn or not isinstance(n.value, ast.Name):
        return False
    tops = [g for g in m.funcs if g.cls == f.cls and g.qual.count(".") == 1 and g.node.args.args]
    return any(g.node.args.args[0].arg == n.value.id for g in tops) and binds_anywhere(m, f.cls, an)


def binds_anywhere(m, cls, an):
    return any(isinstance(x, ast.Attribute) and x.attr == an and isinstance(x.ctx, ast.Store) for g in m.funcs if g.cls == cls for x in ast.walk(g.node))


def is_dataclass(cls):
    return any("dataclass" in shown(d) for d in cls.decorator_list)


@rule("P22", "R2", "classes hold no data that objects change")
def r2(c):
    n_ = 0
    attrs = {}
    for m in mods():
        for cn, cls in m.classes.items():
            for st in cls.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        if isinstance(t, ast.Name):
                            n_ += 1
                            v = st.value
                            if isinstance(v, ast.Call) and shown(v.func).split(".")[-1] == "field":
                                continue
                            attrs[(cn, t.id)] = (m, st, mutable(v) or plain_call(v))
    for (cn, an), (m, st, mut) in attrs.items():
        hits = []
        if mut and not bound_in_init(m, cn, an):
            for mm in mods():
                for n in ast.walk(mm.tree):
                    if isinstance(n, ast.Attribute) and n.attr == an and other_class(mm, n, cn, an):
                        continue
                    if isinstance(n, ast.Attribute) and n.attr == an and changes(n):
                        hits.append(mm.where(n))
                    elif isinstance(n, ast.Attribute) and n.attr == an and isinstance(n.ctx, ast.Load) and handed_out(n):
                        hits.append(mm.where(n))
        if mut and is_dataclass(m.classes[cn]):
            hits = hits or []
        c.ob(not hits, m.where(st), "%s.%s %s" % (cn, an, "is shared by all objects of the class and changed at %s" % ", ".join(hits[:3]) if hits else "is never changed through objects"), "%s|%s.%s" % (m.rel, cn, an))
    # assignments to classes, modules and functions at run time
    classes = {cn for m in mods() for cn in m.classes}
    k = 0
    for m in mods():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                k += 1
                f = m.owner(n)
                if f is None:
                    continue
                b = n.value
                what = None
                if isinstance(b, ast.Name) and not is_local(m, b) and (b.id in classes or own_import(m, b.id) or b.id in {g.node.name for g in m.funcs if "." not in g.qual}):
                    what = b.id
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                    what = shown(b)
                elif isinstance(b, ast.Attribute) and b.attr == "__class__":
                    what = shown(b)
                elif isinstance(b, ast.Name) and b.id == "cls" and f.node.args.args and f.node.args.args[0].arg == "cls":
                    what = "cls"
                if what:
                    # inside of __new__ or a class method, 'cls'
                    c.ob(False, m.where(n), "%s.%s, common to all worlds, is set at run time" % (what, n.attr), "%s|%s|%s.%s" % (m.rel, f.qual, what, n.attr))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
                b = n.args[0]
                if isinstance(b, ast.Name) and not is_local(m, b) and (b.id in classes or own_import(m, b.id)) and m.owner(n) is not None:
                    c.ob(False, m.where(n), "%s, common to all worlds, is changed at run time" % b.id, "%s|setattr|%s" % (m.rel, b.id))
    c.ob(True, "uxsim", "%d assignments to attributes examined" % k, "scan")
    c.floor(k, 800, "attribute assignments")


def own_import(m, name):
    d = m.imports.get(name)
    return d is not None and (d.startswith(".") or d.split(".")[0] == "uxsim")


def is_local(m, b):
    f = m.owner(b)
    while f is not None:
        a = f.node.args
        ns = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        if b.id in ns:
            return True
        gl = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
        if b.id not in gl:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == b.id and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, (ast.Import, ast.ImportFrom)) and any((x.asname or x.name.split(".")[0]) == b.id for x in n.names) and False:
                    return True
        f = m.owner(f.node._parent) if getattr(f.node, "_parent", None) is not None else None
    return False


def changes(n):
    """the container denoted by n is changed here"""
    p = n._parent
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "next" and p.args and p.args[0] is n:
        return True
    if isinstance(p, ast.Attribute) and p.attr in MUTATORS and isinstance(p._parent, ast.Call) and p._parent.func is p:
        return True
    if isinstance(p, ast.Subscript) and p.value is n:
        q = p
        while isinstance(q, ast.Subscript):
            if isinstance(q.ctx, (ast.Store, ast.Del)):
                return True
            r = q._parent
            if isinstance(r, ast.Attribute) and r.attr in MUTATORS and isinstance(r._parent, ast.Call):
                return True
            q = r
        return False
    if isinstance(p, ast.AugAssign) and p.target is n:
        return True
    return False


def handed_out(n):
    p = n._parent
    return isinstance(p, ast.Assign) and p.value is n and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in p.targets)


@rule("P22", "R3", "module variables carry nothing from one world to another")
def r3(c):
    n_ = 0
    for m in mods():
        glob_names = {}
        for st in m.tree.body:
            for t, v in targets(st):
                glob_names[t] = (st, v)
        for name, (st, v) in glob_names.items():
            n_ += 1
            hits = []
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and m.owner(n) is not None and not is_local(m, n):
                    if (mutable(v) or plain_call(v)) and changes(n):
                        hits.append(m.where(n))
            for f in m.funcs:
                gl = {x for n in own_nodes(f) if isinstance(n, ast.Global) for x in n.names}
                if name not in gl:
                    continue
                for n in own_nodes(f):
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                        hits.append(m.where(n))
                    elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                        if depends(m, f, n.value, name, n):
                            hits.append(m.where(n))
            c.ob(not hits, m.where(st), "module variable %s %s" % (name, "is changed at %s, with data of a call or of a world" % ", ".join(hits[:3]) if hits else "holds nothing that depends on worlds"), "%s|%s" % (m.rel, name))
        # variables of other modules
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and m.owner(n) is not None and n.id in m.imports and not is_local(m, n):
                other = source(m, n.id)
                if other is not None and (mutable(other) or isinstance(other, ast.Call)) and changes(n):
                    c.ob(False, m.where(n), "module variable %s is changed" % n.id, "%s|imported %s" % (m.rel, n.id))
    c.floor(n_, 3, "module variables")


def source(m, name):
    d = m.imports[name]
    last = d.split(".")[-1]
    for o in mods():
        if o.rel.split("/")[-1][:-3] == d.split(".")[-2] if "." in d.strip(".") and len(d.split(".")) > 1 else False:
            for st in o.tree.body:
                for t, v in targets(st):
                    if t == last:
                        return v
    return None


def targets(st):
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                yield t.id, st.value
    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
        yield st.target.id, st.value


def own_nodes(f):
    return ast.walk(f.node)


def guards_of(n, top):
    out = []
    while n is not top and n is not None:
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.If):
            pos = any(n is x for x in p.body)
            out.append((shown(p.test), pos or False))
            if not pos and n is p.test:
                out.pop()
        n = p
    return out


def contradicts(g1, g2):
    for t, v in g1:
        for u, w in g2:
            if t == u and v != w:
                return True
            if v and w and t.replace(" is not None", " is None") == u.replace(" is not None", " is None") and t != u and "None" in t:
                return True
    return False


def depends(m, f, e, name, at, depth=0):
    """the value depends on an argument (or attributes of one), or on the previous value of the variable"""
    if depth > 5:
        return True
    params = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs}
    ga = guards_of(at, f.node)
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id == name:
                return True
            if n.id in params:
                return True
            for st in ast.walk(f.node):
                if isinstance(st, ast.Assign) and st is not at and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets):
                    if contradicts(guards_of(st, f.node), ga):
                        continue
                    if st.lineno < at.lineno and depends(m, f, st.value, name, st, depth + 1):
                        return True
    return False


@rule("P22", "R4", "no function remembers results for data of a world")
def r4(c):
    n_ = 0
    for m in mods():
        for f in m.funcs:
            n_ += 1
            for d in f.node.decorator_list:
                t = shown(d)
                if t.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "memoize"):
                    params = {x.arg for x in f.node.args.args}
                    uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in params]
                    c.ob(not uses, f.where(), "results are remembered for all worlds%s" % (" although they are computed from attributes of %s" % uses[0].value.id if uses else ", computed from plain values"), "%s|%s" % (m.rel, f.qual))
            # attributes of functions used as storage
    c.ob(True, "uxsim", "%d functions examined" % n_, "scan")
    c.floor(n_, 300, "functions of the package")


@rule("P22", "R5", "one object is not repeated as the entry of several places")
def r5(c):
    k = 0
    for m in mods():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                k += 1
                for a in (n.left, n.right):
                    if isinstance(a, ast.List) and any(mutable(x) for x in a.elts):
                        c.ob(False, m.where(n), "%s repeats one and the same object" % shown(n), "%s|%s" % (m.rel, shown(n)))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "fromkeys" and len(n.args) > 1:
                k += 1
                c.ob(not mutable(n.args[1]), m.where(n), "%s" % shown(n), "%s|%s" % (m.rel, shown(n)))
    c.ob(True, "uxsim", "%d expressions examined" % k, "scan")


@rule("P22", "R6", "copying and saving a world uses a complete, independent copy")
def r6(c):
    m = pyraw.mod("uxsim/uxsim.py")
    w = [f for f in m.funcs if f.qual == "World.copy"]
    c.floor(len(w), 1, "World.copy")
    f = w[0]
    for r in [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]:
        ok = deep(m, f, r.value)
        c.ob(ok, f.where(r), "the copy %s" % ("is built from a complete serialisation" if ok else "may share objects with the original: %s" % shown(r.value) if ok is False else "is made by %s" % shown(r.value)), "World.copy")
    for mm in mods():
        for cn, cls in mm.classes.items():
            for g in mm.funcs:
                if g.cls == cn and g.node.name in ("__deepcopy__", "__copy__", "__getstate__", "__setstate__", "__reduce__", "__reduce_ex__"):
                    kept = [x for x in ast.walk(g.node) if isinstance(x, ast.Return)]
                    bad = g.node.name in ("__deepcopy__",) and any(isinstance(x.value, ast.Name) and x.value.id in ("self", "s", "W") for x in kept)
                    c.ob(False if bad else (True if g.node.name in ("__copy__",) else None), g.where(), "%s.%s %s" % (cn, g.node.name, "returns the original" if bad else "changes how worlds are copied"), "%s|%s.%s" % (mm.rel, cn, g.node.name))


def deep(m, f, e, d=0):
    if e is None:
        return False
    if isinstance(e, ast.Name):
        if f.node.args.args and e.id == f.node.args.args[0].arg:
            return False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and d < 4:
                return deep(m, f, n.value, d + 1)
        return None
    if isinstance(e, ast.Call):
        n = m.dotted(e.func) or shown(e.func)
        l = n.split(".")[-1]
        if l == "deepcopy":
            return True
        if l in ("loads", "load") and e.args:
            return has_call(m, f, e.args[0], "dumps") or None
        if l == "copy" or l == "__new__":
            return False
    return None


def has_call(m, f, e, name, d=0):
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and shown(n.func).split(".")[-1] == name:
            return True
        if isinstance(n, ast.Name) and d < 3:
            for st in ast.walk(f.node):
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets) and has_call(m, f, st.value, name, d + 1):
                    return True
    return False


@rule("P22", "R7", "the C++ engine keeps no data outside of its worlds")
def r7(c):
    n_ = 0
    for u in X.units():
        for i, d in u.byid.items():
            if d.get("kind") != "VarDecl":
                continue
            g = i in u.globals
            if not g and d.get("storageClass") != "static":
                continue
            w = where_decl(u, d)
            if w is None:
                continue
            n_ += 1
            t = X.qt(d)
            const = t.startswith("const ") or d.get("constexpr") or t.endswith("const")
            if const and not t.endswith("*"):
                c.ob(True, w, "%s is constant" % d.get("name"), "static|%s" % d.get("name"))
                continue
            if d.get("tls"):
                bad = [x for x in tls_reads(u, i)]
                c.ob(not bad, w, "thread-local %s %s" % (d.get("name"), "is read at %s with what was left there" % bad[0] if bad else "is reset before each use"), "static|%s" % d.get("name"))
                continue
            wr = writes(u, i)
            c.ob(not wr, w, "static %s %s" % (d.get("name"), "is changed at %s and common to all worlds" % ", ".join(wr[:3]) if wr else "is never changed"), "static|%s" % d.get("name"))
    fl = 0
    for u in X.units():
        fl += len(list(u.all()))
    c.ob(True, "uxsim/trafficpp", "%d functions and %d static variables of the engine examined" % (fl, n_), "scan")
    c.floor(fl, 60, "functions of the C++ engine")


def where_decl(u, d):
    f = d.get("_file") or u.path
    p = os.path.join(P.REPO, "uxsim", "trafficpp")
    lf = d.get("loc", {}).get("file") or ""
    if lf and "uxsim" not in lf and not lf.startswith(p):
        return None
    return "%s:%s" % (X.short(f), X.line(d))


def fn_nodes(u):
    for fn in u.all():
        for rt in X.roots(fn):
            yield fn, rt


def tls_reads(u, i):
    for fn, rt in fn_nodes(u):
        seen = False
        for x in p11.order(rt):
            if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("id") == i and not seen:
                seen = True
                p = p11.g_parent(fn, x)
                if p is not None and p.get("kind") == "VarDecl":
                    # a reference: its first use counts
                    for y in p11.order(rt):
                        if y.get("kind") == "DeclRefExpr" and y.get("referencedDecl", {}).get("id") == p.get("id"):
                            if not p11.resets(fn, y):
                                yield fn.where(y)
                            break
                    continue
                if not p11.resets(fn, x):
                    yield fn.where(x)


def writes(u, i):
    out = []
    for fn, rt in fn_nodes(u):
        if p11.written(rt, i, {}):
            out.append(fn.where())
    return out
