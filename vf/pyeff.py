"""Effect summaries of Python functions: which attributes of objects reachable from the parameters are changed.

Tags: (i, first, last, deep, shell)  parameter i, first and last attribute of the access path, whether the path has
more than one attribute, and whether the value is a fresh container holding such objects.  An empty set is a fresh value.
"""
import ast
from . import pyraw

MUT = {"append", "extend", "insert", "pop", "popleft", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "fill", "itemset", "put", "resize", "partition", "appendleft", "extendleft", "rotate", "popitem", "__setitem__", "__delitem__", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end"}
COPY = {"list", "sorted", "tuple", "set", "dict", "frozenset", "array", "copy", "deque", "OrderedDict", "enumerate", "zip", "reversed", "iter", "filter", "map", "items", "values", "keys", "concatenate", "defaultdict", "ddict", "chain", "fromkeys"}
VIEW = {"asarray", "asanyarray", "ravel", "reshape", "view", "squeeze", "transpose", "atleast_1d", "atleast_2d"}
ELEM = {"min", "max", "next", "choice", "get", "pop", "popleft", "setdefault", "getattr", "popitem"}
STRING = {"join", "format", "split", "strip", "replace", "startswith", "endswith", "lower", "upper", "read", "write", "close", "tolist", "astype", "mean", "sum", "std"}
INPLACE1 = {"shuffle", "heappush", "heappop", "heapify", "heapreplace", "copyto", "fill_diagonal", "put", "place", "putmask", "at"}


def nosh(t):
    return (t[0], t[1], t[2], t[3], False)


def sh(t):
    return (t[0], t[1], t[2], t[3], True)


def ext(t, a):
    if t[1] is None:
        return (t[0], a, a, False, False)
    return (t[0], t[1], a, True, False)


def comp(arg, t):
    """callee tag t relative to the argument tag arg"""
    if t[1] is None:
        return (arg[0], arg[1], arg[2], arg[3], arg[4] or t[4])
    if arg[1] is None:
        return (arg[0], t[1], t[2], t[3], t[4])
    return (arg[0], arg[1], t[2], True, t[4])


class Sum:
    def __init__(self):
        self.mut = {}       # tag -> (fn, node)
        self.ret = set()
        self.fields = {}


class Effects:
    def __init__(self, rels):
        self.mods = [pyraw.mod(r) for r in rels]
        self.fns = [f for m in self.mods for f in m.funcs]
        self.by = {}
        self.classes = {}
        self.byqual = {}
        for f in self.fns:
            self.by.setdefault(f.node.name, []).append(f)
            self.byqual.setdefault((f.mod.rel, f.qual), f)
            if f.cls:
                self.classes.setdefault(f.cls, {})[f.node.name] = f
        self.sum = {id(f): Sum() for f in self.fns}
        self.fields = {}    # (cls, attr) -> tags relative to self, from stores
        self.calls = {id(f): set() for f in self.fns}
        self.props = {f.node.name for f in self.fns if any(getattr(d, "id", getattr(d, "attr", "")) in ("property", "cached_property") for d in f.node.decorator_list)}
        self.unres = 0
        for _ in range(6):
            before = self.size()
            for f in self.fns:
                Fun(self, f).run()
            if self.size() == before:
                break

    def size(self):
        return sum(len(s.mut) + len(s.ret) for s in self.sum.values()) + sum(len(v) for v in self.fields.values())

    def fn(self, cls, name):
        return self.classes.get(cls, {}).get(name)


class Fun:
    def __init__(self, E, f):
        self.E = E
        self.f = f
        self.S = E.sum[id(f)]
        self.env = {}
        a = f.node.args
        self.params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        for i, p in enumerate(self.params):
            self.env[p] = {(i, None, None, False, False)}
        k = len(self.params)
        if a.vararg:
            self.env[a.vararg.arg] = {(k, None, None, False, True)}
        if a.kwarg:
            self.env[a.kwarg.arg] = {(k + 1, None, None, False, True)}
        self.outer = {}
        p = getattr(f.node, "_parent", None)

    def run(self):
        self.every = {k: set(v) for k, v in self.env.items()}   # all bindings of a name anywhere in the function
        self.nested = []
        self.weak = 0
        self.block(self.f.node.body)
        self.weak = 1
        self.env = self.every       # nested functions see any binding
        for st in self.nested:
            self.block(st.body)

    def block(self, b):
        for st in b:
            self.stmt(st)

    def fork(self, *bodies):
        """alternatives: each from the present environment, joined afterwards"""
        if self.weak:
            for b in bodies:
                self.block(b)
            return
        pre = self.env
        outs = []
        for b in bodies:
            self.env = {k: set(v) for k, v in pre.items()}
            self.block(b)
            outs.append(self.env)
        self.env = outs[0]
        for o in outs[1:]:
            for k, v in o.items():
                self.env.setdefault(k, set()).update(v)

    def loop(self, st, head):
        for _ in range(3):
            pre = {k: set(v) for k, v in self.env.items()}
            head()
            self.fork(st.body, [])
            for k, v in pre.items():
                self.env.setdefault(k, set()).update(v)
            if self.env == pre:
                break
        self.block(st.orelse)

    # effects
    def mutate(self, tags, n, attr=None):
        for t in tags:
            if attr is not None:
                t = ext(t, attr)
            elif t[4]:
                continue
            self.S.mut.setdefault(nosh(t), (self.f, n))

    def bind(self, t, tags):
        if isinstance(t, ast.Name):
            if self.weak:
                self.env.setdefault(t.id, set()).update(tags)
            else:
                self.env[t.id] = set(tags)
                self.every.setdefault(t.id, set()).update(tags)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, {nosh(x) for x in tags})
        elif isinstance(t, ast.Starred):
            self.bind(t.value, tags)
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value)
            self.mutate(b, t, t.attr)
            if self.f.cls and any(x[0] == 0 and x[1] is None for x in b):
                self.E.fields.setdefault((self.f.cls, t.attr), set()).update(x for x in tags if x[0] == 0 and x[1] not in (None, t.attr))
            if t.attr in self.setters():
                pass
        elif isinstance(t, ast.Subscript):
            self.mutate(self.ex(t.value), t)
            self.ex(t.slice)
            if isinstance(t.value, ast.Name):
                self.env.setdefault(t.value.id, set()).update(sh(x) for x in tags)

    def setters(self):
        return ()

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ex(st.value)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        self.bind(a, self.ex(b))
                else:
                    self.bind(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ex(st.value))
        elif isinstance(st, ast.AugAssign):
            v = self.ex(st.value)
            if isinstance(st.target, ast.Name):
                # only containers are changed in place: names bound to an attribute or a slice of one
                cur = set()
                for n in ast.walk(self.f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == st.target.id for t in n.targets):
                        val = n.value
                        if isinstance(val, ast.Subscript) and isinstance(val.slice, ast.Slice):
                            val = val.value
                        if isinstance(val, ast.Attribute):
                            cur |= self.ex(val)
                for t in cur:
                    if not t[4] and t[2] is not None and t[2] in self.conts():
                        self.S.mut.setdefault(nosh(t), (self.f, st))
                self.env.setdefault(st.target.id, set()).update(v if isinstance(st.op, ast.Add) else ())
            else:
                self.bind(st.target, v)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ex(t.value), t)
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ex(t.value), t, t.attr)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.loop(st, lambda: self.bind(st.target, {nosh(x) for x in self.ex(st.iter)}))
        elif isinstance(st, ast.While):
            self.loop(st, lambda: self.ex(st.test))
        elif isinstance(st, ast.If):
            self.ex(st.test)
            self.fork(st.body, st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            for s in st.body:
                self.stmt(s)
        elif isinstance(st, ast.Try):
            self.fork(*[[s] for s in st.body], [])
            self.fork(st.body + st.orelse, *[h.body for h in st.handlers])
            self.block(st.finalbody)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if self.weak:
                self.block(st.body)
            else:
                self.nested.append(st)      # same environment, parameters stay unknown
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.S.ret |= self.ex(st.value)
        elif isinstance(st, ast.Expr):
            self.ex(st.value)
        elif isinstance(st, ast.Assert):
            self.ex(st.test)
        elif isinstance(st, ast.Raise) and st.exc is not None:
            self.ex(st.exc)
        elif isinstance(st, ast.Match):
            self.ex(st.subject)
            self.fork(*[cs.body for cs in st.cases], [])

    def conts(self):
        E = self.E
        if not hasattr(E, "_conts"):
            s = set()
            for m in E.mods:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                        s.add(n.value.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and isinstance(n.func.value, ast.Attribute):
                        s.add(n.func.value.attr)
            E._conts = s
        return E._conts

    def arrays(self):
        """attributes holding numpy arrays: asarray, ravel and slices of them are views"""
        E = self.E
        if not hasattr(E, "_arrays"):
            s = set()
            for m in E.mods:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and getattr(n.value.func.value, "id", "") in ("np", "numpy"):
                        s |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
                        s |= {t.value.attr for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute)}
            E._arrays = s
        return E._arrays

    def views(self, tags):
        return {nosh(t) if t[2] in self.arrays() and not t[4] else sh(t) for t in tags}

    # expressions
    def ex(self, e):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m:
            return m(e)
        out = set()
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ex(ch)
        return out

    def x_Name(self, e):
        return set(self.env.get(e.id, ()))

    def x_Constant(self, e):
        return set()

    def x_Attribute(self, e):
        b = self.ex(e.value)
        out = {ext(t, e.attr) for t in b}
        if self.f.cls:
            for t in b:
                if t[0] == 0 and t[1] is None:
                    out |= self.E.fields.get((self.f.cls, e.attr), set())
        if e.attr in self.E.props and b:
            for g in self.E.by.get(e.attr, ()):
                if any(getattr(d, "id", "") == "property" for d in g.node.decorator_list):
                    out |= self.apply(g, [b], {}, e)
        return out

    def x_Subscript(self, e):
        b = self.ex(e.value)
        self.ex(e.slice)
        if isinstance(e.slice, ast.Slice):
            return self.views(b)
        return {nosh(t) for t in b}

    def x_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ex(x)
        return set()

    def x_Starred(self, e):
        return self.ex(e.value)

    def x_List(self, e):
        return {sh(t) for x in e.elts for t in self.ex(x)}

    x_Tuple = x_Set = x_List

    def x_Dict(self, e):
        out = set()
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.ex(k)
            out |= {sh(t) for t in self.ex(v)}
        return out

    def comp(self, e, *els):
        for g in e.generators:
            self.bind(g.target, {nosh(t) for t in self.ex(g.iter)})
            for i in g.ifs:
                self.ex(i)
        out = set()
        for x in els:
            out |= {sh(t) for t in self.ex(x)}
        return out

    def x_ListComp(self, e):
        return self.comp(e, e.elt)

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        return self.comp(e, e.key, e.value)

    def x_IfExp(self, e):
        self.ex(e.test)
        return self.ex(e.body) | self.ex(e.orelse)

    def x_BoolOp(self, e):
        out = set()
        for v in e.values:
            out |= self.ex(v)
        return out

    def x_BinOp(self, e):
        out = self.ex(e.left) | self.ex(e.right)
        return {sh(t) for t in out} if isinstance(e.op, ast.Add) else set()

    def x_Lambda(self, e):
        self.ex(e.body)
        return set()

    def x_NamedExpr(self, e):
        v = self.ex(e.value)
        self.bind(e.target, v)
        return v

    def x_Yield(self, e):
        if e.value is not None:
            self.S.ret |= {sh(t) for t in self.ex(e.value)}
        return set()

    def x_Call(self, e):
        args = [self.ex(a) for a in e.args]
        kws = {k.arg: self.ex(k.value) for k in e.keywords}
        for k in e.keywords:
            if k.arg == "out":
                self.mutate(kws["out"], e)
        allt = set().union(*args, *kws.values()) if args or kws else set()
        fnc = e.func
        if isinstance(fnc, ast.Name):
            n = fnc.id
            if n == "setattr" and len(e.args) >= 2:
                a = e.args[1].value if isinstance(e.args[1], ast.Constant) else "?"
                self.mutate(args[0], e, a)
                return set()
            if n == "getattr" and len(e.args) >= 2:
                a = e.args[1].value if isinstance(e.args[1], ast.Constant) else "?"
                return {ext(t, a) for t in args[0]}
            if n == "delattr" and len(e.args) >= 2:
                self.mutate(args[0], e, "?")
                return set()
            if n in ("deepcopy",):
                return set()
            g = self.named(n)
            if g is not None:
                return self.apply(g, args, kws, e)
            if n in self.E.classes:
                g = self.E.classes[n].get("__init__")
                if g is not None:
                    self.apply(g, [set()] + args, kws, e)
                return set()
            if n in COPY:
                return {sh(t) for t in allt}
            if n in ELEM:
                return {nosh(t) for t in allt}
            if n in INPLACE1 and args:
                self.mutate(args[0], e)
            return set()
        if isinstance(fnc, ast.Attribute):
            n = fnc.attr
            b = self.ex(fnc.value)
            if n == "deepcopy":
                return set()
            d = self.f.mod.dotted(fnc) if hasattr(self.f.mod, "dotted") else None
            if n in INPLACE1:
                if n == "at" and args:
                    self.mutate(args[0], e)
                elif n != "put" and args:
                    self.mutate(args[0], e)
            gen = {t for t in b if t[2] in ("rng", "random_state")}
            if gen:
                self.mutate({nosh(t) for t in gen}, e)
                return {nosh(t) for t in allt}
            cands = self.methods(fnc, b)
            out = set()
            for g in cands:
                st = any(getattr(x, "id", "") in ("staticmethod",) for x in g.node.decorator_list) or g.cls is None
                out |= self.apply(g, args if st else [b] + args, kws, e)
            if n in MUT:
                self.mutate({t for t in b if t[2] is not None}, e)
                if isinstance(fnc.value, ast.Name):
                    self.env.setdefault(fnc.value.id, set()).update(sh(t) for t in allt)
                if n not in ELEM:
                    return out
            if n in STRING:
                return out
            if n in VIEW:
                return out | self.views(b | allt)
            if n in COPY:
                return out | {sh(t) for t in b | (allt if not b else set())}
            if n in ELEM:
                return out | {nosh(t) for t in b | allt}
            return out
        self.ex(fnc)
        return set()

    def named(self, n):
        for g in self.E.by.get(n, ()):
            if g.cls is None and g.mod is self.f.mod and "." not in g.qual:
                return g
        b = self.f.mod.imports.get(n) if hasattr(self.f.mod, "imports") else None
        if b:
            for g in self.E.by.get(n, ()):
                if g.cls is None and "." not in g.qual:
                    return g
        if getattr(self.f.mod, "star", None):
            for g in self.E.by.get(n, ()):
                if g.cls is None and "." not in g.qual:
                    return g
        return None

    def methods(self, fnc, b):
        n = fnc.attr
        v = fnc.value
        if isinstance(v, ast.Name) and v.id == (self.params[0] if self.params else None) and self.f.cls and n in self.E.classes.get(self.f.cls, {}):
            return [self.E.classes[self.f.cls][n]]
        c = [g for g in self.E.by.get(n, ()) if g.cls]
        if not b and (n in MUT or n in COPY or n in VIEW or n in ELEM or n in STRING):
            return []
        if isinstance(v, ast.Attribute) and v.attr in ("analyzer",) or isinstance(v, ast.Name) and v.id in ("analyzer",):
            c = [g for g in c if "nalyzer" in g.cls]
        if isinstance(v, ast.Name) and v.id in ("np", "numpy", "plt", "pd", "os", "math", "random", "time", "copy", "csv", "Image", "ImageDraw", "ImageFont", "json", "pickle", "warnings"):
            return [g for g in self.E.by.get(n, ()) if g.cls is None and False]
        return c

    def apply(self, g, args, kws, n):
        E = self.E
        E.calls[id(self.f)].add(id(g))
        S = E.sum[id(g)]
        a = g.node.args
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        npos = len(a.posonlyargs + a.args)
        val = {}
        for i, v in enumerate(args):
            val.setdefault(i if i < npos else len(ps), set()).update(v)
        for k, v in kws.items():
            val.setdefault(ps.index(k) if k in ps else len(ps) + 1, set()).update(v)
        for t, at in list(S.mut.items()):
            for x in val.get(t[0], ()):
                if t[1] is None and x[4]:
                    continue
                if t[1] is None and x[1] is None and x[0] is None:
                    continue
                self.S.mut.setdefault(nosh(comp(x, t)), at)
        out = set()
        for t in S.ret:
            for x in val.get(t[0], ()):
                out.add(comp(x, t))
        return out
