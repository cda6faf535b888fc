"""Models in which the containers a function makes or changes are live objects.

`final` plays the events derived from a function (guards, values, recurrences of its loops) on a model: within a stretch of
events without an inner loop all terms refer to the state at its start, then the changes take effect in order. Containers made in
the function are told apart by the name they are stored under (run(..., alloc=True)).
"""
from fractions import Fraction as F
from .setmodel import Undecided, Raises
from .bridge import BModel, Obj, conv, lit
from .val import V, mk
from . import val as V_


class Mat(dict):
    """array with a shape; missing cells are zero"""
    __hash__ = object.__hash__

    def __init__(self, shape, cells=()):
        dict.__init__(self, cells)
        self.shape = tuple(int(x) for x in shape)

    def key(self, k):
        k = tuple(int(x) for x in (k if isinstance(k, (tuple, list)) else (k,)))
        if len(k) != len(self.shape):
            raise Undecided("index of an array")
        k = tuple(x + n if x < 0 else x for x, n in zip(k, self.shape))
        if any(not 0 <= x < n for x, n in zip(k, self.shape)):
            raise Raises("index outside of the array")
        return k

    def cells(self):
        import itertools
        return {k: self.get(k, F(0)) for k in itertools.product(*[range(n) for n in self.shape])}

    def __eq__(self, o):
        return isinstance(o, Mat) and self.shape == o.shape and self.cells() == o.cells()

    def __ne__(self, o):
        return not self == o


class DD(dict):
    __hash__ = object.__hash__

    def __init__(self, make):
        self.make = make

    def __missing__(self, k):
        self[k] = self.make()
        return self[k]


class Arr(list):
    """one-dimensional array"""
    __hash__ = object.__hash__


class Tab(tuple):
    """("table", names of the columns, rows)"""
    __slots__ = ()

    def column(self, n):
        if self[1] is None or n not in self[1]:
            raise Raises("no column %s" % (n,))
        return Arr([r[self[1].index(n)] for r in self[2]])


def std(c):
    if not c:
        return float("nan")
    a = F(sum(c)) / len(c)
    return round(float(sum((x - a) ** 2 for x in c) / len(c)) ** 0.5, 9)


def _mean(c):
    return F(sum(c)) / len(c) if c else float("nan")


RED = {"sum": lambda c: F(sum(c)), "mean": _mean, "std": std, "max": lambda c: max(c), "min": lambda c: min(c), "any": lambda c: any(c), "all": lambda c: all(c)}


def _scalar(f, p, q):
    try:
        return f(p, q)
    except ZeroDivisionError:
        return float("nan") if p == 0 else float("inf") if p > 0 else float("-inf")


class LModel(BModel):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.live = {}
        self.target = False
        self.tokens = 0
        self.allocs = {}
        self.effects = {}       # called function -> what a call does
        self.applied = {}       # contents after a change that has been made -> the container

    def ev(self, v, env=None):
        return self._ev(v, env or {})

    def _ev(self, v, env):
        k = v.kind
        if v in env:
            return env[v]
        if v in self.bools:
            return self.bools[v]
        if k in ("inserted", "appended", "grown", "concat", "extended", "keyset") and self.target:      # the changed container itself
            return self.ev(v.a[0], env)
        if v in self.applied:
            return self.applied[v]
        if k == "keyset":
            c, i = self.ev(v.a[0], env), self.ev(v.a[1], env)
            if isinstance(c, dict):
                c = Mat(c.shape, c) if isinstance(c, Mat) else dict(c)
                c[c.key(i) if isinstance(c, Mat) else tuple(i) if isinstance(i, list) else i] = self.ev(v.a[2], env)
                return c
        if k == "inserted":
            c = list(self.ev(v.a[0], env))
            c.insert(int(self.ev(v.a[1], env)), self.ev(v.a[2], env))
            return c
        if k == "new":
            ds = set(self.allocs.get(v.a[0], ()))
            if len(ds) != 1:
                raise Undecided("container made in several places")
            d = ds.pop()
            key = (v, env.get("#%d" % d) if d else None)     # one object per iteration of the loop it is made in
            if key not in self.live:
                self.live[key] = self.ev(v.a[1], env)
            return self.live[key]
        if k == "call":
            n, args, kw = v.a[0], v.a[1], dict(v.a[2]) if v.a[2] else {}
            if n in ("np.zeros", "np.ones", "np.full"):
                sh = self.ev(args[0], env)
                m = Mat(sh if isinstance(sh, list) else [sh])
                if n != "np.zeros":
                    x = F(1) if n == "np.ones" else self.ev(args[1], env)
                    for c in m.cells():
                        m[c] = x
                return m
            if n in ("ddict", "defaultdict") and len(args) == 1:
                f = args[0]
                if f.kind == "lam":
                    return DD(lambda: self.ev(f.a[1], env))
                raise Undecided(V_.show(v)[:80])
            if n == "frozenset" and len(args) == 1:
                return frozenset(self.ev(args[0], env))
            if n in ("setand", "bitand", "bitor") and len(args) == 2:
                x, y = self.ev(args[0], env), self.ev(args[1], env)
                if isinstance(x, Arr) and isinstance(y, Arr):
                    return Arr([F(bool(p and q) if n != "bitor" else bool(p or q)) for p, q in zip(x, y)])
                if n != "setand":
                    raise Undecided(n)
            if n in ("np.array", "np.asarray") and args:
                x = self.ev(args[0], env)
                if isinstance(x, list) and not any(isinstance(y, (list, tuple, Mat)) for y in x):
                    return Arr(x)
                if isinstance(x, Mat):
                    return Mat(x.shape, x)
                raise Undecided(n)
            if n in ("hypot", "math.hypot", "np.hypot") and len(args) == 2:
                x, y = self.ev(args[0], env), self.ev(args[1], env)
                return round(float(x * x + y * y) ** 0.5, 9)
            if n in ("np.sqrt", "math.sqrt", "sqrt") and len(args) == 1:
                x = self.ev(args[0], env)
                f = lambda y: round(float(y) ** 0.5, 9) if y >= 0 else float("nan")
                return Arr([f(y) for y in x]) if isinstance(x, list) else f(x)
            if n in ("np.std", "np.average", "np.mean", "np.max", "np.min", "np.any", "np.all") and len(args) == 1:
                x = self.ev(args[0], env)
                return RED["mean" if n == "np.average" else n[3:]](list(x.cells().values()) if isinstance(x, Mat) else list(x))
            if n == "np.nan_to_num":
                x = self.ev(args[0], env)
                r = self.ev(kw["nan"], env) if "nan" in kw else F(0)
                f = lambda y: r if isinstance(y, float) and y != y else y
                return Mat(x.shape, {c: f(y) for c, y in x.cells().items()}) if isinstance(x, Mat) else f(x)
            if n == "np.sum" and len(args) == 1 or n == "sum" and len(args) == 1:
                x = self.ev(args[0], env)
                return sum(x.cells().values()) if isinstance(x, Mat) else sum(x)
            if n == "pd.DataFrame":
                rows = self.ev(args[0], env)
                cols = self.ev(kw["columns"], env) if "columns" in kw else None
                if isinstance(rows, dict):
                    if len({len(x) for x in rows.values()}) != 1:
                        raise Raises("columns of different lengths")
                    return Tab(("table", tuple(rows), tuple(zip(*rows.values()))))
                return Tab(("table", tuple(cols) if cols is not None else None, tuple(tuple(x) for x in rows)))
            if n == "len" and len(args) == 1:
                x = self.ev(args[0], env)
                return F(x.shape[0] if isinstance(x, Mat) else len(x))
        if k == "mcall" and v.a[1] in ("isin", "unique", "to_numpy", "tolist"):
            x = self.ev(v.a[0], env)
            if not isinstance(x, Arr):
                raise Undecided(v.a[1])
            if v.a[1] == "isin":
                c = self.ev(v.a[2][0], env)
                return Arr([F(y in c) for y in x])
            return Arr(dict.fromkeys(x)) if v.a[1] == "unique" else x
        if k == "values" or k == "a" and v.a[1] == "values":
            x = self.ev(v.a[0], env)
            if isinstance(x, Arr):
                return x
        if k == "mcall" and v.a[1] in RED and not v.a[2]:
            x = self.ev(v.a[0], env)
            return RED[v.a[1]](list(x.cells().values()) if isinstance(x, Mat) else list(x))
        if k == "sum" and v.a[0] is mk("elem", v.a[1]):
            x = self.ev(v.a[1], env)
            if isinstance(x, Mat):
                return sum(x.cells().values())
        if k == "mcall" and v.a[1] == "reshape":
            raise Undecided("reshape")
        if k == "a" and v.a[0].kind in ("g", "p") and v.a[0].a[0] in ("np", "math", "numpy") and v.a[1] in ("inf", "nan"):
            return float(v.a[1])
        if k == "eqz" and v.a[0].kind == "poly" and len(v.a[0].a[0]) == 2 and sorted(c for _, c in v.a[0].a[0]) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m, _ in v.a[0].a[0]):
            a, b = [self.ev(m[0][0], env) for m, _ in v.a[0].a[0]]
            if isinstance(a, Arr) != isinstance(b, Arr):
                return Arr([F(x == b) for x in a] if isinstance(a, Arr) else [F(x == a) for x in b])
        if k == "isinst" and V_.show(v.a[1])[:1].isupper():
            x = self.ev(v.a[0], env)
            if x is None or isinstance(x, (str, F)):
                return False
        if k in ("and", "or"):
            try:
                xs = [self.ev(v.a[0][0], env)]
            except (Undecided, Raises):
                xs = []
            if xs and isinstance(xs[0], Arr):
                xs += [self.ev(x, env) for x in v.a[0][1:]]
                if any(not isinstance(x, Arr) or len(x) != len(xs[0]) for x in xs):
                    raise Undecided("comparison of arrays")
                return Arr([F((all if k == "and" else any)(y)) for y in zip(*xs)])
        if k == "fstr":
            out = ""
            for x in v.a[0]:
                if isinstance(x, str):
                    out += x
                    continue
                y = self.ev(x, env)
                if isinstance(y, F) and y.denominator == 1:
                    y = int(y)
                if not isinstance(y, (str, int)):
                    raise Undecided("text")
                out += str(y)
            return out
        if k in ("eqz", "le", "lt"):
            at = [v.a[0]] if v.a[0].kind != "poly" else [m[0][0] for m, _ in v.a[0].a[0] if len(m) == 1 and m[0][1] == 1]
            if len(at) == 1 and (v.a[0].kind != "poly" or sum(1 for m, _ in v.a[0].a[0] if m) == 1):
                x = self.ev(at[0], env)
                if x is None or isinstance(x, (str, Obj)):
                    if k == "eqz":
                        return False
                    raise Raises("comparison of %s with a number" % (x if x is None else "an object",))
            x = super()._ev(v, env)
            return Arr(x) if isinstance(x, list) else x
        if k == "a" and v.a[1] == "shape":
            x = self.ev(v.a[0], env)
            if isinstance(x, Mat):
                return [F(n) for n in x.shape]
        if k == "i":
            c = self.ev(v.a[0], env)
            if isinstance(c, Mat):
                ix = v.a[1]
                if ix.kind == "tuple" and any(x.kind == "slice" for x in ix.a[0]):
                    sel = [None if x.kind == "slice" and all(y is None or y.kind == "none" or y is V_.NONE for y in x.a) else self.ev(x, env) for x in ix.a[0]]
                    if len(sel) != 2 or sum(x is None for x in sel) != 1 or any(x.kind == "slice" and s_ is not None for x, s_ in zip(ix.a[0], sel)):
                        raise Undecided("part of an array")
                    if sel[0] is not None:
                        return [c.get(c.key((sel[0], j)), F(0)) for j in range(c.shape[1])]
                    return [c.get(c.key((i, sel[1])), F(0)) for i in range(c.shape[0])]
                if ix.kind == "slice":
                    raise Undecided("part of an array")
                i = self.ev(ix, env)
                if len(c.shape) == 2 and not isinstance(i, (list, tuple)):
                    return [c.get(c.key((i, j)), F(0)) for j in range(c.shape[1])]
                return c.get(c.key(i), F(0))
            if isinstance(c, Tab):
                i = self.ev(v.a[1], env)
                if isinstance(i, str):
                    return c.column(i)
                if isinstance(i, Arr) and len(i) == len(c[2]) and all(x in (0, 1) for x in i):
                    return Tab(("table", c[1], tuple(r for r, y in zip(c[2], i) if y)))
                raise Undecided("part of a table")
            if isinstance(c, list) and v.a[1].kind != "slice":
                i = self.ev(v.a[1], env)
                if isinstance(c, Arr) and isinstance(i, Arr) and len(c) == len(i) and all(x in (0, 1) for x in i):
                    return Arr([x for x, y in zip(c, i) if y])
                if not isinstance(i, (F, int)) or i != int(i):
                    raise Undecided("index")
                try:
                    return c[int(i)]
                except IndexError:
                    raise Raises("index")
            if isinstance(c, (dict, tuple)) and not isinstance(c, Obj):
                i = self.ev(v.a[1], env)
                try:
                    return c[tuple(i) if isinstance(i, list) else i] if isinstance(c, dict) else c[int(i)]
                except (KeyError, IndexError):
                    raise Raises("no such key")
        if k == "eq":
            a, b = self.ev(v.a[0], env), self.ev(v.a[1], env)
            if isinstance(a, Arr) != isinstance(b, Arr):
                return Arr([F(x == b) for x in a] if isinstance(a, Arr) else [F(x == a) for x in b])
            return a is b if isinstance(a, Obj) or isinstance(b, Obj) else a == b
        if k == "poly":
            tot = None
            for m, c in v.a[0]:
                t = c
                for a, e in m:
                    x = self.ev(a, env)
                    if not isinstance(x, Mat) and e < 0 and x == 0:
                        raise Raises("division by zero")
                    t = self.bc(t, x, lambda p, q: p * q if e == 1 else p * F(q) ** e)
                tot = t if tot is None else self.bc(tot, t, lambda p, q: p + q)
            return tot
        return super()._ev(v, env)

    def bc(self, a, b, f):
        if isinstance(a, Mat) or isinstance(b, Mat):
            sh = (a if isinstance(a, Mat) else b).shape
            x = a.cells() if isinstance(a, Mat) else None
            y = b.cells() if isinstance(b, Mat) else None
            if x is not None and y is not None and a.shape != b.shape:
                raise Raises("arrays of different shapes")
            return Mat(sh, {c: _scalar(f, x[c] if x is not None else a, y[c] if y is not None else b) for c in (x if x is not None else y)})
        r = super().bc(a, b, f)
        return Arr(r) if isinstance(a, Arr) or isinstance(b, Arr) else r


def model(r, s, W, args=None, methods=None):
    W.setdefault("__class__", ("World",))
    for f, x in (("DELTAT", 5), ("DELTAN", 5), ("TIME", 50), ("T", 10), ("TMAX", 100), ("TSIZE", 20), ("EULAR_DT", 20), ("REACTION_TIME", 1)):
        W.setdefault(f, F(x))
    s.setdefault("W", W)
    bools = {mk("p", "self"): s, mk("p", "W"): W}
    for n, d in r.func.params:
        if n not in ("self", "s", "W"):
            bools[mk("p", n)] = args[n] if n in (args or {}) else (None if d is None else conv(lit(d)))
    m = LModel({}, [], bools, methods=methods or {}, attrs=True, recs=r.ev.looprec, listeq=True)
    m.allocs = getattr(r.ev, "allocdepth", {})
    m.ret = None
    return m


def final(r, m):
    """play the events of the run on the model; returns what the function returns"""
    known = {}
    _block(m, [e for e in r.events if e.kind in ("set", "mut", "call", "raise")], {}, 0, r.ev.loopbrk, known)
    if any(e.kind == "return" and e.loops for e in r.events):
        return m.ev(r.r.ret, {})
    for st, v in r.r.returns:
        try:
            if all(known[g] if g in known else m.truth(m.ev(g, {})) for g in st.g):
                return m.ev(v, {}) if isinstance(v, V) else None
        except (Undecided, Raises):
            continue
    return None


def _block(m, evs, env, depth, brks, known):
    i = 0
    while i < len(evs):
        e = evs[i]
        if len(e.lids) <= depth:
            todo = []
            for x in evs[i:]:
                if len(x.lids) > depth:
                    break
                m.applied.pop(x.value, None)
            while i < len(evs) and len(evs[i].lids) <= depth:
                e = evs[i]
                on = True
                for g in e.g:       # a condition holds or not when it is first reached
                    if g not in known:
                        try:
                            known[g] = m.truth(m.ev(g, env))
                        except (Undecided, Raises):
                            if (e.kind in ("set", "mut", "raise") or e.kind == "call" and effect(m, e)) and on:
                                raise
                            on = False
                            break
                    if not known[g]:
                        on = False
                        break
                if on and e.kind == "raise":
                    raise Raises("error raised")
                if on and e.kind == "call" and effect(m, e):
                    todo.append((e, m.ev(e.recv, env) if isinstance(e.recv, V) else None, [m.ev(x, env) for x in e.args], None))
                if on and e.kind in ("set", "mut"):
                    v = m.ev(e.value, env) if e.kind == "set" else None
                    a = [m.ev(x, env) for x in e.args] if e.kind == "mut" else None
                    k = m.ev(e.loc.a[1], env) if e.kind == "set" and e.loc.kind == "i" else None
                    todo.append((e, v, a, k))
                i += 1
            for e, v, a, k in todo:
                apply(m, e, v, a, k, env)
            continue
        lid = e.lids[depth]
        j = i
        while j < len(evs) and len(evs[j].lids) > depth and evs[j].lids[depth] == lid:
            j += 1
        group = evs[i:j]
        if not any(e.kind in ("set", "mut", "raise") or e.kind == "call" and effect(m, e) for e in group):
            i = j
            continue
        brk = brks.get(lid, V_.FALSE)
        bodies = [x for y in group for x in list(y.g) + list(y.args or ()) + [y.value, y.loc] if isinstance(x, V)] + [brk]
        for en in m.iters(e.loops[depth], bodies, env, lid):
            m.tokens += 1
            en["#%d" % (depth + 1)] = m.tokens
            for x in group:
                m.applied.pop(x.value, None)
            first = None if brk is V_.FALSE else leaves(m, brk, en)
            kn = dict(known)
            _block(m, group, en, depth + 1, brks, kn)
            if brk is not V_.FALSE:
                last = leaves(m, brk, en)
                if first is not last:      # the condition was asked for at some point in between
                    last = kn[brk] if brk in kn else not kn[V_.not_(brk)] if V_.not_(brk) in kn else None
                if last is None:
                    raise Undecided("end of a loop")
                if last:
                    break
        i = j


def effect(m, e):
    return m.effects.get(str(e.name).split(".")[-1]) if e.name else None


def leaves(m, brk, env):
    try:
        return m.truth(m.ev(brk, env))
    except (Undecided, Raises):
        return None


def apply(m, e, v, a, k, env):
    if e.kind == "call":
        effect(m, e)(m, v, *a)
        return
    if e.kind == "set":
        if e.loc.kind == "a":
            o = m.ev(e.loc.a[0], env)
            if not isinstance(o, Obj):
                raise Undecided(V_.show(e.loc)[:80])
            o[e.loc.a[1]] = v
            return
        if e.loc.kind == "i":
            c = m.ev(e.loc.a[0], env)
            if isinstance(c, Mat):
                c[c.key(k)] = v
            elif isinstance(c, dict) and not isinstance(c, Obj):
                c[tuple(k) if isinstance(k, list) else k] = v
            elif isinstance(c, list) and isinstance(k, (F, int)):
                try:
                    c[int(k)] = v
                except IndexError:
                    raise Raises("index")
            else:
                raise Undecided(V_.show(e.loc)[:80])
            return
        raise Undecided(V_.show(e.loc)[:80])
    m.target = True
    try:
        c = m.ev(e.loc, env)
    finally:
        m.target = False
    if not isinstance(c, list):
        raise Undecided("%s of %s" % (e.name, V_.show(e.loc)[:60]))
    if isinstance(e.value, V) and e.value.kind in ("inserted", "appended", "extended"):
        m.applied[e.value] = c
    if e.name == "append":
        c.append(a[0])
    elif e.name == "insert":
        c.insert(int(a[0]), a[1])
    elif e.name == "extend":
        c.extend(a[0])
    elif e.name in ("poplast", "pop", "popleft") and not a:
        if not c:
            raise Raises("nothing to take")
        c.pop(0 if e.name == "popleft" else -1)
    elif e.name == "pop" and len(a) == 1 and isinstance(a[0], (F, int)) and -len(c) <= a[0] < len(c):
        c.pop(int(a[0]))
    elif e.name == "remove" and len(a) == 1:
        for i, x in enumerate(c):
            if x is a[0] or not isinstance(x, Obj) and x == a[0]:
                del c[i]
                break
        else:
            raise Raises("not in the list")
    elif e.name == "clear":
        c.clear()
    else:
        raise Undecided(e.name)
