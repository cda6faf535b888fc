"""Decision of choice terms over finite models.

A term that selects from a container by filters, emptiness tests and set operations only depends on which *kinds* of
elements (with respect to the predicates it uses) are present: monadic logic has the finite model property. The terms
derived from the source are therefore compared with the reference on every combination of present kinds.
"""
import bisect
import math
from fractions import Fraction
from .val import V, mk
from . import val as V_

X = mk("p", "$x")


def _avg(c):
    if not c:
        raise Raises("average of nothing")
    return Fraction(sum(c)) / len(c)


def _fdiv(a, b):
    if b == 0:
        raise Raises("division by zero")
    return Fraction(a // b)


MATH = {
    "int": lambda x: Fraction(int(x)), "floor": lambda x: Fraction(math.floor(x)), "math.floor": lambda x: Fraction(math.floor(x)), "np.floor": lambda x: Fraction(math.floor(x)), "float": lambda x: float(x) if x in ("inf", "-inf") else x, "math.ceil": lambda x: Fraction(math.ceil(x)), "ceil": lambda x: Fraction(math.ceil(x)),
    "abs": abs, "np.clip": lambda x, a, b: min(max(x, a), b), "std::clamp": lambda x, a, b: min(max(x, a), b), "clamp": lambda x, a, b: min(max(x, a), b), "fdiv": _fdiv, "np.average": _avg, "np.mean": _avg, "statistics.mean": _avg,
    "bisect.bisect_right": lambda c, x: Fraction(bisect.bisect_right(c, x)), "bisect.bisect": lambda c, x: Fraction(bisect.bisect_right(c, x)), "bisect.bisect_left": lambda c, x: Fraction(bisect.bisect_left(c, x)),
    "bisect_right": lambda c, x: Fraction(bisect.bisect_right(c, x)), "bisect_left": lambda c, x: Fraction(bisect.bisect_left(c, x)), "round": lambda x: Fraction(round(x)),
    "fmod": lambda x, y: x - y * int(x / y) if y else _fdiv(x, y), "std::fmod": lambda x, y: x - y * int(x / y) if y else _fdiv(x, y), "math.fmod": lambda x, y: x - y * int(x / y) if y else _fdiv(x, y), "std::floor": lambda x: Fraction(math.floor(x)), "std::ceil": lambda x: Fraction(math.ceil(x)), "np.ceil": lambda x: Fraction(math.ceil(x)), "fabs": abs, "std::fabs": abs,
}


_free = {}


def free(v):
    """terms an environment can bind: elements, loop variables, recurrence and lambda parameters"""
    r = _free.get(v)
    if r is None:
        r = _free[v] = frozenset(x for x in V_.walk(v) if x.kind in ("elem", "lv", "rho", "p"))
    return r


class Undecided(Exception):
    pass


class Raises(Exception):
    """the code raises an error in this model (e.g. choice from nothing)"""


class Model:
    def __init__(self, containers, preds, bools, order=None, methods=None, attrs=False, wrap=True, recs=None, listeq=False):
        self.listeq = listeq    # lists are compared as a whole, not elementwise
        self.recs = recs or {}          # recurrences of the loops (looprec of a run)
        self.methods = methods or {}
        self.attrs = attrs
        self.wrap = wrap        # negative positions count from the end
        self.containers = containers    # term -> list of items
        self.preds = preds              # [(term over $x, fn(item))]
        self.bools = bools              # term -> value
        self.pm = {t: f for t, f in preds}
        self.memo = {}

    def ev(self, v, env=None):
        env = env or {}
        on = tuple(x for x in free(v) if x in env) if env else ()
        if not on:
            if v in self.memo:
                return self.memo[v]
            r = self._ev(v, env)
            self.memo[v] = r
            return r
        key = (v, tuple((x, id(env[x])) for x in on))
        hit = self.memo.get(key)
        if hit is None:
            hit = self.memo[key] = (self._ev(v, env), [env[x] for x in on])     # the values stay alive with their ids
        return hit[0]

    def pattern(self, v, env):
        if not env or not self.pm:
            return None
        for el, item in reversed(list(env.items())):
            if not V_.contains_v(v, lambda y: y is el):
                continue
            t = V_.subst(v, lambda y: X if y is el else None)
            f = self.pm.get(t)
            if f is not None:
                return (f(item),)
            f = self.pm.get(V_.not_(t)) if V_.is_bool(t) else None
            if f is not None:
                return (not f(item),)
        return None

    def _ev(self, v, env):
        if v in env:
            return env[v]
        if v in self.containers:
            return list(self.containers[v])
        if v in self.bools:
            return self.bools[v]
        k = v.kind
        if k == "c":
            return v.a[0]
        p = self.pattern(v, env)
        if p is not None:
            return p[0]
        if k == "ite":
            return self.ev(v.a[1], env) if self.truth(self.ev(v.a[0], env)) else self.ev(v.a[2], env)
        if k == "not":
            n = self.ev(v.a[0], env)
            if isinstance(n, list) and v.a[0].kind in ("le", "lt", "eqz"):
                return [Fraction(not x) for x in n]
            return not self.truth(n)
        if k in ("and", "or"):
            und = None
            for x in v.a[0]:
                try:
                    t = self.truth(self.ev(x, env))
                except (Undecided, Raises) as ex:     # operands are not ordered: another one may decide
                    und = ex if und is None or isinstance(und, Raises) else und
                    continue
                if t != (k == "and"):
                    return t
            if und is not None:
                raise und
            return k == "and"
        if k == "truthy":
            return self.truth(self.ev(v.a[0], env))
        if k in ("le", "lt", "eqz"):
            if k == "eqz" and v.a[0].kind == "poly":
                # comparison of objects is by identity
                ms = v.a[0].a[0]
                if len(ms) == 2 and sorted(c for _, c in ms) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m, _ in ms):
                    try:
                        xs = [self.ev(m[0][0], env) for m, _ in ms]
                        if self.listeq and all(isinstance(x, list) for x in xs):
                            return xs[0] == xs[1]
                        if any(x is None or isinstance(x, (dict, str)) for x in xs):
                            return xs[0] is xs[1] or (isinstance(xs[0], str) and xs[0] == xs[1])
                    except (Undecided, Raises):
                        pass
                # an object never equals a number
                for m, _ in v.a[0].a[0]:
                    if len(m) == 1 and m[0][1] == 1:
                        try:
                            if isinstance(self.ev(m[0][0], env), dict):
                                return False
                        except (Undecided, Raises):
                            pass
            n = self.ev(v.a[0], env)
            cmp = (lambda x: Fraction(x <= 0)) if k == "le" else (lambda x: Fraction(x < 0)) if k == "lt" else (lambda x: Fraction(x == 0))
            if isinstance(n, list):     # elementwise, as arrays do
                return [cmp(x) for x in n]
            if not isinstance(n, (Fraction, int, float)):
                raise Undecided(V_.show(v)[:200])
            return bool(cmp(n))
        if k == "eq":
            a, b = self.ev(v.a[0], env), self.ev(v.a[1], env)
            return a == b
        if k == "poly":
            tot = None
            for m, c in v.a[0]:
                t = c
                for a, e in m:
                    x = self.ev(a, env)
                    if e < 0 and x == 0:
                        raise Raises("division by zero")
                    t = self.bc(t, x, lambda p, q: p * q if e == 1 else p * Fraction(q) ** e)
                tot = t if tot is None else self.bc(tot, t, lambda p, q: p + q)
            return tot
        if k in ("fdiv", "mod"):
            a, b = self.ev(v.a[0], env), self.ev(v.a[1], env)
            if b == 0:
                raise Raises("division by zero")
            return Fraction(a // b) if k == "fdiv" else a - b * (a // b)
        if k in ("min", "max"):
            xs = [self.ev(x, env) for x in v.a]
            return min(xs) if k == "min" else max(xs)
        if k == "in":
            x, c = self.ev(v.a[0], env), self.ev(v.a[1], env)
            return x in c
        if k == "nonempty":
            return bool(self.ev(v.a[0], env))
        if k == "comp":
            kind, e, it, cnd = v.a
            return [self.ev(e, en) for en in self.iters(it, (e, cnd), env) if self.truth(self.ev(cnd, en))]
        if k == "sum":
            e, it = v.a[0], v.a[1]
            tot = 0
            for en in self.iters(it, (e,), env):
                tot += self.ev(e, en)
            return tot
        if k == "search":
            val, cnd, it, dflt = v.a
            for en in self.iters(it, (val, cnd), env):
                if self.truth(self.ev(cnd, en)):
                    return self.ev(val, en)
            return self.ev(dflt, env)
        if k == "any":
            return any(self.truth(self.ev(v.a[0], en)) for en in self.iters(v.a[1], (v.a[0],), env))
        if k in ("minover", "maxover"):
            return (min if k == "minover" else max)(self.ev(v.a[0], en) for en in self.iters(v.a[1], (v.a[0],), env))
        if k in ("list", "tuple", "set"):
            return [self.ev(x, env) for x in v.a[0]]
        if k == "keyset":
            c, i = self.ev(v.a[0], env), self.ev(v.a[1], env)
            c = dict(c) if isinstance(c, dict) else list(c)
            try:
                c[i if isinstance(c, dict) else int(i)] = self.ev(v.a[2], env)
            except IndexError:
                raise Raises("index")
            return c
        if k in ("appended",):
            return self.ev(v.a[0], env) + [self.ev(v.a[1], env)]
        if k in ("concat", "grown", "extended"):
            return self.ev(v.a[0], env) + self.ev(v.a[1], env)
        if k == "range":
            return [Fraction(x) for x in range(*[int(self.ev(x, env)) for x in v.a])]
        if k == "values":
            c = self.ev(v.a[0], env)
            return list(c.values()) if isinstance(c, dict) else c
        if k == "rnd":
            raise Undecided("draw")
        if k == "rec":
            init, step, it, brk = v.a[:4]
            cur = self.ev(init, env)
            if not isinstance(it, V):
                raise Undecided("loop")
            bodies = (step, brk) + tuple(v.a[4:5])
            rho = [x for y in bodies for x in V_.walk(y) if x.kind == "rho"]
            for en in self.iters(it, bodies, env):
                for r in rho:
                    en[r] = cur
                if brk is not V_.FALSE and self.truth(self.ev(brk, en)):
                    return self.ev(v.a[4], en) if len(v.a) > 4 else cur
                cur = self.ev(step, en)
            return cur
        if k == "i":
            c = v.a[0]
            if c.kind == "call" and c.a[0] in ("max", "min") and len(c.a[1]) == 1:
                return self.ev(c, env)[int(V_.num(v.a[1]))]
            if v.a[1].kind == "slice":
                c = self.ev(c, env)
                b = [None if x is None or x.kind == "none" or x is V_.NONE else self.ev(x, env) for x in v.a[1].a]
                if not isinstance(c, list) or any(x is not None and not isinstance(x, (Fraction, int)) for x in b):
                    raise Undecided("slice")
                return c[slice(*[x if x is None else int(x) for x in b])]
            c, i = self.ev(c, env), self.ev(v.a[1], env)
            if isinstance(c, dict):
                return c[i]
            if i != int(i) or (i < 0 and not self.wrap):
                raise Raises("index")
            try:
                return c[int(i)]
            except (IndexError, TypeError):
                raise Raises("index")
        if k == "call":
            return self.call(v, env)
        if k == "mcall" and v.a[1] in self.methods:
            return self.methods[v.a[1]](self.ev(v.a[0], env) if v.a[0] is not None else None, *[self.ev(x, env) for x in v.a[2]])
        if k == "a" and self.attrs:
            b = self.ev(v.a[0], env)
            if isinstance(b, dict) and v.a[1] in b:
                return b[v.a[1]]
            if b is None or isinstance(b, Fraction):
                raise Raises("attribute of %s" % (b,))
            raise Undecided(V_.show(v)[:200])
        if k == "mcall" and v.a[1] in ("values", "copy", "keys") and not v.a[2]:
            return self.ev(v.a[0], env)
        if k == "mcall" and v.a[1] == "sum" and not v.a[2]:
            return sum(self.ev(v.a[0], env))
        if k == "mcall" and v.a[1] == "index" and len(v.a[2]) == 1:
            return Fraction(self.ev(v.a[0], env).index(self.ev(v.a[2][0], env)))
        raise Undecided(V_.show(v)[:200])

    def call(self, v, env):
        n, args, kw = v.a[0], v.a[1], v.a[2]
        if n in self.methods:
            return self.methods[n](None, *[self.ev(x, env) for x in args])
        if n in ("list", "tuple", "np.array", "set", "sorted", "iter", "reversed") and args:
            c = self.ev(args[0], env)
            if not isinstance(c, list):
                raise Undecided(n)
            if n == "set":
                return list(dict.fromkeys(c))
            return list(c)
        if n in ("list", "set", "tuple"):
            return []
        if n == "setand":
            a, b = self.ev(args[0], env), self.ev(args[1], env)
            return [x for x in a if x in b]
        if n == "setsub":
            a, b = self.ev(args[0], env), self.ev(args[1], env)
            return [x for x in a if x not in b]
        if n == "len":
            c = self.ev(args[0], env)
            if not isinstance(c, list):
                raise Undecided("len")
            return Fraction(len(c))
        if n == "sum" and len(args) == 1:
            return sum(self.ev(args[0], env))
        if n == "range":
            return [Fraction(x) for x in range(*[int(self.ev(x, env)) for x in args])]
        if n == "@sized" and args:
            return [self.ev(args[1], env) if len(args) > 1 else Fraction(0)] * int(self.ev(args[0], env))
        if n in ("any", "all"):
            return (any if n == "any" else all)(self.truth(x) for x in self.ev(args[0], env))
        if n == "zip":
            return [list(t) for t in zip(*[self.ev(a, env) for a in args])]
        if n in ("max", "min") and len(args) == 1:
            c = self.ev(args[0], env)
            if not c:
                raise Raises("empty")
            key = dict(kw).get("key")
            ks = []
            for x in c:
                if key is None:
                    ks.append(x if not isinstance(x, list) else tuple(x))
                elif key.kind == "lam":
                    ks.append(self.lam(key, x, env))
                else:
                    raise Undecided("key")
            b = max(ks) if n == "max" else min(ks)
            return c[ks.index(b)]
        f = MATH.get(n)
        if f is not None:
            return f(*[self.ev(a, env) for a in args])
        if n in ("max", "min"):
            return (max if n == "max" else min)([self.ev(a, env) for a in args])
        if n in ("np.argmax", "argmax"):
            c = self.ev(args[0], env)
            if not c:
                raise Raises("empty")
            return Fraction(c.index(max(c)))
        raise Undecided(V_.show(v)[:200])

    def carried(self, bodies, it, env, lid=None):
        """{loop variable: (initial value, step, break condition)} of the loop variables the bodies depend on"""
        el = mk("elem", it)
        al = mk("elem", it.a[1].a[1][0]) if it.kind == "range" and len(it.a) == 2 and it.a[1].kind == "call" and it.a[1].a[0] == "len" else el
        out, todo = {}, list(bodies)
        while todo:
            b = todo.pop()
            for x in V_.walk(b):
                if x.kind == "lv" and x not in env and x not in out:
                    if lid is not None and (lid, x) not in self.recs:
                        continue
                    cand = [w for (l, lv), w in self.recs.items() if lv is x and (lid is None or l == lid)]
                    own = [w for w in cand if any(V_.contains_v(z, lambda y: y is el or y is al) for z in w[1:])]
                    if not cand:
                        raise Undecided(V_.show(x))
                    w = (own or cand)[-1]
                    out[x] = w
                    todo += [w[1], w[2]]
        return out

    def play(self, events, env=None, depth=0, brks=None):
        """the events of a run as they happen in this model: (event, environment); only loop variables carry state"""
        env = env or {}
        i = 0
        while i < len(events):
            e = events[i]
            if len(e.lids) <= depth:
                if all(self.truth(self.ev(g, env)) for g in e.g):
                    yield e, env
                i += 1
                continue
            lid = e.lids[depth]
            j = i
            while j < len(events) and len(events[j].lids) > depth and events[j].lids[depth] == lid:
                j += 1
            group = events[i:j]
            brk = (brks or {}).get(lid, V_.FALSE)
            bodies = [x for y in group for x in list(y.g) + list(y.args or ()) + [y.value, y.loc] if isinstance(x, V)] + [brk]
            for en in self.iters(e.loops[depth], bodies, env, lid):
                yield from self.play(group, en, depth + 1, brks)
                if brk is not V_.FALSE and self.truth(self.ev(brk, en)):
                    break
            i = j

    def slot(self, it, env, lid, bodies):
        """the element term of a loop, which may be inside of another loop over the same collection"""
        el = mk("elem", it)
        n = 0
        while el in env:
            n += 1
            el = mk("elem", it, n)
        if n and lid is None and not any(V_.contains_v(b, lambda y: y is el) for b in bodies):
            return mk("elem", it)
        return el

    def iters(self, it, bodies, env, lid=None):
        """one environment per iteration: the element and the values of the loop variables at its start"""
        if not isinstance(it, V):
            raise Undecided("loop")
        el = self.slot(it, env, lid, bodies)
        lvs = self.carried(bodies, it, env, lid)
        if it.kind == "call" and it.a[0] in ("enumerate", "zip") and all(isinstance(x, V) for x in it.a[1]):
            cols = [(x, self.ev(x, env)) for x in it.a[1][:1 if it.a[0] == "enumerate" else None]]
            n = min(len(c) for _, c in cols)      # as far as the shortest
            cols = [(self.slot(x, env, lid, bodies), x, c) for x, c in cols]
            depth = cols[0][0].a[1] if len(cols[0][0].a) > 1 else 0
            idx = {x for b in list(bodies) + [z for w in lvs.values() for z in w[1:]] for x in V_.walk(b) if x.kind == "elem" and (x.a[1] if len(x.a) > 1 else 0) == depth and x.a[0].kind == "range" and x.a[0].a[0] is V_.ZERO and x.a[0].a[1].kind == "call" and x.a[0].a[1].a[0] == "len"}
            cur = {x: self.ev(w[0], env) for x, w in lvs.items()}
            for i in range(n):
                en = dict(env)
                en.update(cur)
                for x, _, c in cols:
                    en[x] = c[i]
                for x in idx:
                    if any(x.a[0].a[1].a[1][0] is y for _, y, _ in cols):
                        en[x] = Fraction(i)
                yield en
                if cur:
                    if any(self.truth(self.ev(w[2], en)) for w in lvs.values()):
                        return
                    cur = {y: self.ev(w[1], en) for y, w in lvs.items()}
            return
        if it.kind == "items":
            c = self.ev(it.a[0], env)
            if not isinstance(c, dict):
                raise Undecided("items")
            cols = (list(c.keys()), list(c.values()))
            cur = {x: self.ev(w[0], env) for x, w in lvs.items()}
            ks, vs = self.slot(it.a[0], env, lid, bodies), self.slot(mk("values", it.a[0]), env, lid, bodies)
            for x, y in zip(*cols):
                en = dict(env)
                en.update(cur)
                en[ks] = x
                en[vs] = y
                yield en
                if cur:
                    if any(self.truth(self.ev(w[2], en)) for w in lvs.values()):
                        return
                    cur = {y: self.ev(w[1], en) for y, w in lvs.items()}
            return
        cur = {x: self.ev(w[0], env) for x, w in lvs.items()}
        alias = None
        if it.kind == "range" and len(it.a) == 2 and it.a[1].kind == "call" and it.a[1].a[0] == "len":
            alias = it.a[1].a[1][0]
        for x in list(self.ev(it, env)):
            en = dict(env)
            en.update(cur)
            en[el] = x
            if alias is not None:
                en[mk("elem", alias) if len(el.a) == 1 else mk("elem", alias, el.a[1])] = self.ev(alias, env)[int(x)]
            yield en
            if cur:
                if any(self.truth(self.ev(w[2], en)) for w in lvs.values()):
                    return
                cur = {y: self.ev(w[1], en) for y, w in lvs.items()}

    def lam(self, f, x, env):
        body = f.a[1]
        ps = [y for y in V_.walk(body) if y.kind == "p" and str(y.a[0]).startswith("λ")]
        en = dict(env)
        for p in ps:
            en[p] = x
        return self.ev(body, en)

    def truth(self, x):
        return bool(x)

    def bc(self, a, b, f):
        if isinstance(a, list) and isinstance(b, list):
            return [f(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [f(x, b) for x in a]
        if isinstance(b, list):
            return [f(a, y) for y in b]
        return f(a, b)
