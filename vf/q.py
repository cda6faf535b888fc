"""Queries over analysis results, shared by all rules."""
from . import val as V_
from . import dom, project as P
from .val import V, mk, const, NONE, TRUE, FALSE, ZERO, ONE
from .evalr import Evaluator, root, field_of, base_of, St, Frame, CHAIN
from .pyfront import expr as py_expr
from .ir import Func, stmts_walk, stmt_exprs, expr_walk, all_exprs
import ast

# Python name -> C++ name of the same model quantity
CPP = {
    "W": "w", "w": "backward_wave_speed", "T": "timestep", "TIME": "time", "DELTAT": "delta_t", "DELTAN": "delta_n", "TSIZE": "total_timesteps", "TMAX": "t_max", "DELTAT_ROUTE": "timestep_for_route_update",
    "u": "vmax", "cum_arrival": "arrival_curve", "cum_departure": "departure_curve", "inlinks": "in_links", "outlinks": "out_links", "signal": "signal_intervals",
    "link_arrival_time": "arrival_time_link", "VEHICLES": "vehicles", "VEHICLES_LIVING": "vehicles_living", "VEHICLES_RUNNING": "vehicles_running", "LINKS": "links", "NODES": "nodes",
    "links_prefer": "links_preferred", "route_pref": "route_preference", "REACTION_TIME": "tau", "traveltime_instant": "traveltime_instant", "traveltime_actual": "traveltime_real_events",
    "route_choice_penalty": "route_choice_penalty",
}
STATES = {"home": "vsHOME", "wait": "vsWAIT", "run": "vsRUN", "end": "vsEND", "abort": "vsABORT"}


def proj(lang):
    return {"py": P.py_main, "cpp": P.cpp_main, "wrap": P.py_wrap}[lang]()


class R:
    def __init__(self, lang, qual, func, res, pr):
        self.lang = lang
        self.qual = qual
        self.func = func
        self.r = res
        self.pr = pr
        self.events = res.events

    def nm(self, f):
        return CPP.get(f, f) if self.lang == "cpp" else f

    def st(self, s):
        """vehicle state constant"""
        return const(STATES[s]) if self.lang == "cpp" else const(s)

    def sets(self, field, pred=None):
        f = self.nm(field)
        return [e for e in self.events if e.kind == "set" and field_of(e.loc) == f and (pred is None or pred(e))]

    def fsets(self, field):
        """assignments to the field itself (not to one of its elements)"""
        f = self.nm(field)
        return [e for e in self.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == f]

    def isets(self, field):
        f = self.nm(field)
        return [e for e in self.events if e.kind == "set" and e.loc.kind == "i" and field_of(e.loc) == f]

    def muts(self, field, *names):
        f = self.nm(field)
        return [e for e in self.events if e.kind == "mut" and field_of(root(e.loc)) == f and (not names or e.name in names)]

    def calls(self, *names):
        return [e for e in self.events if e.kind in ("call", "new") and (e.name in names or e.name.replace("::", ".").split(".")[-1] in names)]

    def raises(self):
        return [e for e in self.events if e.kind == "raise"]

    def spec(self, text, **env):
        env.setdefault("W", self.ev.world)
        return spec(self.lang, text, **env)

    def heap(self, text, **env):
        """final value of a location given as text"""
        loc = self.spec(text, **env)
        return self.r.st.heap.get(loc, loc)

    @property
    def self(self):
        return mk("p", "self")


_runs = {}


def clear():
    _runs.clear()
    P._cache.clear()
    _specproj.clear()


def run(lang, qual, inline=(), all=False, noinline=(), guards=(), maxdepth=6, args=None, project=None, worlds=False, named=False, alloc=False):
    pr = project if project is not None else proj(lang)
    P.configure("cpp" if pr.lang == "cpp" else "py")
    key = (id(pr), qual, tuple(sorted(inline)), all, tuple(sorted(noinline)), tuple(guards), maxdepth, tuple(sorted(args.items())) if args else None, worlds, named, alloc)
    if key in _runs:
        return _runs[key]
    f = pr.func(qual)
    ev = Evaluator(pr, inline=inline, inline_all=all, noinline=noinline, maxdepth=maxdepth)
    ev.named = named  # containers created in the function keep the name they are stored under
    ev.allocdepth = {}
    ev.alloc = alloc  # containers made in the function are told apart by the name they are stored under
    ev.worlds = worlds  # keep x.W of other elements apart from the world of the receiver
    res = ev.run(f, guards=list(guards), args=args)
    out = R(lang, qual, f, res, pr)
    out.ev = ev
    _runs[key] = out
    return out


_specproj = {}


class _SpecProj(P.Project):
    pass


def _rename(e, lang):
    if isinstance(e, tuple):
        if e and e[0] == "attr" and lang == "cpp":
            return ("attr", _rename(e[1], lang), CPP.get(e[2], e[2]))
        if e and e[0] == "const" and lang == "cpp" and isinstance(e[1], str) and e[1] in STATES:
            return ("const", STATES[e[1]])
        return tuple(_rename(x, lang) for x in e)
    if isinstance(e, list):
        return [_rename(x, lang) for x in e]
    return e


_spec_cache = {}


def spec(lang, text, **env):
    """term denoted by a Python-syntax expression over the model vocabulary; s is the receiver"""
    k = (lang, text)
    if k not in _spec_cache:
        _spec_cache[k] = _rename(py_expr(ast.parse(text.strip(), mode="eval").body), lang)
    e = _spec_cache[k]
    pr = _specproj.get(lang)
    if pr is None:
        pr = P.Project([], "py")
        pr.known = None
        pr.world_field = "w" if lang == "cpp" else "W"
        _specproj[lang] = pr
    P.configure("cpp" if lang == "cpp" else "py")
    ev = Evaluator(pr)
    f = Func("spec", "spec", [], [], lang="py")
    fr = Frame(f, None, 0)
    ev.frames = [fr]
    ev.topptypes = {}
    ev.line = 0
    ev.world = env.get("W", mk("p", "W"))
    b = {"s": mk("p", "self")}
    b.update(env)
    return ev.expr(e, St(b, {}, []), fr)


def cond(lang, text, **env):
    return V_.truthy(spec(lang, text, **env))


# ---------------------------------------------------------------- provenance of values
def bound(y, at, v):
    """at -> v outside the comprehensions that bind at themselves"""
    if y is at:
        return v
    if y.kind == "comp" and at.kind == "elem" and y.a[2] is at.a[0]:
        return y
    return None


def members(container, v, d=0):
    """facts known about v, a member of the container: list of alternatives (each a list of conditions)"""
    if d > 12:
        return [[]]
    k = container.kind
    if k == "comp":
        _, e, it, c = container.a
        at = e
        outs = []
        for alt in members(it, at, d + 1) if at.kind == "elem" else [[]]:
            facts = list(V_.conj(c)) + alt
            facts = [V_.subst(x, lambda y: bound(y, at, v)) for x in facts]
            outs.append(facts)
        if at.kind != "elem":
            # v equals the mapped expression for some element
            outs = [[*V_.conj(c), V_.eq(v, at)]]
        return outs
    if k in ("concat", "grown"):
        return members(container.a[0], v, d + 1) + members(container.a[1], v, d + 1)
    if k in ("appended", "prepended"):
        return members(container.a[0], v, d + 1) + [[V_.eq(v, container.a[1])]]
    if k in ("removed", "popped0", "poppedlast", "keydel", "sorted_"):
        return members(container.a[0], v, d + 1)
    if k == "call" and container.a[0] in ("list", "tuple", "sorted", "set", "reversed", "iter", "np.array") and container.a[1]:
        return members(container.a[1][0], v, d + 1)
    if k == "call" and container.a[0] == "setsub":
        return [alt + [V_.not_(V_.contains(container.a[1][1], v))] for alt in members(container.a[1][0], v, d + 1)]
    if k == "call" and container.a[0] == "setand":
        return [a1 + a2 for a1 in members(container.a[1][0], v, d + 1) for a2 in members(container.a[1][1], v, d + 1)]
    if k == "ite":
        c = container.a[0]
        return [V_.conj(c) + alt for alt in members(container.a[1], v, d + 1)] + [V_.conj(V_.not_(c)) + alt for alt in members(container.a[2], v, d + 1)]
    if k == "rec":
        outs = members(container.a[0], v, d + 1)
        outs += members(container.a[1], v, d + 1)
        return outs
    if k == "rho":
        return []
    if k in ("list", "tuple", "set"):
        return [[V_.eq(v, x)] for x in container.a[0]]
    if k == "values":
        return [[mk("in", v, container)]]
    return [[V_.contains(container, v)]]


def facts(v, d=0):
    """alternatives of facts implied by the way the value v was obtained"""
    if d > 8 or not isinstance(v, V):
        return [[]]
    if v.kind == "ite":
        c = v.a[0]
        out = []
        for br, cc in ((v.a[1], V_.conj(c)), (v.a[2], V_.conj(V_.not_(c)))):
            for alt in facts(br, d + 1):
                out.append(cc + [V_.subst(x, lambda y: v if y is br else None) for x in alt])
        return out
    src = source_container(v)
    if src is not None:
        return members(src, v)
    if v.kind == "search":
        inner, c = v.a[0], v.a[1]
        fs = [V_.subst(x, lambda y: v if y is inner else None) for x in V_.conj(c)]
        out = []
        for alt in facts(inner, d + 1):
            out.append(fs + [V_.subst(x, lambda y: v if y is inner else None) for x in alt])
        return out
    return [[]]


def source_container(v):
    """container v was drawn from (choice, max over zip, indexing, iteration)"""
    if v.kind == "rnd" and len(v.a) >= 5 and v.a[0] in ("choice", "random_choice") and v.a[3]:
        return v.a[3][0]
    if v.kind == "rnd" and len(v.a) >= 4 and isinstance(v.a[0], str) and v.a[0].endswith("choice") and isinstance(v.a[-1], tuple) and v.a[-1] and isinstance(v.a[-1][0], V):
        return v.a[-1][0]
    if v.kind == "i" and v.a[0].kind == "call" and v.a[0].a[0] in ("max", "min", "next") and v.a[0].a[1]:
        z = v.a[0].a[1][0]
        if z.kind == "call" and z.a[0] == "zip":
            n = V_.num(v.a[1])
            if n is not None and 0 <= n < len(z.a[1]):
                return z.a[1][int(n)]
    if v.kind == "call" and v.a[0] in ("max", "min", "next") and len(v.a[1]) == 1:
        return v.a[1][0]
    if v.kind == "i":
        c = v.a[0]
        if c.kind in ("comp", "concat", "grown", "rec", "call", "ite") or c.kind in CHAIN:
            return c
        return None
    if v.kind == "elem" and len(v.a) == 1:
        return v.a[0]
    return None


def chain(v):
    """v is a heap path of attributes / constant indices over parameters, elements, draws"""
    return v.kind in ("p", "a", "i", "elem", "new", "rnd", "search", "ite")


# ---------------------------------------------------------------- logic
def implied(gs, r):
    """guards imply r"""
    rs = V_.conj(r)
    gset = set(gs)
    return all(x in gset or dom.implies(list(gs), x) for x in rs)


def contradict(gs):
    return dom.infeasible(list(gs))


def implied_by_origin(gs, v, r):
    """r follows from the guards together with how v was chosen (every alternative)"""
    if implied(gs, r):
        return True
    alts = facts(v)
    ok = True
    for alt in alts:
        a = list(gs) + [x for x in alt if x not in gs]
        if not implied(a, r):
            ok = False
            break
    return ok and bool(alts)


def same(a, b, gs=()):
    return a is b or dom.same(a, b, list(gs))


OPAQUE = {"unk", "rec", "lam", "comp", "mcall", "rnd", "search", "func", "mutated", "exc", "u", "lv", "whileiter", "while", "concat", "grown", "fstr", "cat"}
OPAQUE_CALL_OK = {"len", "abs", "int", "sqrt", "floor", "ceil", "list"}


def opaque_in(v, allowed=()):
    """opaque subterms of v that do not occur in the allowed terms"""
    ok = set()
    for w in allowed:
        for x in V_.walk(w):
            ok.add(x)
    for x in V_.walk(v):
        if x in ok:
            continue
        if x.kind in OPAQUE or (x.kind == "call" and x.a[0] not in OPAQUE_CALL_OK):
            return x
    return None


def guard(e):
    return V_.and_(list(e.g))


def same_guard(e1, e2, extra=()):
    """both events happen under equivalent conditions"""
    g1, g2 = list(e1.g), list(e2.g)
    if set(g1) == set(g2):
        return True
    return implied(g1 + list(extra), V_.and_(g2)) and implied(g2 + list(extra), V_.and_(g1))


def where(e):
    return "%s:%s (%s)" % (short(e.file), e.line, e.func)


def short(f):
    f = f or "?"
    i = f.find("/uxsim/")
    return f[i + 1:] if i >= 0 else f
