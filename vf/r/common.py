"""Shared vocabulary of the rules."""
from ..rules import rule
from .. import val as V_, dom, project as P
from ..val import V, mk, const, NONE, TRUE, FALSE, ZERO, ONE
from ..evalr import root, field_of, base_of, CHAIN
from ..q import run, spec, cond, facts, members, implied, implied_by_origin, contradict, same, opaque_in, same_guard, guard, where, short, source_container, proj
from ..ir import stmts_walk, stmt_exprs, expr_walk, all_exprs

# python method -> C++ method
M = {
    "Node.signal_control": "Node.signal_update", "Link.set_traveltime_instant": "Link.set_travel_time", "Vehicle.carfollow": "Vehicle.car_follow_newell",
    "Vehicle.record_log": "Vehicle.log_data", "World.exec_simulation": "World.main_loop", "RouteChoice.homogeneous_DUO_update": "World.route_choice_duo",
}
LANGS = ("py", "cpp")


def q(lang, name):
    return M.get(name, name) if lang == "cpp" else name


def R(c, lang, name, **kw):
    r = run(lang, q(lang, name), **kw)
    c.used(r)
    return r


def head(r):
    return "%s:%s (%s)" % (short(r.func.file), r.func.line, r.func.qual)


def decide(got, want, gs=(), extra=()):
    """True equal, False different, None not comparable (the code uses terms the reference does not know)"""
    if same(got, want, gs):
        return True
    if opaque_in(got, (want,) + tuple(extra)) is not None:
        return None
    return False


def formula(c, r, loc, want, what, gs=(), key=None, extra=(), got=None):
    """final value of a location equals the reference expression"""
    l = r.spec(loc) if isinstance(loc, str) else loc
    ws = [r.spec(w) if isinstance(w, str) else w for w in (want if isinstance(want, list) else [want])]
    g = r.r.st.heap.get(l, l) if got is None else got
    oks = [decide(g, w, gs, extra) for w in ws]
    ok = True if True in oks else (None if None in oks else False)
    w = ws[0]
    c.ob(ok, head(r), "%s: expected %s, found %s" % (what, V_.show(w)[:300], V_.show(g)[:400]) if ok is not True else what, key="%s|%s" % (r.qual, key or what))
    return ok


def is_world(b, r):
    return b is r.ev.world


def link_vehicles(r, *names):
    """mutations of the vehicle queue of a link (not of the world's vehicle registry)"""
    return [e for e in r.muts("vehicles", *names) if not is_world(base_of(root(e.loc)), r)]


def covers(e, partners, gs=()):
    """whenever e happens one of the partners happens"""
    if not partners:
        return False
    g = list(e.g)
    for p in partners:
        if set(p.g) <= set(g) or implied(g + list(gs), V_.and_(p.g)):
            return True
    return implied(g + list(gs), V_.or_([V_.and_(p.g) for p in partners]))


def iff(e, partners, gs=()):
    """e and (one of) the partners happen under the same conditions"""
    return covers(e, partners, gs) and all(covers(p, [e], gs) or len(partners) > 1 for p in partners)


def delta_of(e):
    """increment written by a set event on a location"""
    return V_.sub(e.value, e.old if e.old is not None else e.loc)


def inl(v):
    return V_.show(v)[:160]


def fold(r, loc, start=None, events=None):
    """value of a location after the set events that target it, gated by their guards"""
    evs = [e for e in r.events if e.kind == "set" and e.loc is loc] if events is None else events
    v = loc if start is None else start
    for e in evs:
        v = V_.ite(V_.and_(list(e.g)), e.value, v)
    return v


def under(v, gs):
    """specialise a gated value to a set of known conditions"""
    gset = set()
    for g in gs:
        gset.update(V_.conj(g))
    neg = {V_.not_(g) for g in gset}
    memo = {}

    def dec(cnd):
        if cnd not in memo:
            if all(x in gset for x in V_.conj(cnd)) or implied(list(gset), cnd):
                memo[cnd] = True
            elif any(x in neg for x in V_.conj(cnd)) or contradict(list(gset) + [cnd]):
                memo[cnd] = False
            else:
                rest = [x for x in V_.conj(cnd) if x not in gset]
                memo[cnd] = V_.and_(rest)
        return memo[cnd]

    def go(x):
        while x.kind == "ite":
            d = dec(x.a[0])
            if d is True:
                x = x.a[1]
            elif d is False:
                x = x.a[2]
            else:
                return V_.ite(d, go(x.a[1]), go(x.a[2]))
        return x
    return go(v)


def entries(r):
    """[(event, link, vehicle)] for every append to the vehicle queue of a link"""
    out = []
    for e in link_vehicles(r, "append"):
        if e.args:
            out.append((e, base_of(root(e.loc)), e.args[0]))
    return out


def exits(r):
    return [(e, base_of(root(e.loc))) for e in link_vehicles(r, "popleft")]


def sets_at(r, loc):
    return [e for e in r.events if e.kind == "set" and e.loc is loc]


_writers = {}


def _alias_fields(f):
    al = {}
    for st in stmts_walk(f.body):
        if st[0] == "assign":
            for t in st[1]:
                if t[0] == "name" and st[2][0] == "attr":
                    al[t[1]] = st[2][2]
    return al


def touches(pr, f, field):
    """does the function syntactically write or mutate the field (directly or through a local alias)"""
    from ..evalr import MUTATORS
    s, _, _ = pr._direct(f)
    if field in s:
        return True
    al = {k for k, v in _alias_fields(f).items() if v == field}
    if not al:
        return False
    for st in stmts_walk(f.body):
        tg = []
        if st[0] == "assign":
            tg = list(st[1])
        elif st[0] == "aug":
            tg = [st[1]]
        for t in tg:
            if t[0] == "idx" and t[1][0] == "name" and t[1][1] in al:
                return True
        for e in stmt_exprs(st):
            for x in expr_walk(e):
                if x[0] == "call" and x[1][0] == "attr" and x[1][1][0] == "name" and x[1][1][1] in al and x[1][2] in MUTATORS:
                    return True
    return False


def norm_q(qn):
    return qn.replace("::", ".")


def writers(lang, cls, field, pr=None):
    """[(func, event)] for every write/mutation of field on objects that are (or may be) of class cls"""
    pr = pr or proj(lang)
    key = (id(pr), cls, field)
    if key in _writers:
        return _writers[key]
    out = []
    f0 = field
    for f in pr.allf:
        if not touches(pr, f, f0):
            continue
        r = run(lang, f.qual, project=pr) if pr.has(f.qual) else None
        if r is None:
            continue
        for e in r.events:
            if e.kind not in ("set", "mut") or e.func != f.qual:
                continue
            rl = root(e.loc)
            if field_of(rl) != f0:
                continue
            b = base_of(rl)
            t = pr.typeof(b, r.ev) if isinstance(b, V) else None
            if t is None and isinstance(b, V) and b.kind == "new":
                t = b.a[0]
            if t is not None and t != cls and t != pr.aliases.get(cls):
                continue
            if t is None and f.cls is not None and f.cls.name != cls and not isinstance(b, V):
                continue
            out.append((f, e))
    _writers[key] = out
    return out


_callers = {}


def callers(pr, name):
    key = id(pr)
    if key not in _callers:
        m = {}
        for f in pr.allf:
            _, cs, _ = pr._direct(f)
            for x in cs:
                m.setdefault(x, set()).add(f)
        _callers[key] = m
    return _callers[key].get(name, set())


def allowed_writer(pr, f, allowed, seen=None):
    """the function is one of the allowed ones, or a helper (not part of the original program) called only from those"""
    qn = norm_q(f.qual)
    if qn in allowed:
        return True
    if pr.is_known(f):
        return False
    seen = seen or set()
    if f in seen:
        return True
    seen = seen | {f}
    cs = callers(pr, f.name)
    return bool(cs) and all(g is f or allowed_writer(pr, g, allowed, seen) for g in cs)


def owner_rule(c, lang, cls, field, allowed, least, names=None, what=None, pr=None):
    """only the allowed functions change cls.field"""
    pr = pr or proj(lang)
    fld = field
    if lang == "cpp":
        from ..q import CPP
        fld = CPP.get(field, field)
    ws = writers(lang, cls, fld, pr)
    al = {norm_q(q(lang, a)) for a in allowed}
    n = 0
    for f, e in ws:
        if names and not (e.kind == "mut" and e.name in names):
            continue
        n += 1
        c.analysed.add(f.qual)
        ok = allowed_writer(pr, f, al)
        c.ob(ok, where(e), "%s of %s.%s in %s" % ("mutation" if e.kind == "mut" else "write", cls, fld, f.qual) + ("" if ok else " (only %s may change it)" % ", ".join(sorted(al))), key="owner|%s.%s|%s" % (cls, field, norm_q(f.qual)))
    c.floor(n, least, "writes of %s.%s (%s)" % (cls, fld, lang))


def rel_guards(e, depth=0):
    """guards of an event beyond those that hold at the start of the enclosing loop body number `depth`"""
    if not e.lg:
        return list(e.g)
    b = set(e.lg[min(depth, len(e.lg) - 1)])
    return [g for g in e.g if g not in b]


def vfold(r, e, loc, start=None):
    """value a location has at the end of the loop iteration of e, given that e happens"""
    evs = [p for p in r.events if p.kind == "set" and p.loc is loc and p.lids[:len(e.lids)] == e.lids]
    return under(fold(r, loc, start, evs), list(e.g))


def abstract(x, env):
    """replace the entities of a rule (the vehicle, the link) by plain names"""
    order = sorted(((v, k) for k, v in env.items() if isinstance(v, V) and v.kind != "p"), key=lambda t: -t[0]._n)
    for v, k in order:
        nm = mk("p", "$" + k)
        x = V_.subst(x, lambda y: nm if y is v else None)
    return x


def vformula(c, r, e, loc, want, what, key=None, env=None, start=None):
    env = env or {}
    l = r.spec(loc, **env) if isinstance(loc, str) else loc
    ws = [r.spec(w, **env) if isinstance(w, str) else w for w in (want if isinstance(want, list) else [want])]
    g = abstract(vfold(r, e, l, start), env)
    gs = [abstract(x, env) for x in e.g]
    ws = [abstract(w, env) for w in ws]
    oks = [decide(g, w, gs) for w in ws]
    ok = True if True in oks else (None if None in oks else False)
    c.ob(ok, where(e), what if ok else "%s: expected %s, found %s" % (what, V_.show(under(ws[0], gs))[:300], V_.show(under(g, gs))[:400]), key="%s|%s" % (r.qual, key or what))
    return ok


def happens(evs, drop=()):
    return V_.or_([V_.and_([g for g in e.g if g not in drop]) for e in evs]) if evs else FALSE


def equiv(a, b, gs=()):
    gs = list(gs)
    return implied(gs + [a], b) and implied(gs + [b], a)


def when(c, r, evs, want, what, gs=(), key=None, drop=()):
    """the events happen exactly under the wanted condition (a text, a term or a list of alternatives)"""
    ws = [cond(r.lang, w, W=r.ev.world) if isinstance(w, str) else w for w in (want if isinstance(want, list) else [want])]
    h = happens(evs, drop)
    ok = any(equiv(h, w, gs) for w in ws)
    wh = where(evs[0]) if evs else head(r)
    msg = what
    if not ok:
        more = not any(implied(list(gs) + [h], w) for w in ws)
        less = not any(implied(list(gs) + [w], h) for w in ws)
        msg += ": happens %s, expected %s" % (" and ".join((["also when it should not"] if more else []) + (["not always when it should"] if less else [])) + " (found condition %s)" % V_.show(h)[:300], V_.show(ws[0])[:300])
    c.ob(ok, wh, msg, key="%s|%s" % (r.qual, key or what))
    return ok


def stripc(v):
    """container behind copies and views"""
    while True:
        if v.kind == "values":
            v = v.a[0]
        elif v.kind == "call" and v.a[0] in ("list", "tuple", "sorted") and v.a[1]:
            v = v.a[1][0]
        else:
            return v


def each_element(r, v):
    """v runs over all elements of its containers (no slice, filter or index offset)"""
    while isinstance(v, V):
        if v.kind == "elem":
            v = stripc(v.a[0])
            if v.kind == "range":
                return False
        elif v.kind == "i":
            k, b = v.a[1], v.a[0]
            if not (k.kind == "elem" and k.a[0].kind == "range" and len(k.a[0].a) == 2 and V_.is_zero(k.a[0].a[0]) and same(k.a[0].a[1], mk("call", "len", (b,), ()))):
                if not (k.kind == "elem" and k.a[0].kind == "range" and V_.is_zero(k.a[0].a[0]) and stripc(b) is not b and same(k.a[0].a[1], mk("call", "len", (stripc(b),), ()))):
                    return False
            v = stripc(b)
        elif v.kind == "a":
            v = v.a[0]
        else:
            return v.kind == "p"
    return True


def no_early_exit(r, e, depth=1):
    return not any(r.ev.loopinfo.get(l) for l in e.lids[depth:])


HARD = {"unk", "rec", "lam", "search", "func", "mutated", "exc", "u", "lv", "whileiter", "while", "concat", "grown", "range", "dict", "zip", "i"}


def decide_in(v, alts, names, gs=()):
    """v equals one of the alternatives (True), or differs (False) when it is built from the named functions only; else undecided"""
    if v is None:
        return False
    if any(same(v, a, gs) for a in alts):
        return True
    ok = set()
    for a in alts:
        ok.update(V_.walk(a))
    for x in V_.walk(v):
        if not isinstance(x, V) or x in ok:
            continue
        if x.kind in HARD:
            return None
        if x.kind == "call" and x.a[0] not in names:
            return None
        if x.kind in ("mcall",) and x.a[1] not in names:
            return None
        if x.kind == "rnd" and not any(n in names for n in x.a if isinstance(n, str)):
            return None
    return False


def differs(got, envs, want):
    """an assignment of numbers to the terms of `envs` for which got is not the wanted number (the first one, with both
    values); None if there is none or the term cannot be evaluated"""
    from fractions import Fraction
    from ..setmodel import Model, Undecided, Raises
    for env in envs:
        try:
            x = Model({}, [], {k: Fraction(v) for k, v in env.items()}, attrs=True).ev(got)
        except (Undecided, Raises, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError):
            continue
        w = want(env)
        if isinstance(x, (int, Fraction)) and not isinstance(x, bool) and x != w:
            return env, x, w
    return None
