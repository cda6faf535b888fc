from .common import *
from .. import binds

DEFS = {
    "w": ["1/s.tau/s.kappa"],
    "capacity": ["s.u*s.w*s.kappa/(s.u+s.w)"],
    "delta": ["1/s.kappa"],
    "delta_per_lane": ["s.number_of_lanes/s.kappa"],
    "q_star": ["s.u*s.w*s.kappa/(s.u+s.w)"],
    "k_star": ["s.w*s.kappa/(s.u+s.w)"],
    "free_flow_speed": ["s.u"],
}
DEP = {"w": ("tau", "kappa"), "capacity": ("u", "tau", "kappa"), "delta": ("kappa",), "delta_per_lane": ("kappa", "number_of_lanes"), "q_star": ("u", "tau", "kappa"),
       "k_star": ("u", "tau", "kappa"), "free_flow_speed": ("u",)}
CPP = {"u": "vmax", "w": "backward_wave_speed"}
INPUTS = ("u", "kappa", "tau", "number_of_lanes")


def get(c, lang, q_, **kw):
    r = run(lang, q_, **kw)
    c.used(r)
    return r


def fld(lang, f):
    return CPP.get(f, f) if lang == "cpp" else f


def names(lang):
    """attributes an implementation keeps on the link itself"""
    return [f for f in DEFS if lang != "cpp" or f not in ("q_star", "k_star", "free_flow_speed")]


def loc(lang, f):
    return mk("a", mk("p", "self"), fld(lang, f))


def final(r, lang, f, gs=()):
    l = loc(lang, f)
    v = r.r.st.heap.get(l, l)
    return r_under(v, list(gs))


def r_under(v, gs):
    """specialise a value, also below operators, to the given conditions"""
    gset = list(gs)

    def f(y):
        if y.kind == "ite":
            if implied(gset, y.a[0]):
                return r_under(y.a[1], gset)
            if contradict(gset + [y.a[0]]):
                return r_under(y.a[2], gset)
        return None
    return V_.subst(v, f)


def expected(lang, f, base, r):
    """reference value of a derived quantity as a function of the inputs given as values"""
    want = r_spec(lang, f)
    m = {loc(lang, x): base[x] for x in base}
    return V_.subst(want, lambda y: m.get(y) if y.kind == "a" else None)


def r_spec(lang, f):
    S = {x: mk("a", mk("p", "self"), fld(lang, x)) for x in ("u", "kappa", "tau", "number_of_lanes")}
    inv = lambda v: V_.div(ONE, v)
    w = inv(V_.mul(S["tau"], S["kappa"]))
    if f == "w":
        return w
    if f in ("capacity", "q_star"):
        return V_.div(V_.mul(V_.mul(S["u"], w), S["kappa"]), V_.add(S["u"], w))
    if f == "k_star":
        return V_.div(V_.mul(w, S["kappa"]), V_.add(S["u"], w))
    if f == "delta":
        return inv(S["kappa"])
    if f == "delta_per_lane":
        return V_.div(S["number_of_lanes"], S["kappa"])
    if f == "free_flow_speed":
        return S["u"]
    raise KeyError(f)


def ctor_cases(lang, r):
    """parameter combinations of the constructor: (conditions, jam density)"""
    P_ = lambda n: mk("p", n)
    if lang == "cpp":
        pos = V_.lt(V_.neg(P_("kappa")))
        return [("jam density given", [pos], P_("kappa"))]
    jd, jl = P_("jam_density"), P_("jam_density_per_lane")
    isd = spec("py", "jam_density == 0.2", jam_density=jd)
    none = V_.eq(jl, NONE)
    lanes = P_("number_of_lanes")
    whole = V_.eq(V_.sub(mk("call", "int", (lanes,), ()), lanes), ZERO)
    return [("jam density given", [none, V_.not_(isd)], jd), ("nothing given", [none, isd], jd),
            ("jam density per lane given", [V_.not_(none), isd], V_.mul(jl, lanes)), ("both given", [V_.not_(none), V_.not_(isd)], V_.mul(jl, lanes))]


def intless(v):
    """int(x) of a number of lanes that was checked to be whole"""
    return V_.subst(v, lambda y: y.a[1][0] if y.kind == "call" and y.a[0] in ("int", "round") and len(y.a[1]) == 1 and V_.show(y.a[1][0]) == "number_of_lanes" else None)


@rule("P35", "R1", "a new link has the parameters of one triangular fundamental diagram, whichever of them were given")
def r1(c):
    for lang, q_ in (("py", "Link.__init__"), ("cpp", "Link.Link")):
        r = get(c, lang, q_)
        lanes = mk("p", "number_of_lanes")
        u = mk("p", "free_flow_speed" if lang == "py" else "vmax")
        tau = V_.div(r.spec("W.REACTION_TIME" if lang == "py" else "W.tau"), lanes)
        for what, gs, kap in ctor_cases(lang, r):
            g = lambda f: intless(final(r, lang, f, gs))
            for f, want in (("kappa", kap), ("u", u), ("tau", tau), ("number_of_lanes", lanes)):
                ob(c, r, f, g(f), want, what, gs)
            base = {"u": u, "kappa": kap, "tau": tau, "number_of_lanes": lanes}
            for f in names(lang):
                ob(c, r, f, g(f), expected(lang, f, base, r), what, gs)
            # capacities that are not given do not restrict the link (twice its capacity); given ones are used as given
            cap = expected(lang, "capacity", base, r)
            for f in ("capacity_out", "capacity_in"):
                pc = mk("p", f)
                for cond, want in (([V_.eq(pc, NONE)], V_.mul(const(2), cap)), ([V_.not_(V_.eq(pc, NONE))], pc)) if lang == "py" else (([V_.lt(pc)], V_.mul(const(2), cap)), ([V_.not_(V_.lt(pc))], pc)):
                    ob(c, r, f, intless(final(r, lang, f, list(gs) + cond)), want, what, list(gs) + cond, key="%s|%s|%s|%s" % (q_, f, what, want is pc))
            if lang == "py":
                got = g("jam_density")
                ok = got is kap or got is mk("p", "jam_density")
                c.ob(ok, head(r), "jam_density keeps the value given or the resulting one (%s)" % what, key="%s|jam_density|%s" % (q_, what))
    r = get(c, "py", "World.__init__")
    ob(c, r, "REACTION_TIME", r_under(r.heap("s.REACTION_TIME"), [V_.not_(V_.truthy(mk("p", "cpp")))]), mk("p", "reaction_time"), "world", ())
    r = get(c, "cpp", "World.World")
    ob(c, r, "tau of the world", r.heap("s.tau"), mk("p", "tau"), "world", ())


def ob(c, r, f, got, want, what, gs, key=None):
    if f == "k_star":
        got = r_under(got, list(gs) + [V_.lt(V_.neg(mk("p", "free_flow_speed")))])
    ok = decide(got, want, gs)
    c.ob(ok, head(r), "%s (%s)" % (f, what) + ("" if ok is True else ": expected %s, found %s" % (V_.show(want)[:200], V_.show(got)[:200])), key=key or "%s|%s|%s" % (r.qual, f, what))


@rule("P35", "R2", "a change of free-flow speed or jam density updates every quantity that depends on it, and nothing else")
def r2(c):
    for lang in LANGS:
        for q_, main in (("Link.change_free_flow_speed", "u"), ("Link.change_jam_density", "kappa")):
            r = get(c, lang, q_)
            nv = [x for x in r.func.params if (x if isinstance(x, str) else x[0]) not in ("s", "self")][0]
            nv = mk("p", nv if isinstance(nv, str) else nv[0])
            pos = [V_.lt(V_.neg(nv))]
            neg = [V_.lt(nv)]
            upos = V_.lt(V_.neg(loc(lang, "u")))
            c.ob(decide(final(r, lang, main, pos), nv, pos), head(r), "%s becomes the new value" % fld(lang, main), key="%s|main" % q_ + lang)
            vals = {x: final(r, lang, x, pos) for x in INPUTS}
            for x in INPUTS:
                if x != main:
                    c.ob(decide(vals[x], loc(lang, x)), head(r), "%s stays" % fld(lang, x), key="%s|%s|%s" % (lang, q_, x))
            base = dict(vals)
            base[main] = nv
            for f in names(lang):
                got = final(r, lang, f, pos + [upos])
                if main not in DEP[f]:
                    ok = got is loc(lang, f) or decide(got, expected(lang, f, base, r), pos + [upos])
                    c.ob(ok, head(r), "%s keeps its value" % fld(lang, f), key="%s|%s|%s" % (lang, q_, f))
                    continue
                want = expected(lang, f, base, r)
                ok = decide(got, want, pos + [upos])
                if ok is False and contains_other(got, lang):
                    # written through another derived quantity that is itself up to date
                    ok = decide(unfold(got, lang, r, base), want, pos + [upos])
                c.ob(ok, head(r), "%s follows from the changed parameter" % fld(lang, f) + ("" if ok is True else ": expected %s, found %s" % (V_.show(want)[:200], V_.show(got)[:200])), key="%s|%s|%s" % (lang, q_, f))
            if lang == "py":
                if main == "kappa":
                    c.ob(decide(final(r, lang, "jam_density", pos), nv, pos), head(r), "jam_density becomes the new value", key="%s|jam_density" % q_)
            for x in ("u", "kappa"):
                c.ob(decide(final(r, lang, x, neg), loc(lang, x), neg), head(r), "a negative value is not used", key="%s|%s|neg|%s" % (lang, q_, x))


def contains_other(v, lang):
    ls = {loc(lang, f) for f in DEFS}
    return V_.contains_v(v, lambda y: y in ls)


def unfold(v, lang, r, base):
    """derived quantities that the function leaves as they are stand for their defining formula of the old inputs"""
    m = {loc(lang, f): r_spec(lang, f) for f in names(lang)}
    return V_.subst(v, lambda y: m.get(y) if y.kind == "a" else None)


@rule("P35", "R3", "the flow parameters of a link are written only where the derived ones are updated with them")
def r3(c):
    allow_py = ["Link.__init__", "Link.change_free_flow_speed", "Link.change_jam_density"]
    allow_wrap = ["CppLink.__init__", "CppLink._read_from_cpp"]
    allow_cpp = ["Link.Link", "Link.change_free_flow_speed", "Link.change_jam_density"]
    for lang, cls, allow in (("py", "Link", allow_py), ("cpp", "Link", allow_cpp), ("wrap", "CppLink", allow_wrap)):
        for f in ["u", "kappa", "tau"] + names(lang):
            if lang == "cpp" and f in ("q_star", "k_star"):
                continue
            owner_rule(c, lang, cls, fld(lang, f), allow, 1)


@rule("P35", "R4", "in C++ mode the parameters are those of the C++ link, read back after each change")
def r4(c):
    want = {"u": "vmax", "kappa": "kappa", "tau": "tau", "w": "backward_wave_speed", "capacity": "capacity", "delta": "delta", "delta_per_lane": "delta_per_lane",
            "free_flow_speed": "vmax", "jam_density": "kappa", "q_star": "capacity"}
    for q_ in ("CppLink.__init__", "CppLink._read_from_cpp"):
        r = get(c, "wrap", q_, worlds=True)
        for f, member in want.items():
            v = r.heap("s." + f)
            check_src(c, r, f, v, member)
        v = r.heap("s.k_star")
        fields = {binds.field("Link", x.a[1]) for x in V_.walk(v) if x.kind == "a" and is_cpp_link(x.a[0])}
        c.ob({"capacity", "vmax"} >= fields and bool(fields), head(r), "k_star follows from capacity and free-flow speed of the C++ link", key="%s|k_star" % q_)
        u = [x for x in V_.walk(v) if x.kind == "a" and is_cpp_link(x.a[0]) and binds.field("Link", x.a[1]) == "vmax"]
        q = [x for x in V_.walk(v) if x.kind == "a" and is_cpp_link(x.a[0]) and binds.field("Link", x.a[1]) == "capacity"]
        if u and q:
            g = r_under(v, [V_.lt(V_.neg(u[0]))])
            c.ob(decide(g, V_.div(q[0], u[0])), head(r), "k_star is capacity over free-flow speed", key="%s|k_star formula" % q_)
    for m in ("change_free_flow_speed", "change_jam_density"):
        r = get(c, "wrap", "CppLink." + m)
        b = binds.table().get("Link", {})
        fw = [e for e in r.events if e.kind == "call" and e.name.split(".")[-1] == m and e.recv is not None and V_.show(e.recv).endswith("_cpp_link")]
        ok = [e for e in fw if e.args and stripc(e.args[0]) is mk("p", "new_value") and not [g for g in e.g if not implied([V_.le(V_.neg(mk("p", "new_value")))], g)]]
        c.ob(bool(ok) and b.get(m) is not None and b[m].target == m, head(r), "the new value is handed to the C++ link", key="%s|forward" % m)
        back = [e for e in r.events if e.kind in ("call", "set") and (e.name or "").endswith("_read_from_cpp")]
        done = bool(back) and bool(ok) and all(covers(e, back) for e in ok) and all(r.events.index(e) < max(r.events.index(x) for x in back) for e in ok)
        if not done and ok:
            i = r.events.index(ok[0])
            sets = {field_of(root(e.loc)) for e in r.events[i:] if e.kind == "set"}
            need = {f for f in want if f != "tau" and (f == "jam_density" and m == "change_jam_density" or m.replace("change_", "").replace("jam_density", "kappa").replace("free_flow_speed", "u") in DEP.get(f, ()) or f == "u" and "speed" in m or f == "kappa" and "jam" in m)}
            done = need <= sets
        c.ob(done, head(r), "the parameters are read back after the change", key="%s|back" % m)
    # the initial jam density handed to the C++ link
    r = get(c, "wrap", "CppLink.__init__")
    calls = [e for e in r.events if e.kind == "call" and e.name.endswith("_add_link")]
    c.floor(len(calls), 1, "creation of the C++ link")
    add = binds.table().get("", {}).get("add_link")
    ns = [a for a, _ in add.args]
    jd, jl, lanes = mk("p", "jam_density"), mk("p", "jam_density_per_lane"), mk("p", "number_of_lanes")
    first = calls[0]
    args = {n: v for n, v in zip(ns, first.args)}
    args.update(dict(first.kw or []))
    for n, cases in (("kappa", [([V_.eq(jl, NONE)], jd), ([V_.not_(V_.eq(jl, NONE))], V_.mul(jl, lanes))]), ("vmax", [([], mk("p", "free_flow_speed"))]), ("number_of_lanes", [([], lanes)]), ("length", [([], mk("p", "length"))])):
        for gs, w in cases:
            v = args.get(n)
            if v is None:
                c.ob(False, where(first), "%s is handed to the C++ link" % n, key="add_link|%s" % n)
                continue
            g = intless(unfloat(r_under(unfloat(v), gs)))
            c.ob(decide(g, w, gs), where(first), "%s is handed to the C++ link as given" % n + ("" if same(g, w, gs) else ", found %s" % inl(g)), key="add_link|%s|%s" % (n, len(gs)))


def unfloat(v):
    return V_.subst(v, lambda y: unfloat(y.a[1][0]) if y.kind == "call" and y.a[0] == "float" and len(y.a[1]) == 1 else None)


def is_cpp_link(v):
    s = V_.show(v)
    return s.endswith("_cpp_link") or v.kind == "mcall" and v.a[1] == "get_link"


def check_src(c, r, f, v, member):
    v = unfloat(v)
    if v.kind == "a" and is_cpp_link(v.a[0]):
        c.ob(binds.field("Link", v.a[1]) == member, head(r), "%s is %s of the C++ link, found %s" % (f, member, binds.field("Link", v.a[1])), key="%s|%s" % (r.qual, f))
    else:
        c.ob(False if v.kind != "ite" and opaque_in(v, ()) is None else None, head(r), "%s comes from the C++ link, found %s" % (f, inl(v)), key="%s|%s" % (r.qual, f))


@rule("P35", "R5", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P35"), 1, "properties of the elements of the C++ mode")
