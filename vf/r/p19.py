from fractions import Fraction
from .common import *
from ..setmodel import Model, Undecided, Raises

P_ = lambda x: mk("p", x)
MODES = (("py", "World."), ("wrap", "CppWorld."))


def get(c, lang, q_, **kw):
    if lang == "wrap":
        r = run("wrap", q_, **kw)
        c.used(r)
        return r
    return R(c, lang, q_, **kw)


VOC = {"len", "int", "get_node", "get_nodes_in_area", "get_nearest_node", "np.linspace", "choice", "list", "max", "min"}


def any_same(v, alts, gs=()):
    """True / False / None (undecided): v equals one of the alternatives"""
    return decide_in(v, alts, VOC, gs)


def rate(r):
    a = r.spec("volume/(t_end - t_start) if volume > 0 else flow", volume=P_("volume"), flow=P_("flow"), t_end=P_("t_end"), t_start=P_("t_start"))
    return a


@rule("P19", "R1", "a demand creates a platoon whenever the accumulated amount reaches one, in every step of its window")
def r1(c):
    for lang, q_, a, b, fl, make in (("py", "World.adddemand", "t_start", "t_end", None, "addVehicle"), ("cpp", "add_demand", "start_t", "end_t", "flow", "Vehicle")):
        r = R(c, lang, q_)
        flow = rate(r) if lang == "py" else P_(fl)
        dt, dn = r.spec("W.DELTAT", W=r.ev.world if r.ev.world is not None else P_("w")) if lang == "py" else mk("a", r.ev.world, "delta_t"), None
        dn = r.spec("W.DELTAN") if lang == "py" else mk("a", r.ev.world, "delta_n")
        ev = [e for e in r.events if (e.kind == "call" or e.kind == "new") and e.name.split(".")[-1] == make]
        c.floor(len(ev), 1, "creations of vehicles in %s" % q_)
        c.ob(len(ev) == 1, where(ev[0]), "one place creates the vehicles of a demand", key="%s|one" % q_)
        for e in ev:
            if len(e.loops) == 1 and e.loops[0].kind == "range":
                c.ob(False, where(e), "several platoons can be completed in one step", key="%s|loop" % q_)
                continue
            if len(e.loops) != 2 or e.loops[0].kind != "range":
                c.ob(None, where(e), "loop over the steps of the window not recognised", key="%s|loop" % q_)
                continue
            it = e.loops[0]
            want = mk("range", V_.to_int(V_.div(P_(a), dt)) if hasattr(V_, "to_int") else r.spec("int(x/d)", x=P_(a), d=dt), r.spec("int(x/d)", x=P_(b), d=dt))
            ok = len(it.a) == 2 and decide(it.a[0], want.a[0]) and decide(it.a[1], want.a[1])
            c.ob(ok, where(e), "the window covers the steps from its start to its end; found %s" % inl(it), key="%s|window" % q_)
            ts = mk("elem", it)
            # accumulation
            ins = [(k, v) for k, v in r.ev.looprec.items() if k[0] == e.lids[1] and k[1].kind == "lv"]
            outs_ = [(k, v) for k, v in r.ev.looprec.items() if k[0] == e.lids[0] and k[1].kind == "lv"]
            good = None
            for k, (init, end, br) in ins:
                lv = k[1]
                o = [(k2[1], v2) for k2, v2 in outs_ if k2[1].a[0] == lv.a[0]]
                if not o:
                    continue
                lo, (i0, e0, _) = o[0]
                good = decide(init, V_.add(lo, V_.mul(flow, dt)))
                c.ob(good, where(e), "each step adds rate times step width; found %s" % inl(V_.sub(init, lo)), key="%s|add" % q_)
                c.ob(decide(end, V_.sub(lv, dn)), where(e), "each platoon reduces the amount by the platoon size; found %s" % inl(V_.sub(end, lv)), key="%s|sub" % q_)
                c.ob(V_.is_zero(i0), where(e), "the amount starts at zero", key="%s|zero" % q_)
                cnd = [g for g in e.g if lv in set(V_.walk(g))]
                c.ob(equiv(V_.and_(cnd), V_.le(V_.sub(dn, lv))), where(e), "a platoon is created while the amount reaches one; found %s" % inl(V_.and_(cnd)), key="%s|cond" % q_)
                rest = [g for g in rel_guards(e, 0) if g not in cnd]
                c.ob(not rest, where(e), "no step is left out" + ("" if not rest else ": %s" % inl(V_.and_(rest))), key="%s|all" % q_)
            if good is None:
                c.ob(None, where(e), "accumulated amount not recognised", key="%s|add" % q_)
            c.ob(not r.ev.loopinfo.get(e.lids[0]), where(e), "the loop over the window is never left early", key="%s|break" % q_)
            kw = dict(e.kw or ())
            if lang == "py":
                pos = list(e.args)
                nm = ["orig", "dest", "departure_time"]
                at = {n: (pos[i] if i < len(pos) else kw.get(n)) for i, n in enumerate(nm)}
                c.ob(at["orig"] is P_("orig") and at["dest"] is P_("dest"), where(e), "vehicles go from the origin to the destination of the demand", key="py|od")
                d, fg = at["departure_time"], kw.get("departure_time_is_time_step")
                ok = (decide(d, ts) and fg is not None and V_.num(fg) == 1) or (decide(d, V_.mul(ts, dt)) and (fg is None or V_.num(fg) == 0)) if d is not None else False
                c.ob(ok, where(e), "vehicles depart in the step in which the platoon is complete", key="py|dep")
                c.ob(kw.get("attribute") is P_("attribute"), where(e), "every vehicle gets the attribute of the demand", key="py|attr")
            else:
                c.ob(kw.get("orig_name") is P_("orig_name") and kw.get("dest_name") is P_("dest_name"), where(e), "vehicles go from the origin to the destination of the demand (C++)", key="cpp|od")
                c.ob(decide(kw.get("departure_time"), V_.mul(ts, dt)), where(e), "vehicles depart in the step in which the platoon is complete (C++)", key="cpp|dep")


@rule("P19", "R2", "the C++ mode hands the demand over unchanged and marks all its vehicles")
def r2(c):
    r = get(c, "wrap", "CppWorld.adddemand")
    ev = r.calls("_add_demand")
    c.floor(len(ev), 1, "demands handed over")
    for e in ev:
        a = list(e.args) + [None] * 7
        c.ob(not e.g, where(e), "every demand is handed over", key="wrap|always")
        for i, n in ((1, "orig"), (2, "dest")):
            c.ob(P_(n) in set(V_.walk(a[i])) and not any(P_(m) in set(V_.walk(a[i])) for m in ("orig", "dest") if m != n), where(e), "%s of the demand" % n, key="wrap|%s" % n)
        c.ob(a[3] is P_("t_start") and a[4] is P_("t_end"), where(e), "window of the demand", key="wrap|window")
        c.ob(decide(a[5], rate(r)), where(e), "rate of the demand; found %s" % inl(a[5]), key="wrap|rate")
    c.ob(len(ev) == 1, where(ev[0]), "the demand is handed over once", key="wrap|once")
    rg = r.calls("_register_new_cpp_vehicles")
    c.ob(bool(rg) and not rg[0].g and all(x.seq > ev[0].seq for x in rg), head(r), "new vehicles are registered", key="wrap|reg")
    st = [e for e in r.fsets("attribute")]
    c.floor(len(st), 1, "attribute of new vehicles")
    for e in st:
        c.ob(e.value is P_("attribute"), where(e), "the attribute is passed on", key="wrap|attr")
        g = V_.and_(list(e.g))
        c.ob(implied([V_.not_(V_.eq(P_("attribute"), NONE))], g), where(e), "whenever one is given", key="wrap|attrwhen")
        b = e.loc.a[0]
        src = b.a[0] if b.kind == "elem" else None
        ok = None
        if src is not None and src.kind == "i" and src.a[1].kind == "slice":
            ok = src.a[1].a[1] is NONE and "vehicle_count" in V_.show(src.a[1].a[0]) and "_veh_by_index" in V_.show(src.a[0])
        c.ob(ok, where(e), "all vehicles of this demand, and no others", key="wrap|attrall")
    r = get(c, "wrap", "CppWorld.addVehicle")
    ev = r.calls("_add_demand")
    c.floor(len(ev), 1, "single vehicles")
    dt, dn = r.spec("s.DELTAT"), r.spec("s.DELTAN")
    for e in ev:
        a = list(e.args) + [None] * 7
        if a[5] is None:
            continue
        span = V_.num(V_.sub(V_.div(a[4], dt), V_.div(a[3], dt)))
        c.ob(span == 1, where(e), "a single vehicle is created in exactly one step", key="wrap|vehspan")
        amount = V_.num(V_.div(V_.mul(a[5], dt), dn))
        c.ob(amount is not None and 1 < amount < 2, where(e), "exactly one platoon is created" + (": the amount is exactly one platoon, which rounding may miss" if amount == 1 else ""), key="wrap|veh1")
        st = V_.div(a[3], dt)
        dep = [x for x in V_.walk(st) if isinstance(x, V) and (x.kind == "int" or x.kind == "call" and x.a[0] == "int")]
        off = None
        for x in V_.walk(st):
            if x.kind == "poly" and x is st:
                cs = [k for m, k in x.a[0] if not m]
                off = cs[0] if cs else 0
        c.ob(off is not None and 0 < off < 1, where(e), "the vehicle departs in the step of the given time" + (": the time is the very start of a step, which rounding may put into the step before" if off == 0 else ""), key="wrap|vehstep")
        c.ob(bool(dep), where(e), "the departure step is a whole number", key="wrap|vehint")


def usable(r, name, attr, area):
    """alternatives for the usable origins or destinations"""
    out = []
    for cnd in ("len(n.%s) != 0" % attr, "n.%s" % attr):
        if area:
            x, y, rad = area
            env = {x: P_(x), y: P_(y), rad: P_(rad)}
            A = "s.get_nodes_in_area(%s, %s, %s)" % (x, y, rad)
            for el in ("n", "s.get_node(n)"):
                cc = cnd.replace("n.", el + ".").replace("len(n", "len(" + el)
                L = r.spec("[%s for n in %s if %s]" % (el, A, cc), **env)
                near = mk("list", (r.spec("s.get_nearest_node(%s, %s)" % (x, y), **env),))
                empty = V_.eq(mk("call", "len", (L,), ()), ZERO)
                out.append(V_.ite(empty, near, L))
                out.append(V_.ite(empty, mk("appended", L, near.a[0][0]), L))
                out.append(V_.ite(V_.not_(V_.truthy(L)), near, L))
        else:
            cc = cnd.replace("n.", "s.get_node(n).")
            out.append(r.spec("[s.get_node(n) for n in %s if %s]" % (name, cc), **{name: P_(name)}))
    return out


AREA_O = ("x_orig", "y_orig", "radious_orig")
AREA_D = ("x_dest", "y_dest", "radious_dest")


def one_element(v, alts):
    """v runs over one of the alternatives"""
    if v is None or v.kind != "elem":
        return None
    return any_same(v.a[0], alts)


@rule("P19", "R3", "a demand between points joins the nearest nodes")
def r3(c):
    for lang, pre in MODES:
        r = get(c, lang, pre + "adddemand_point2point")
        ev = [e for e in r.calls("adddemand")]
        c.floor(len(ev), 1, "demands between points")
        for e in ev:
            k = bound(e)
            env = {n: P_(n) for n in ("x_orig", "y_orig", "x_dest", "y_dest")}
            c.ob(same(k.get("orig"), r.spec("s.get_nearest_node(x_orig, y_orig)", **env)), where(e), "origin is the node nearest to the first point", key="%s|orig" % lang)
            c.ob(same(k.get("dest"), r.spec("s.get_nearest_node(x_dest, y_dest)", **env)), where(e), "destination is the node nearest to the second point", key="%s|dest" % lang)
            for n in ("t_start", "t_end", "flow", "volume", "attribute"):
                c.ob(k.get(n) is P_(n), where(e), "%s is passed on" % n, key="%s|%s" % (lang, n))
            c.ob(not e.g, where(e), "every demand is created", key="%s|always" % lang)
        c.ob(len(ev) == 1, where(ev[0]), "one demand is created", key="%s|once" % lang)


def bound(e):
    """parameters of a call, by name where the callee is known"""
    k = dict(e.kw or ())
    names = ["orig", "dest", "t_start", "t_end", "flow", "volume", "attribute"]
    if (e.name or "").split(".")[-1] == "addVehicle":
        names = ["orig", "dest", "departure_time", "name"]
    for i, a in enumerate(e.args or ()):
        if i < len(names):
            k.setdefault(names[i], a)
    return k


@rule("P19", "R4", "a demand between several nodes is divided evenly over all pairs")
def r4(c):
    for lang, pre in MODES:
        for nm, ao, ad in (("adddemand_area2area", AREA_O, AREA_D), ("adddemand_nodes2nodes", None, None)):
            r = get(c, lang, pre + nm)
            ev = [e for e in r.calls("adddemand")]
            c.floor(len(ev), 1, "demands of %s" % nm)
            O, D = usable(r, "origs", "outlinks", ao), usable(r, "dests", "inlinks", ad)
            for e in ev:
                k = bound(e)
                o, d = k.get("orig"), k.get("dest")
                ro, rd = runs_over(r, o, O, "origs", "outlinks"), runs_over(r, d, D, "dests", "inlinks")
                c.ob(ro[0], where(e), "origins are the usable nodes; found %s" % inl(o), key="%s|%s|orig" % (lang, nm))
                c.ob(rd[0], where(e), "destinations are the usable nodes; found %s" % inl(d), key="%s|%s|dest" % (lang, nm))
                use = [x[1] for x in (ro, rd) if x[1] is not None]
                rest = [g for g in e.g if not implied(use, g)]
                c.ob(len(e.lids) == 2 and not rest and implied(list(e.g), V_.and_(use)) and no_early_exit(r, e, 0), where(e), "every pair gets its share" + ("" if not rest else "; condition %s" % inl(V_.and_(rest))), key="%s|%s|all" % (lang, nm))
                for n in ("flow", "volume"):
                    ok, msg = share(k.get(n), P_(n), ro[2], rd[2], 0 if ao else 1)
                    c.ob(ok, where(e), "%s is divided by the number of pairs%s" % (n, msg), key="%s|%s|%s" % (lang, nm, n))
                for n in ("t_start", "t_end", "attribute"):
                    c.ob(k.get(n) is P_(n), where(e), "%s is passed on" % n, key="%s|%s|%s" % (lang, nm, n))
            c.ob(len(ev) == 1, where(ev[0]), "each pair gets one demand", key="%s|%s|once" % (lang, nm))


def runs_over(r, v, alts, name, attr):
    """(v runs over one of the alternatives, extra condition of the loop, lists whose length is the number of its elements)"""
    if v is None:
        return False, None, alts
    if v.kind == "elem":
        return any_same(v.a[0], alts), None, alts
    el = r.spec("s.get_node(x)", x=mk("elem", P_(name)))
    if same(v, el):
        return True, r.spec("len(n.%s) > 0" % attr, n=el), alts
    return None, None, alts


def share(got, p, L1, L2, least):
    """got is p where p is -1 (not given), else p over the number of pairs; decided for each number of nodes"""
    if got is None:
        return False, ": not passed on"
    lists = []
    for L in (L1, L2):
        b = set()
        for x in L:
            for y in V_.walk(x):
                if isinstance(y, V) and y.kind == "comp":
                    b.add(y)
        lists.append(b)

    def at(n1, n2):
        def f(y):
            if y.kind == "call" and y.a[0] == "len" and len(y.a[1]) == 1 and y.a[1][0].kind == "comp":
                x = y.a[1][0]
                for b, n in ((lists[0], n1), (lists[1], n2)):
                    if x in b:
                        return V_.const(n)
            return None
        return V_.subst(got, f)
    given = V_.not_(V_.eq(p, V_.const(-1)))
    for n1 in range(least, 4):
        for n2 in range(least, 4):
            v = at(n1, n2)
            w = V_.div(p, V_.const(max(n1, 1) * max(n2, 1)))
            if any(isinstance(y, V) and y.kind == "call" and y.a[0] == "len" for y in V_.walk(v)):
                lost = [y for y in V_.walk(v) if isinstance(y, V) and y.kind == "call" and y.a[0] == "len"]
                both = any(len(y.a[1]) == 1 and (y.a[1][0].kind == "call" and y.a[1][0].a[0] or y.a[1][0].kind) in ("setand", "setsub", "setor") and all(V_.contains_v(y, lambda z: z.kind == "comp" and any(z.a[1:] == b.a[1:] for b in ls)) for ls in lists) for y in lost)
                return (False if both else None), "; found %s" % inl(v)
            if not (same(v, w, [given]) or same(v, w, [V_.lt(V_.neg(p))])):
                return (False if opaque_in(v, (w,)) is None else None), ": %s for %d origins and %d destinations" % (inl(under(v, [given])), n1, n2)
            if not (same(v, p, [V_.not_(given)]) or n1 * n2 <= 1):
                return False, ": not given, but passed on as %s" % inl(under(v, [V_.not_(given)]))
    return True, ""


def spec_vals(v, path=()):
    if isinstance(v, V) and v.kind == "ite":
        c = v.a[0]
        return spec_vals(v.a[1], path + tuple(V_.conj(c))) + spec_vals(v.a[2], path + tuple(V_.conj(V_.not_(c))))
    return [(v, path)]


@rule("P19", "R5", "the newer demand methods create volume over platoon size trips between different usable nodes, evenly over the window")
def r5(c):
    for lang, pre in MODES:
        for nm, ao, ad in (("adddemand_area2area2", AREA_O, AREA_D), ("adddemand_nodes2nodes2", None, None)):
            r = get(c, lang, pre + nm)
            ev = [e for e in r.calls("addVehicle")]
            c.floor(len(ev), 1, "trips of %s" % nm)
            O, D = usable(r, "origs", "outlinks", ao), usable(r, "dests", "inlinks", ad)
            env = {n: P_(n) for n in ("flow", "volume", "t_start", "t_end")}
            V1 = [r.spec("int((flow*(t_end-t_start) if flow >= 0 and volume == -1 else volume)/s.DELTAN)", **env)]
            c.ob(len(ev) == 1, where(ev[0]), "each trip is created once", key="%s|%s|once" % (lang, nm))
            for e in ev:
                k = bound(e)
                o, d, t = k.get("orig"), k.get("dest"), k.get("departure_time")
                c.ob(drawn(o, O, V1), where(e), "origins are drawn among the usable nodes; found %s" % inl(o), key="%s|%s|orig" % (lang, nm))
                c.ob(not [g for g in rel_guards(e, 0)] and len(e.lids) == 1 and no_early_exit(r, e, 0), where(e), "every trip is created", key="%s|%s|all" % (lang, nm))
                if t is not None and t.kind == "elem" and any(y.kind == "rnd" for y in V_.walk(t.a[0])):
                    c.ob(False, where(e), "departures are evenly spaced over the window, not drawn at random", key="%s|%s|even" % (lang, nm))
                bad = None
                for y in V_.walk(mk("tuple", tuple(x for x in (o, t) if x is not None))):
                    if y.kind == "rnd" and len(y.a) > 4:
                        bad = bad or count(r, dict(p for p in y.a[4] if isinstance(p, tuple) and len(p) == 2).get("size"))
                    if y.kind == "call" and y.a[0] == "np.linspace" and len(y.a[1]) == 3:
                        bad = bad or count(r, y.a[1][2])
                c.ob(bad is None, where(e), "volume over platoon size trips are created" + ("" if bad is None else ": " + bad), key="%s|%s|count" % (lang, nm))
                c.ob(None if t is None or t.kind != "elem" else any_same(t.a[0], [r.spec("np.linspace(t_start, t_end, n)", n=v, **env) for v in V1]), where(e), "departures are evenly spaced over the window, one per platoon; found %s" % inl(t), key="%s|%s|dep" % (lang, nm))
                c.ob(k.get("attribute") is P_("attribute"), where(e), "every vehicle gets the attribute of the demand", key="%s|%s|attr" % (lang, nm))
                fg = k.get("departure_time_is_time_step")
                c.ob(fg is None or V_.num(fg) == 0, where(e), "departure times are in seconds", key="%s|%s|unit" % (lang, nm))
                n = 0
                for v, path in spec_vals(d):
                    g = list(path)
                    eqs = V_.eq(o, v)
                    if v.kind == "rnd":
                        n += 1
                        src = v.a[3][0] if len(v.a) > 3 and v.a[3] else None
                        ok = None
                        others = (o,) + tuple(y for y, p2 in spec_vals(d) if y.kind != "rnd")
                        want = [r.spec("[x for x in D if x != o]", D=x, o=y) for x in D for y in others]
                        eqo = [V_.eq(o, y) for y, p2 in spec_vals(d) if y.kind != "rnd"]
                        if src is not None:
                            ok = decide_in(src, want, VOC)
                            if ok and not implied(g, V_.or_(eqo)):
                                ok = False
                        c.ob(ok, where(e), "a destination equal to the origin is replaced by another usable one", key="%s|%s|repl" % (lang, nm))
                    else:
                        c.ob(drawn(v, D, V1), where(e), "destinations are drawn among the usable nodes; found %s" % inl(v), key="%s|%s|dest" % (lang, nm))
                        c.ob(implied(g, V_.not_(eqs)), where(e), "a trip never ends where it starts", key="%s|%s|differ" % (lang, nm))


def count(r, n):
    """text if the number of trips differs from volume over platoon size for some demand"""
    if n is None:
        return None
    for vol, flow, t0, t1, dn in ((12, -1, 0, 60, 5), (10, -1, 0, 60, 5), (4, -1, 0, 60, 5), (13, -1, 30, 60, 1), (-1, 1, 0, 12, 5), (-1, 1, 10, 30, 7), (-1, 0, 0, 60, 5), (14, 0, 0, 60, 5)):
        F = Fraction
        m = Model({}, [], {P_("volume"): F(vol), P_("flow"): F(flow), P_("t_start"): F(t0), P_("t_end"): F(t1), r.spec("s.DELTAN"): F(dn)})
        try:
            got = m.ev(n)
        except (Undecided, Raises, TypeError):
            return None
        v = flow * (t1 - t0) if flow >= 0 and vol == -1 else vol
        if isinstance(got, (int, Fraction)) and got != v // dn:
            return "%s trips for a demand of %s vehicles in platoons of %s" % (got, v, dn)
    return None


def drawn(v, alts, sizes):
    if v is None or v.kind != "elem" or v.a[0].kind != "rnd":
        return None
    x = v.a[0]
    src = x.a[3][0] if len(x.a) > 3 and x.a[3] else None
    if src is None:
        return None
    kw = dict(p for p in (x.a[4] if len(x.a) > 4 else ()) if isinstance(p, tuple) and len(p) == 2)
    n = kw.get("size")
    if n is None or "p" in kw:
        return None if n is None else False
    a, b = any_same(src, alts), any_same(n, sizes)
    return False if False in (a, b) else (None if None in (a, b) else True)


@rule("P19", "R6", "nodes are found by their position")
def r6(c):
    for lang, pre in MODES:
        r = get(c, lang, pre + "get_nodes_in_area")
        env = {n: P_(n) for n in "xyr"}
        got = r.r.ret
        D2 = "(n.x-x)**2 + (n.y-y)**2"
        L = "s.NODES"
        alts = [r.spec("[n for n in %s if %s < r**2]" % (L, D2), **env), r.spec("[n for n in %s if %s <= r**2]" % (L, D2), **env)]
        c.ob(any_same(got, alts), head(r), "the nodes in an area are those within the radius; found %s" % inl(got), key="%s|area" % lang)
    r = get(c, "py", "World.get_nearest_node")
    env = {n: P_(n) for n in "xy"}
    ok = None
    for (lid, lv), (init, end, br) in r.ev.looprec.items():
        if lv.kind != "lv" or not (V_.num(init) is not None or "inf" in V_.show(init)):
            continue
        el = [x for x in V_.walk(end) if isinstance(x, V) and x.kind == "elem"]
        if not el:
            continue
        d2 = r.spec("(n.x-x)**2 + (n.y-y)**2", n=el[0], **env)
        ok = same(end, V_.ite(V_.lt(V_.sub(d2, lv)), d2, lv)) or same(end, V_.ite(V_.le(V_.sub(d2, lv)), d2, lv)) or same(end, r.spec("min(a, b)", a=d2, b=lv))
        c.ob(ok, head(r), "the nearest node has the smallest distance; found %s" % inl(end), key="py|near")
        c.ob("inf" in V_.show(init), head(r), "a node at any distance can be the nearest; the search starts with %s" % inl(init), key="py|nearinf")
    if ok is None:
        c.ob(None, head(r), "search of the nearest node not recognised", key="py|near")


@rule("P19", "R7", "a vehicle departs in the step of its departure time")
def r7(c):
    r = R(c, "py", "Vehicle.__init__")
    formula(c, r, "s.departure_time", ["departure_time if departure_time_is_time_step else int(departure_time/W.DELTAT)".replace("departure_time_is_time_step", "fl")] if False else [r.spec("d if f else int(d/W.DELTAT)", d=P_("departure_time"), f=P_("departure_time_is_time_step"))], "departure step")
    formula(c, r, "s.attribute", P_("attribute"), "attribute of a vehicle")
    for n in ("orig", "dest"):
        formula(c, r, "s." + n, [r.spec("s.W.get_node(x)", x=P_(n)), r.spec("W.get_node(x)", x=P_(n)), mk("mcall", P_("W"), "get_node", (P_(n),), ())], "%s of a vehicle" % n)
    r = R(c, "cpp", "Vehicle.Vehicle")
    formula(c, r, "s.departure_time", P_("departure_time"), "departure time (C++)")
    r = get(c, "wrap", "CppVehicle.departure_time")
    got = r.r.ret
    raw = r.spec("s._cpp_vehicle.departure_time/s.W.DELTAT")
    ok = [mk("call", "round", (raw,), ()), mk("call", "int", (mk("call", "round", (raw,), ()),), ()), r.spec("int(x + 0.5)", x=raw)]
    c.ob(True if any(same(got, x) for x in ok) else (False if same(got, r.spec("int(x)", x=raw)) else None), head(r), "departure step as in the Python mode (rounded, as the time is a whole number of steps); found %s" % inl(got), key="wrap|dep")


@rule("P19", "R8", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P19"), 1, "properties of the elements of the C++ mode")
