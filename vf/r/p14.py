from .common import *


def route_index(lang):
    return "len(s.log_t_link) - 1" if lang == "py" else "s._traveled_link_count"


def given(lang, r, who=None):
    s = who if who is not None else r.self
    if lang == "py":
        return V_.not_(V_.eq(r.spec("v.specified_route", v=s), NONE))
    return V_.truthy(mk("call", "len", (r.spec("v.specified_route", v=s),), ()))


def outs(lang, r):
    return r.spec("s.link.end_node.outlinks") if lang == "py" else mk("p", "linkset")


def specialise(v, gs, path=()):
    """alternatives of a gated value: [(value, conditions)]"""
    if isinstance(v, V) and v.kind == "ite":
        c = v.a[0]
        return specialise(v.a[1], gs, path + tuple(V_.conj(c))) + specialise(v.a[2], gs, path + tuple(V_.conj(V_.not_(c))))
    return [(v, path)]


@rule("P14", "R1", "every next link is one of the links leaving the node at which the vehicle arrives")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.route_next_link_choice")
        ev = sets_at(r, r.spec("s.route_next_link"))
        n = 0
        for e in ev:
            for v, path in specialise(e.value, e.g):
                if v is NONE:
                    continue
                n += 1
                g = list(e.g) + list(path)
                ok = implied_by_origin(g, v, V_.contains(outs(lang, r), v))
                if not ok and lang == "py":
                    ok = implied_by_origin(g, v, V_.contains(mk("mcall", outs(lang, r), "values", (), ()), v))
                c.ob(ok, where(e), "the next link leaves the node" + ("" if ok else ": %s need not" % inl(v)), key="%s|outlink" % r.qual)
        c.floor(n, 2, "chosen links (%s)" % lang)
    r = R(c, "cpp", "Vehicle.update")
    ch = [e for e in r.calls("route_next_link_choice") if e.recv is r.self]
    c.floor(len(ch), 1, "route choices of moving vehicles")
    for e in ch:
        c.ob(same(e.args[0], r.spec("s.link.end_node.outlinks")), where(e), "a moving vehicle chooses among the links leaving the end of its link", key="cpp|linkset")


@rule("P14", "R2", "a vehicle with a specified route takes its next link in order, and an inconsistent route raises an error")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.route_next_link_choice")
        sp = given(lang, r)
        nxt = r.spec("s.specified_route[%s]" % route_index(lang))
        o = outs(lang, r)
        some = V_.truthy(mk("call", "len", (o,), ()))
        n = 0
        for e in sets_at(r, r.spec("s.route_next_link")):
            if contradict(list(e.g) + [sp]):
                continue
            for v, path in specialise(e.value, e.g):
                g = list(e.g) + list(path) + [sp]
                if contradict(g):
                    continue
                if v is NONE:
                    ok = implied(g, V_.not_(some))
                    c.ob(ok, where(e), "a specified route is followed wherever a link leaves the node", key="%s|none" % r.qual)
                    continue
                n += 1
                ok = decide(v, nxt, g)
                c.ob(ok, where(e), "the next link is the one of the specified route that follows the links travelled so far" + ("" if ok else ", found %s" % inl(v)), key="%s|next" % r.qual)
        c.floor(n, 1, "steps along specified routes (%s)" % lang)
        rs = r.raises()
        inn = V_.contains(o, nxt)
        if lang == "py":
            alt = V_.contains(mk("mcall", o, "values", (), ()), nxt)
        else:
            alt = inn
        more = FALSE if lang == "py" else V_.le(V_.sub(r.spec("len(s.specified_route)"), r.spec(route_index(lang))))
        h = happens(rs)
        ok = any(implied([sp, some, V_.not_(x), V_.not_(more)], h) for x in (inn, alt))
        c.ob(ok, head(r), "a specified link that does not leave the node raises an error", key="%s|raise" % r.qual)
        if lang == "cpp":
            c.ob(implied([sp, some, more], h), head(r), "an exhausted route raises an error", key="%s|exhausted" % r.qual)
        for e in rs:
            g = [x for x in e.g]
            if contradict(g + [sp]):
                continue
            c.ob(any(implied(g + [sp], V_.or_([V_.not_(x), more])) for x in (inn, alt)), where(e), "an error is raised only for inconsistent routes", key="%s|raiseonly" % r.qual)


@rule("P14", "R3", "the first link of a specified route is used at departure")
def r3(c):
    r = R(c, "py", "Node.generate")
    n = 0
    for e, L, v in entries(r):
        sp = given("py", r, v)
        for x, path in specialise(L, e.g):
            g = list(e.g) + list(path)
            o = r.spec("s.outlinks")
            if not contradict(g + [V_.not_(sp)]):
                gn = g + [V_.not_(sp)]
                ok = implied_by_origin(gn, x, V_.contains(o, x)) or implied_by_origin(gn, x, V_.contains(mk("mcall", o, "values", (), ()), x))
                c.ob(ok, where(e), "a departing vehicle enters a link leaving its origin", key="py|dep|outlink")
            if contradict(g + [sp]):
                continue
            n += 1
            first = r.spec("v.specified_route[0]", v=v)
            ok = implied_by_origin(g + [sp], x, V_.eq(x, first))
            c.ob(ok, where(e), "a departing vehicle with a specified route enters its first link", key="py|dep|first")
            break_ = [p for p in r.raises() if not contradict(list(p.g) + [sp])]
            c.ob(bool(break_) and all(implied(list(p.g), V_.or_([V_.not_(sp), V_.not_(V_.contains(mk("mcall", o, "values", (), ()), first)), V_.not_(V_.contains(o, first))])) for p in break_), where(e), "a first link that does not leave the origin raises an error", key="py|dep|raise")
    c.floor(n, 1, "departures with specified route")
    r = R(c, "cpp", "Node.generate")
    for e, L, v in entries(r):
        ch = [p for p in r.calls("route_next_link_choice") if p.recv is v and p.seq < e.seq]
        c.ob(covers(e, ch) and all(same(p.args[0], r.spec("s.outlinks")) for p in ch), where(e), "a departing vehicle chooses among the links leaving its origin", key="cpp|dep|outlink")
        c.ob(same(L, mk("a", v, "route_next_link")), where(e), "a departing vehicle enters the chosen link", key="cpp|dep|first")


@rule("P14", "R4", "the position in the specified route advances by one with every entered link")
def r4(c):
    for fn in ("Node.generate", "Node.transfer"):
        r = R(c, "cpp", fn)
        for e, L, v in entries(r):
            vformula(c, r, e, mk("a", v, "_traveled_link_count"), r.spec("v._traveled_link_count + 1", v=v), "one more travelled link", env={"v": v}, key="count")
    owner_rule(c, "cpp", "Vehicle", "_traveled_link_count", ["Vehicle.__init__", "Vehicle.Vehicle", "Node.generate", "Node.transfer"], 3)
    i = R(c, "cpp", "Vehicle.Vehicle")
    formula(c, i, "s._traveled_link_count", "0", "a new vehicle has travelled no link")
    r = R(c, "py", "Vehicle.record_log")
    ap = [e for e in r.muts("log_t_link", "append")]
    c.floor(len(ap), 2, "link log entries")
    run_ = [e for e in ap if e.args[0].kind == "list" and len(e.args[0].a[0]) == 2 and e.args[0].a[0][1] is r.spec("s.link")]
    when(c, r, run_, "s.link != s.link_old and s.state == 'run'", "every link a running vehicle is newly on is logged once", key="loglink")
    formula(c, r, "s.link_old", "s.link", "the last logged link is kept", gs=())
    owner_rule(c, "py", "Vehicle", "log_t_link", ["Vehicle.__init__", "Vehicle.record_log"], 2)
    owner_rule(c, "py", "Vehicle", "link_old", ["Vehicle.__init__", "Vehicle.record_log"], 2)
    i = R(c, "py", "Vehicle.__init__")
    v = i.heap("s.log_t_link")
    c.ob(v.kind == "list" and len(v.a[0]) == 1, head(i), "the link log of a new vehicle holds only the departure", key="initlog")
    u = R(c, "py", "Vehicle.update")
    lg = [e for e in u.calls("record_log") if e.recv is u.self]
    ch = u.calls("route_next_link_choice")
    c.ob(bool(lg) and any(not e.g for e in lg) and min(e.seq for e in lg) < min(e.seq for e in ch), head(u), "the current link is logged before the next one is chosen", key="logfirst")


@rule("P14", "R5", "a vehicle is moved only to the link it has chosen, and only route choice sets this link")
def r5(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        for e, L, v in entries(r):
            want = V_.eq(mk("a", v, "route_next_link"), L)
            ok = implied_by_origin(list(e.g), v, want) or implied_by_origin(list(e.g), v, V_.eq(L, mk("a", v, "route_next_link")))
            c.ob(ok, where(e), "the vehicle enters the link it has chosen", key="%s|chosen" % r.qual)
        owner_rule(c, lang, "Vehicle", "route_next_link", ["Vehicle.__init__", "Vehicle.Vehicle", "Vehicle.update", "Vehicle.route_next_link_choice"], 3)
        owner_rule(c, lang, "Vehicle", "specified_route", ["Vehicle.__init__", "Vehicle.Vehicle", "Vehicle.enforce_route"], 2 if lang == "py" else 1)


@rule("P14", "R6", "an enforced route is kept link by link in the given order, in both modes")
def r6(c):
    r = R(c, "py", "Vehicle.enforce_route")
    formula(c, r, "s.specified_route", "[W.get_link(l) for l in route]", "the route is kept", got=None, extra=(r.spec("[W.get_link(l) for l in route]"),))
    r = R(c, "cpp", "Vehicle.enforce_route")
    formula(c, r, "s.specified_route", mk("p", "route"), "the route is kept (C++)")
    r = run("wrap", "CppVehicle.enforce_route")
    c.used(r)
    cs = [e for e in r.calls("enforce_route") if e.recv is r.spec("s._cpp_vehicle")]
    c.floor(len(cs), 1, "hand-over of the route")
    for e in cs:
        v = e.args[0]
        ok = None
        if v.kind == "comp":
            el, it, cnd = v.a[1], v.a[2], v.a[3]
            ok = cnd is TRUE and el.kind == "a" and el.a[1] == "_cpp_link" and (it is mk("p", "route") or it.kind == "comp" and it.a[2] is mk("p", "route") and it.a[3] is TRUE)
        c.ob(ok, where(e), "every link of the route is handed over in order", key="wrap|route")
        c.ob(not e.g, where(e), "the route is always handed over", key="wrap|always")
    ev = sets_at(r, r.spec("s.specified_route"))
    c.floor(len(ev), 1, "kept route (wrapper)")
    for e in ev:
        formula(c, r, "s.specified_route", "[W.get_link(l) for l in route]", "the route is kept (wrapper)", extra=(r.spec("[W.get_link(l) for l in route]"),), got=e.value)


@rule("P14", "R7", "a transfer is requested only with a link chosen for it: not while the node just reached is the destination")
def r7(c):
    """Route choice leaves the next link alone when the vehicle is at its destination; a request made then would
    move the vehicle along a link it chose earlier, which need not start here."""
    rc = R(c, "py", "Vehicle.route_next_link_choice")
    here = V_.eq(rc.spec("s.link.end_node"), rc.spec("s.dest"))
    free = [e for e in sets_at(rc, rc.spec("s.route_next_link")) if e.value is not NONE and not any("specified_route" in V_.show(g) for g in e.g if g.kind == "not")]
    if free and not any(contains_neg(e.g, here) for e in free):
        return      # the choice does not depend on the destination
    r = R(c, "py", "Vehicle.update", noinline=("route_next_link_choice",))
    end = r.spec("s.link.end_node")
    req = [e for e in r.muts("incoming_vehicles", "append") if e.args and e.args[0] is r.self]
    c.floor(len(req), 1, "transfer requests")
    for e in req:
        g = [y for x in e.g for y in V_.conj(x)]
        before = [d for d in sets_at(r, r.spec("s.dest")) if d.seq < e.seq and not contradict(list(e.g) + list(d.g))]
        dests = {d.value for d in before if d.value is not NONE} or {r.spec("s.dest")}
        ok = False
        for d in dests:
            ok = any(y.kind == "not" and y.a[0].kind == "eqz" and end in set(V_.walk(y)) and d in set(V_.walk(y)) or y is V_.not_(V_.eq(end, d)) for y in g) or implied(g, V_.not_(V_.eq(end, d)))
            if not ok:
                break
        if not ok and any("route_next_link" in V_.show(y) for y in g):
            ok = None
        c.ob(ok, where(e), "the vehicle is not at its destination when it asks for its next link" + ("" if ok else ": the destination may be this node again"), key="request|%s" % ("taxi" if before else "trip"))


def contains_neg(gs, t):
    return any(V_.not_(t) is y for x in gs for y in V_.conj(x)) or implied(list(gs), V_.not_(t))


@rule("P14", "R8", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P14"), 1, "properties of the elements of the C++ mode")
