from .common import *

AT = {"py": "s.x_next == s.link.length", "cpp": "abs(s.x_next - s.link.length) < 1e-9"}
DEST = "s.link.end_node == s.dest"
DEAD = "len(s.link.end_node.outlinks) == 0 and s.trip_abort == 1"


@rule("P08", "R1", "a vehicle waits from the first step at or after its departure time, and only then")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.update")
        due = "s.state == 'home' and W.T >= s.departure_time" if lang == "py" else "s.state == 'home' and W.T*W.DELTAT >= s.departure_time"
        ev = [e for e in sets_at(r, r.spec("s.state")) if e.value is r.st("wait")]
        c.floor(len(ev), 1, "transitions to waiting")
        when(c, r, ev, due, "the vehicle starts waiting at its departure time")
        when(c, r, [e for e in r.muts("generation_queue", "append") if e.args and e.args[0] is r.self], due, "the vehicle joins the waiting queue of its origin at its departure time")
        for e in sets_at(r, r.spec("s.state")):
            c.ob(e.value is r.st("wait"), where(e), "the vehicle update itself only starts the waiting", key="%s|statevalue" % r.qual)


@rule("P08", "R2", "a vehicle runs from its insertion into a link until its trip end")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Node.generate")
        for e, L, v in entries(r):
            vformula(c, r, e, mk("a", v, "state"), r.st("run"), "a departing vehicle is running")
            vformula(c, r, e, mk("a", v, "link"), L, "a departing vehicle is on the link")
        r = R(c, lang, "Vehicle.end_trip")
        ab = V_.truthy(r.spec("s.flag_trip_aborted"))
        formula(c, r, "s.state", V_.ite(ab, r.st("abort"), r.st("end")), "an ended vehicle is completed, or aborted if the trip was aborted")
        owner_rule(c, lang, "Vehicle", "state", ["Vehicle.__init__", "Vehicle.Vehicle", "Vehicle.update", "Node.generate", "Vehicle.end_trip"], 3)


@rule("P08", "R3", "a vehicle at the end of its link ends the trip at its destination, aborts at a dead end, and otherwise requests the transfer - exactly one of these")
def r3(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.update")
        at = "s.state == 'run' and " + AT[lang]
        gs = []
        if lang == "py":
            gs = [V_.eq(r.spec("s.mode"), const("single_trip"))]
            home = V_.eq(r.spec("s.state"), r.st("home"))
            gs.append(V_.not_(home))
        flags = [e for e in sets_at(r, r.spec("s.flag_waiting_for_trip_end")) if V_.truthy(e.value) is TRUE]
        c.floor(len(flags), 1, "trip-end decisions")
        end = "(%s and (%s or (%s)))" % (at, DEST, DEAD)
        when(c, r, flags, end, "the trip end is prepared at the destination or at a dead end", gs)
        when(c, r, [e for e in sets_at(r, r.spec("s.flag_trip_aborted")) if V_.truthy(e.value) is TRUE], "%s and not (%s) and (%s)" % (at, DEST, DEAD), "the trip is aborted at a dead end that is not the destination", gs)
        req = [e for e in (r.muts("incoming_vehicles", "append") if lang == "py" else r.muts("arrived_vehicles", "append")) if e.args and e.args[0] is r.self]
        when(c, r, req, "%s and not (%s) and not (%s)" % (at, DEST, DEAD), "the transfer is requested otherwise", gs)
        for e in req:
            b = base_of(root(e.loc))
            w = r.spec("s.link.end_node" if lang == "py" else "s.link")
            c.ob(b is w, where(e), "the transfer is requested at the end of the current link", key="%s|reqnode" % r.qual)
        ends = [e for e in r.calls("end_trip") if e.recv is r.self]
        first = "s.link.vehicles[0] == s"
        when(c, r, ends, "%s and %s" % (end, first), "the trip ends at once when the vehicle is first in its link", gs)
        ch = [e for e in r.calls("route_next_link_choice")]
        ok = all(any(x.seq < e.seq and covers(e, [x]) for x in ch) for e in req)
        c.ob(ok, head(r), "the next link is chosen before the transfer is requested", key="%s|choice" % r.qual)
        if lang == "py":
            # (a taxi whose next destination is this node again stays where it is: P14)
            again = V_.not_(r.spec("s.link.end_node == (s.dest_list[0] if len(s.dest_list) > 0 else None)"))
            gs = [V_.eq(r.spec("s.mode"), const("taxi")), V_.not_(home), again]
            when(c, r, req, "%s and (%s or not (%s))" % (at, DEST, DEAD), "a taxi always continues at its destination", gs, key="taxi")


@rule("P08", "R4", "arrival time and travel time are recorded at trip end; aborted trips get -1")
def r4(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.end_trip")
        ab = V_.truthy(r.spec("s.flag_trip_aborted"))
        arr = "W.T" if lang == "py" else "W.T*W.DELTAT"
        tt = "(W.T - s.departure_time)*W.DELTAT" if lang == "py" else "W.T*W.DELTAT - s.departure_time"
        formula(c, r, "s.arrival_time", V_.ite(ab, const(-1), r.spec(arr)), "arrival time of the ended vehicle")
        formula(c, r, "s.travel_time", V_.ite(ab, const(-1), r.spec(tt)), "travel time of the ended vehicle")
        for f in ("arrival_time", "travel_time"):
            owner_rule(c, lang, "Vehicle", f, ["Vehicle.__init__", "Vehicle.Vehicle", "Vehicle.end_trip"], 2)


@rule("P08", "R5", "the registries of running and unfinished vehicles are updated with every departure and trip end")
def r5(c):
    r = R(c, "py", "Node.generate")
    for e, L, v in entries(r):
        reg = [p for p in r.isets("VEHICLES_RUNNING") if p.value is v and p.loc.a[1] is mk("a", v, "name")]
        c.ob(covers(e, reg), where(e), "a departing vehicle is registered as running", key="run+")
    r = R(c, "py", "Vehicle.end_trip")
    for f in ("VEHICLES_RUNNING", "VEHICLES_LIVING"):
        rm = [p for p in r.muts(f) if p.name in ("pop", "del", "popleft", "remove", "erase") and not p.g and p.args and p.args[0] is r.spec("s.name")]
        c.ob(len(rm) == 1, head(r), "an ended vehicle is removed from %s" % f, key="end|" + f)
    r = R(c, "py", "Vehicle.__init__")
    for f in ("VEHICLES", "VEHICLES_LIVING"):
        add = [p for p in r.isets(f) if p.value is r.self]
        c.ob(bool(add) and implied(list(r.r.st.g), happens(add)), head(r), "a new vehicle is registered in %s" % f, key="new|" + f)
    for f, al in (("VEHICLES_RUNNING", ["World.__init__", "Node.generate", "Vehicle.end_trip"]), ("VEHICLES_LIVING", ["World.__init__", "Vehicle.__init__", "Vehicle.end_trip"]), ("VEHICLES", ["World.__init__", "Vehicle.__init__"])):
        owner_rule(c, "py", "World", f, al, 2)
    g = R(c, "cpp", "Node.generate")
    for e, L, v in entries(g):
        reg = [p for p in g.muts("running_gen_buf", "append") if p.args and p.args[0] is v]
        c.ob(covers(e, reg), where(e), "a departing vehicle is registered as running (C++)", key="cpp run+")
    t = R(c, "cpp", "Vehicle.end_trip")
    rm = [p for p in t.muts("ended_buf", "append") if not p.g and p.args and p.args[0] is t.self]
    c.ob(len(rm) == 1, head(t), "an ended vehicle is registered as ended (C++)", key="cpp end")
    m = R(c, "cpp", "World.exec_simulation")
    for buf, reg, op in (("running_gen_buf", "VEHICLES_RUNNING", "set"), ("ended_buf", "VEHICLES_RUNNING", "mut"), ("ended_buf", "VEHICLES_LIVING", "mut")):
        if op == "set":
            ev = [e for e in m.isets(reg) if src_field(e.value) == buf]
        else:
            ev = [e for e in m.muts(reg) if e.name in ("erase", "pop", "del") and e.args and src_field(e.args[0]) == buf]
        ok = bool(ev) and any(not inner(e) for e in ev)
        c.ob(ok, where(ev[0]) if ev else head(m), "every entry of %s is replayed into %s each step" % (buf, m.nm(reg)), key="cpp|%s|%s" % (buf, reg))
        cl = [e for e in m.muts(buf, "clear")]
        c.ob(bool(cl) and all(x.seq > e.seq for x in cl for e in ev), head(m), "%s is emptied after the replay" % buf, key="cpp clear|%s|%s" % (buf, reg))
    a = [e for e in m.isets("VEHICLES_RUNNING")]
    b = [e for e in m.muts("VEHICLES_RUNNING") if e.name in ("erase", "pop", "del")]
    c.ob(bool(a) and bool(b) and max(e.seq for e in a) < min(e.seq for e in b), head(m), "departures are replayed before trip ends", key="cpp order")


def src_field(v):
    for x in V_.walk(v):
        if x.kind == "elem" and len(x.a) == 1 and x.a[0].kind == "a":
            return x.a[0].a[1]
    return None


def inner(e):
    return [g for g in rel_guards(e, 0)]


@rule("P08", "R6", "C++: every vehicle still at home is scheduled for its departure step")
def r6(c):
    m = R(c, "cpp", "World.exec_simulation")
    ev = [e for e in m.muts("departure_buckets", "append")]
    ev += [e for e in m.events if e.kind == "mut" and e.name == "append" and "departure_buckets" in V_.show(e.loc)[:400] and e not in ev]
    c.floor(len(ev), 1, "departure schedule insertions")
    for e in ev:
        v = e.args[0]
        ok = v is m.spec("W.VEHICLES[0]") or (v.kind == "elem" and field_of(v.a[0]) == "vehicles" and is_world(base_of(v.a[0]), m))
        c.ob(ok, where(e), "all vehicles of the world are considered", key="cpp bucket|iter")
        idx = root_index(e.loc)
        g = rel_guards(e, 0)
        want = [V_.eq(mk("a", v, "state"), m.st("home"))]
        rest = [x for x in g if x not in want]
        okg = want[0] in g and (idx is None or all(implied([V_.lt(V_.sub(idx, m.spec("W.TSIZE")))], x) for x in rest))
        c.ob(okg, where(e), "exactly the vehicles at home with a departure step inside the simulation are scheduled" + ("" if okg else ", found condition %s" % inl(V_.and_(g))), key="cpp bucket|cond")
        if idx is not None:
            ok = V_.mx([idx, m.spec("W.T")]) is idx or implied([], V_.le(V_.sub(m.spec("W.T"), idx)))
            c.ob(ok, where(e), "overdue vehicles depart in the first step", key="cpp bucket|clamp")
            dep = mk("a", v, "departure_time")
            d = differs(idx, [{dep: t, m.spec("W.DELTAT"): 5, m.spec("W.T"): 0} for t in (0, 1, 4, 5, 6, 12, 20)], lambda env: -(-env[dep] // 5))
            c.ob(d is None, where(e), "the departure step is the first one at or after the departure time" + ("" if d is None else ": step %s for departure at %s s and steps of 5 s" % (d[1], d[0][dep])), key="cpp bucket|step")
    up = [e for e in m.calls("update") if e.recv is not None and "departure_buckets" in V_.show(e.recv)[:600]]
    c.ob(bool(up), head(m), "scheduled vehicles are updated in their departure step", key="cpp bucket|use")


def root_index(loc):
    return loc.a[1] if loc.kind == "i" else None


@rule("P08", "R7", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P08"), 1, "properties of the elements of the C++ mode")
