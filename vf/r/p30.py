"""Taxi requests: assigned once, picked up before dropped off, completed with both times."""
from .common import *
from ..project import AnchorMissing
from .p33 import paths, tail, callname, cargs

FILE = "TaxiHandler/TaxiHandler.py"
SELF = mk("p", "self")


def pr():
    p = P.py_mod(FILE)
    P.configure("py")
    return p


def R30(c, q):
    r = run("py", q, project=pr(), all=True)
    c.used(r)
    return r


def conj(gs):
    return [y for g in gs for y in V_.conj(g)]


def key_of(loc):
    """(vehicle, node) of an entry of node_event a term reaches into"""
    for x in V_.walk(loc):
        if x.kind == "i" and x.a[0].kind == "a" and x.a[0].a[1] == "node_event":
            return x.a[0].a[0], x.a[1]
        if x.kind in ("call", "mcall") and callname(x) in ("get", "setdefault"):
            b = x.a[0] if isinstance(x.a[0], V_.V) else None
            a = cargs(x)
            if b is not None and b.kind == "a" and b.a[1] == "node_event" and a:
                return b.a[0], a[0]
    return None


def registrations(r, method):
    """events that make a method of the request an event of a vehicle at a node: [(event, vehicle, node, request)]"""
    out = []
    objs = {}
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[1] == "node_event":
            if e.value.kind == "new":
                objs[e.value] = (e.loc.a[0].a[0], e.loc.a[1])
            if e.value.kind == "a" and e.value.a[1] == method:
                out.append((e, e.loc.a[0].a[0], e.loc.a[1], e.value.a[0]))
            elif any(x.kind == "a" and x.a[1] == method for x in V_.walk(e.value)) and e.value.kind != "new":
                q = [x for x in V_.walk(e.value) if x.kind == "a" and x.a[1] == method][0]
                out.append((e, e.loc.a[0].a[0], e.loc.a[1], q.a[0]))
        elif e.kind == "mut" and e.name in ("append", "insert", "add"):
            a = [x for x in e.args if x.kind == "a" and x.a[1] == method]
            if not a and e.value is not None and e.value.kind in ("appended", "inserted"):
                a = [x for x in e.value.a[1:] if isinstance(x, V_.V) and x.kind == "a" and x.a[1] == method]
            if a:
                k = key_of(e.loc)
                if k is None:
                    k = next((objs[x] for x in V_.walk(e.loc) if x in objs), None)
                if k is not None:
                    out.append((e, k[0], k[1], a[0].a[0]))
                else:
                    out.append((e, None, None, a[0].a[0]))
    return out


def registry(r):
    """class of the objects put into node_event, if any"""
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[1] == "node_event" and e.value.kind == "new":
            return e.value.a[0]
    return None


def pos(r, e):
    return [i for i, x in enumerate(r.events) if x is e][0]


@rule("P30", "R1", "a request is assigned once, to a vehicle that will visit its origin")
def r1(c):
    r = R30(c, "TaxiHandler.assign_taxi")
    pv, pq = [p[0] for p in r.func.params][-2:]
    veh, req = mk("p", pv), mk("p", pq)
    waiting = mk("a", SELF, "trip_requests")
    inl = mk("in", req, waiting)
    orig = mk("a", req, "orig")
    rm = [e for e in r.events if e.kind == "mut" and e.name in ("remove", "pop", "del") and e.loc is waiting]
    st = [e for e in r.events if e.kind == "set" and e.loc is waiting]
    c.ob(True if rm else (None if st else False), head(r), "an assigned request is no longer waiting", key="assign|removed")
    for e in rm:
        ok = any(x is req for x in V_.walk(e.value)) if e.value is not None else None
        c.ob(ok, where(e), "the request removed is the one assigned", key="assign|which")
    tx = [e for e in r.events if e.kind == "set" and e.loc is mk("a", req, "taxi")]
    c.ob(bool(tx) and all(e.value is veh for e in tx), head(r), "the request knows its vehicle" + ("" if tx and all(e.value is veh for e in tx) else ": %s" % [V_.show(e.value) for e in tx]), key="assign|taxi")
    ds = [e for e in r.events if e.kind == "call" and tail(e.name) in ("add_dest", "add_dests") and e.recv is veh]
    c.ob(True if ds else (None if any(e.recv is veh for e in r.events if e.kind == "call") else False), head(r), "the vehicle is sent to the origin", key="assign|sent")
    for e in ds:
        ok = bool(e.args) and e.args[0] is orig
        c.ob(True if ok else (False if e.args and e.args[0].kind == "a" else None), where(e), "the vehicle is sent to the origin of the request" + ("" if ok else ": %s" % [V_.show(a) for a in e.args]), key="assign|origin")
    rg = registrations(r, "get_on_taxi")
    c.ob(True if rg else (None if any("node_event" in V_.show(x) for e in r.events for x in ([e.loc] if e.loc is not None else [])) else False), head(r), "the pick-up is registered", key="assign|event")
    for e, v, n, q in registrations(r, "arrive_at_dest"):
        if not any("get_on_taxi" in x for x in e.stack):
            c.ob(False, where(e), "the event at the origin is the pick-up, not the drop-off", key="assign|which event")
    for e, v, n, q in rg:
        if v is None:
            c.ob(None, where(e), "place of the pick-up", key="assign|event place")
            continue
        ok = v is veh and n is orig and q is req
        c.ob(ok, where(e), "the pick-up is an event of the vehicle at the origin" + ("" if ok else ": of %s at %s" % (V_.show(v), V_.show(n))), key="assign|event place")
    for e in rm + tx + ds + [x[0] for x in rg]:
        g = conj(e.g)
        gi = any(x is inl for x in g)
        if not gi and any(x.kind == "in" for y in g for x in V_.walk(y)):
            gi = None if not any(x.kind == "in" and x.a[1] is mk("a", SELF, "trip_requests_all") for y in g for x in V_.walk(y)) else False
        c.ob(gi if gi is not False else (False if not any(e2.kind == "mut" and e2 in rm and pos(r, e2) < pos(r, e) for e2 in r.events) else None), where(e), "only a waiting request is assigned" + ("" if gi is not False else ": under %s" % [V_.show(x)[:60] for x in g]), key="assign|waiting %s" % (e.name or e.kind))
        extra = [x for x in g if x is not inl and not (x.kind == "not" and key_like(x)) and not key_like(x)]
        c.ob(True if not extra else None, where(e), "every step of an assignment is made", key="assign|always %s" % (e.name or e.kind))
    for a in rm:
        for b in tx + ds:
            ok = iff(a, [b])
            c.ob(ok, where(b), "an assignment is made completely", key="assign|complete")


def key_like(x):
    return "node_event" in V_.show(x)


@rule("P30", "R2", "a request is picked up once, and dropped off only after that")
def r2(c):
    r = R30(c, "TripRequest.get_on_taxi")
    W = mk("a", SELF, "W")
    taxi, dest, orig = mk("a", SELF, "taxi"), mk("a", SELF, "dest"), mk("a", SELF, "orig")
    times = (mk("a", W, "TIME"), V_.mul(mk("a", W, "T"), mk("a", W, "DELTAT")))
    for q, f, other in (("TripRequest.get_on_taxi", "get_taxi_time", "arrival_time"), ("TripRequest.arrive_at_dest", "arrival_time", "get_taxi_time")):
        x = R30(c, q)
        es = [e for e in x.events if e.kind == "set" and e.loc is mk("a", SELF, f)]
        c.ob(bool(es), head(x), "%s is recorded" % f, key="%s|recorded" % f)
        for e in es:
            ok = any(same(e.value, t) for t in times)
            c.ob(True if ok else (None if any(y.kind in ("call", "mcall") for y in V_.walk(e.value)) else False), where(e), "%s is the present time" % f + ("" if ok else ": " + V_.show(e.value)), key="%s|value" % f)
            g = conj(e.g)
            c.ob(True if not g else (None if any(y is mk("eq", mk("a", SELF, f), NONE) for y in g) else False), where(e), "%s is recorded at every event" % f + ("" if not g else ": only under %s" % [V_.show(y)[:60] for y in g]), key="%s|always" % f)
        bad = [e for e in x.events if e.kind == "set" and e.loc is mk("a", SELF, other)]
        c.ob(not bad, head(x), "%s is not recorded by this event" % other, key="%s|other" % f)
    rg = registrations(r, "arrive_at_dest")
    c.ob(True if rg else (None if any(e.loc is not None and "node_event" in V_.show(e.loc) and e.kind == "set" for e in r.events) else False), head(r), "the drop-off is registered at the pick-up", key="pickup|event")
    for e, v, n, q in rg:
        ok = None if v is None else (v is taxi and n is dest and q is SELF)
        c.ob(ok, where(e), "the drop-off is an event of the vehicle at the destination" + ("" if ok is not False else ": of %s at %s" % (V_.show(v), V_.show(n))), key="pickup|place")
        g = [x for x in conj(e.g) if not key_like(x)]
        c.ob(True if not g else False, where(e), "every passenger is dropped off" + ("" if not g else ": only under %s" % [V_.show(x)[:60] for x in g]), key="pickup|always")
    ds = [e for e in r.events if e.kind == "call" and tail(e.name) in ("add_dest", "add_dests") and e.recv is taxi]
    c.ob(True if ds else (None if any(e.recv is taxi for e in r.events if e.kind == "call") else False), head(r), "the vehicle is sent to the destination", key="pickup|sent")
    for e in ds:
        ok = bool(e.args) and e.args[0] is dest
        c.ob(True if ok and not conj(e.g) else (False if e.args and e.args[0].kind == "a" and not ok or conj(e.g) else None), where(e), "the vehicle is sent to the destination of its passenger" + ("" if ok else ": %s" % [V_.show(a) for a in e.args]), key="pickup|destination")
    # drop-off is registered nowhere else
    p = pr()
    for f in p.allf:
        if f.name in ("get_on_taxi",) or f.cls is None and False:
            continue
        try:
            x = R30(c, f.qual)
        except Exception:
            continue
        direct = [e for e, v, n, q in registrations(x, "arrive_at_dest") if e.func.split(".")[-1] == f.qual.split(".")[-1]]
        for e in direct:
            c.ob(False, where(e), "the drop-off is registered only when the passenger is picked up", key="pickup|only %s" % f.qual)
        for e in x.events:
            if e.kind == "call" and tail(e.name) in ("get_on_taxi", "arrive_at_dest") and e.func.split(".")[-1] == f.qual.split(".")[-1]:
                c.ob(False, where(e), "pick-up and drop-off happen only as events of the vehicle", key="pickup|direct %s" % f.qual)
            if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] in ("get_taxi_time", "arrival_time") and e.func.split(".")[-1] == f.qual.split(".")[-1]:
                okw = f.name == "__init__" and e.value is NONE or (f.name, e.loc.a[1]) in (("get_on_taxi", "get_taxi_time"), ("arrive_at_dest", "arrival_time"))
                c.ob(okw, where(e), "%s is recorded only by its event" % e.loc.a[1] + ("" if okw else ": set in %s" % f.qual), key="times|%s %s" % (f.qual, e.loc.a[1]))


@rule("P30", "R3", "events of a vehicle happen once and do not displace each other")
def r3(c):
    ra, rg = R30(c, "TaxiHandler.assign_taxi"), R30(c, "TripRequest.get_on_taxi")
    n = 0
    for r in (ra, rg):
        for e in r.events:
            if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[1] == "node_event":
                n += 1
                k = e.loc.a[1]
                ok = any(x.kind in ("in", "i", "call", "mcall") and "node_event" in V_.show(x) and any(y is k for y in V_.walk(x)) for g in e.g for x in V_.walk(g))
                if not ok:
                    ok = any(x.kind in ("i", "call", "mcall") and "node_event" in V_.show(x) for x in V_.walk(e.value))
                c.ob(ok, where(e), "an event waiting at the node is kept" + ("" if ok else ": overwritten at %s" % V_.show(k)), key="%s|kept" % r.qual)
            if e.kind == "mut" and e.name in ("del", "pop", "clear") and e.loc.kind == "a" and e.loc.a[1] == "node_event":
                pass
    c.floor(n, 1, "registrations of node events")
    # removal of the entry when it is triggered
    cls = registry(ra) or registry(rg)
    if cls is not None:
        try:
            x = R30(c, "%s.__call__" % cls)
        except AnchorMissing:
            c.ob(False, head(ra), "the events of a node can be triggered", key="trigger")
            return
        rm = [e for e in x.events if e.kind == "mut" and e.name in ("del", "pop", "keydel") and e.loc.kind == "a" and e.loc.a[1] == "node_event"]
        rm += [e for e in x.events if e.kind == "call" and tail(e.name) == "pop" and e.recv is not None and e.recv.kind == "a" and e.recv.a[1] == "node_event"]
        calls = [e for e in x.events if e.kind == "call" and e.recv is not None and e.recv.kind in ("elem", "i", "lv") and not tail(e.name) in ("pop",)]
        c.ob(True if rm else False, head(x), "a triggered event does not wait at the node any more", key="trigger|removed")
        for e in rm:
            v = e.value if e.value is not None else (e.args[0] if e.args else None)
            okn = v is not None and any(y.kind == "a" and y.a[0] is SELF and y.a[1] == "node" for y in V_.walk(v))
            c.ob(True if okn else None, where(e), "the entry removed is that of the node", key="trigger|which")
            for y in calls:
                c.ob(pos(x, e) < pos(x, y), where(y), "the entry is removed before its events happen, which may add new ones", key="trigger|order")
            c.ob(not conj(e.g), where(e), "the entry is removed whenever it is triggered", key="trigger|always")
        c.ob(True if calls else None, head(x), "the events of a node happen", key="trigger|calls")
        for y in calls:
            okl = bool(y.loops) and y.loops[-1].kind == "a" and y.recv.kind == "elem" and y.recv.a[0] is y.loops[-1] and not conj(y.g)
            sl = any(z.kind in ("slice",) for z in V_.walk(y.loops[-1])) if y.loops else True
            c.ob(True if okl else (False if not y.loops or sl or conj(y.g) else None), where(y), "all events waiting at the node happen", key="trigger|all")
        return
    for q, k in (("TripRequest.get_on_taxi", "orig"), ("TripRequest.arrive_at_dest", "dest")):
        x = R30(c, q)
        rm = [e for e in x.events if e.kind == "mut" and e.name in ("del", "pop") and e.loc.kind == "a" and e.loc.a[1] == "node_event"]
        rm += [e for e in x.events if e.kind == "call" and tail(e.name) == "pop" and e.recv is not None and e.recv.kind == "a" and e.recv.a[1] == "node_event"]
        c.ob(True if rm else False, head(x), "a triggered event does not wait at the node any more", key="%s|removed" % q)
        for e in rm:
            okn = any(y is mk("a", SELF, k) for t in ([e.value] if e.value is not None else []) + list(e.args or ()) for y in V_.walk(t))
            c.ob(okn, where(e), "the entry removed is that of the event", key="%s|which" % q)
            for y in x.events:
                if y.kind == "set" and y.loc.kind == "i" and y.loc.a[0].kind == "a" and y.loc.a[0].a[1] == "node_event":
                    c.ob(pos(x, e) < pos(x, y), where(y), "the entry is removed before the next event is registered, maybe at the same node", key="%s|order" % q)


@rule("P30", "R4", "a vehicle triggers its events on arrival and works through its destinations")
def r4(c):
    r = run("py", "Vehicle.update")
    c.used(r)
    s = mk("p", "self")
    node = mk("a", mk("a", s, "link"), "end_node")
    call = [e for e in r.events if e.kind == "call" and e.recv is not None and e.recv.kind == "i" and e.recv.a[0].kind == "a" and e.recv.a[0].a[1] == "node_event"]
    if not call:
        call = [e for e in r.events if e.kind == "call" and e.recv is not None and "node_event" in V_.show(e.recv) and not tail(e.name) in ("get", "keys", "items")]
    c.ob(True if call else (None if any("node_event" in V_.show(e.recv) for e in r.events if e.kind == "call" and e.recv is not None) else False), head(r), "events at nodes are triggered", key="update|triggered")
    dest = mk("a", s, "dest")
    for e in call:
        ok = e.recv.kind == "i" and e.recv.a[1] is node
        c.ob(True if ok else (False if e.recv.kind == "i" and e.recv.a[1].kind == "a" else None), where(e), "the event triggered is that of the node reached" + ("" if ok else ": " + V_.show(e.recv)[-60:]), key="update|node")
        extra = []
        for g in conj(e.g):
            t = V_.show(g)
            if g.kind in ("eq", "eqz", "le") and "length" in t and ".x" in t or "node_event" in t or "state" in t or g.kind == "not" and "node_event" in t:
                continue
            if g.kind in ("eq", "eqz") and any(x is node for x in V_.walk(g)) and any(x is dest for x in V_.walk(g)):
                continue
            extra.append(g)
        bad = [g for g in extra if any(x.kind == "a" and x.a[1] in ("dest_list", "dest", "mode", "follower", "leader", "vehicles", "flag_waiting_for_trip_end") for x in V_.walk(g))]
        c.ob(False if bad else (None if extra else True), where(e), "the event of a node reached is triggered" + ("" if not bad else ": only under %s" % [V_.show(g)[:80] for g in bad]), key="update|when")
    dl = mk("a", s, "dest_list")
    sets = [e for e in r.events if e.kind == "set" and e.loc is dest]
    c.floor(len(sets), 1, "changes of destination in Vehicle.update")
    for e in sets:
        g = conj(e.g)
        reached = any(x.kind in ("eq", "eqz") and any(y is node for y in V_.walk(x)) and any(y is dest for y in V_.walk(x)) for x in g)
        c.ob(True if reached else (False if not any(x.kind in ("call", "mcall") for y in g for x in V_.walk(y)) else None), where(e), "the destination changes when it has been reached" + ("" if reached else ": under %s" % [V_.show(x)[:50] for x in g[-3:]]), key="update|reached")
        for gg, v in paths(e.value):
            gs = g + conj(gg)
            if v is NONE:
                emp = any(x.kind in ("le", "lt", "eq", "eqz", "not") and any(y is dl for y in V_.walk(x)) for x in gs)
                ok = emp and empty_guard(gs, dl)
                c.ob(True if ok else (None if emp and ok is None else False), where(e), "a vehicle is free only when it has no destination left", key="update|free")
            elif v.kind == "i" and v.a[0] is dl:
                c.ob(v.a[1] is ZERO, where(e), "destinations are served in order" + ("" if v.a[1] is ZERO else ": " + V_.show(v)), key="update|order")
            else:
                c.ob(None if v.kind in ("call", "mcall", "rec", "lv") else False, where(e), "the next destination is the first of the list: %s" % V_.show(v)[:60], key="update|next")
    freed = [e for e in sets if any(v is NONE for _, v in paths(e.value))]
    c.ob(True if freed else (None if any(x.kind in ("call", "mcall", "rec", "lv") for e in sets for x in V_.walk(e.value)) else False), head(r), "a vehicle that has served all its destinations is free", key="update|freed")
    pops = [e for e in r.events if e.kind == "mut" and e.loc is dl]
    adv = [e for e in sets if any(x is dl for x in V_.walk(e.value))]
    for e in adv:
        c.ob(True if any(iff(e, [p]) and p.name in ("popleft", "pop", "del") for p in pops) else (None if pops or any(x.kind == "set" and x.loc is dl and x.value.kind != "list" for x in r.events) else False), where(e), "a destination taken up leaves the list", key="update|popped")
    for p in pops:
        c.ob(p.name in ("popleft", "del", "pop"), where(p), "only the first destination leaves the list" + ("" if p.name in ("popleft", "del", "pop") else ": " + p.name), key="update|first")
        c.ob(True if any(iff(p, [e]) for e in adv) else None, where(p), "a destination leaving the list is taken up", key="update|taken")
    for e in r.events:
        if e.kind == "set" and e.loc is dl:
            ok = e.value.kind == "list" and empty_guard(conj(e.g), dl)
            c.ob(True if ok else (None if e.value.kind != "list" else False), where(e), "the list of destinations is emptied only when it is empty", key="update|emptied")
    # the events happen while the destination reached is still current or with the list complete
    ra = run("py", "Vehicle.add_dest")
    c.used(ra)
    d = [e for e in ra.events if e.kind == "set" and e.loc is dest]
    m = [e for e in ra.events if e.kind == "mut" and e.loc is dl]
    newd = None
    for e in d:
        free = any(x.kind == "eq" and any(y is dest for y in x.a) and any(y is NONE for y in x.a) for x in conj(e.g))
        c.ob(True if free else False, where(e), "a new destination replaces the present one only if there is none" + ("" if free else ": under %s" % [V_.show(x)[:60] for x in conj(e.g)]), key="add|replace")
        okv = any(x.kind == "p" and x.a[0] == ra.func.params[1][0] for x in V_.walk(e.value))
        c.ob(okv, where(e), "the destination set is the one given", key="add|value")
        newd = e.value
    c.ob(bool(d), head(ra), "a free vehicle takes up a new destination", key="add|free")
    c.ob(bool(m), head(ra), "a new destination of a busy vehicle is put on its list", key="add|busy")
    for e in m:
        c.ob(e.name in ("append", "insert", "extend"), where(e), "adding a destination removes none" + ("" if e.name in ("append", "insert", "extend") else ": " + e.name), key="add|kept")
    # every busy path adds it: the union of the guards covers "taxi and dest is not None"
    gs = [[x for x in conj(e.g)] for e in m]
    alone = [g for g in gs if all(x.kind == "not" and any(y is dest for y in V_.walk(x)) or "mode" in V_.show(x) for x in g)]
    pair = any(any(neg(x) is y or neg(y) is x for x in a for y in b) for a in gs for b in gs)
    c.ob(True if alone or pair else (None if len(m) != 1 else False), head(ra), "a new destination is always kept" + ("" if alone or pair or len(m) != 1 else ": only under %s" % [V_.show(x)[:50] for x in gs[0]]), key="add|always")


def neg(x):
    return x.a[0] if x.kind == "not" else mk("not", x)


def empty_guard(gs, dl):
    """whether the guards say that the list is empty (None: not decided)"""
    n = mk("len", dl)
    res = None
    for g in gs:
        t = V_.show(g)
        if not any(x is dl for x in V_.walk(g)):
            continue
        if g.kind in ("le", "lt") and g.a[0].kind in ("len", "poly", "call"):
            p = g.a[0]
            if p.kind == "poly":
                co = [c0 for m, c0 in p.a[0] if len(m) == 1 and any(x is dl for x in V_.walk(m[0][0]))]
                res = bool(co) and co[0] > 0
            else:
                res = True
            if res:
                return True
        elif g.kind in ("eqz",) or g.kind == "eq" and any(x is ZERO or x.kind == "list" for x in g.a):
            return True
        elif g.kind == "not" and g.a[0].kind in ("truthy",):
            return True
        elif g.kind == "truthy" or g.kind == "not":
            res = False
    return res


HANDLERS = ("TaxiHandler_random", "TaxiHandler_nearest", "TaxiHandler_nearest_matching_radious")


@rule("P30", "R5", "requests go to free taxis, one at a time, and not before their departure")
def r5(c):
    n = 0
    for h in HANDLERS:
        q = h + ".assign_trip_request_to_taxi"
        r = R30(c, q)
        asg = [e for e in r.events if e.kind == "call" and tail(e.name) == "assign_taxi"]
        c.floor(len(asg), 1, "assignments in %s" % q)
        for e in asg:
            n += 1
            if len(e.args) + len(e.kw) < 2:
                c.ob(None, where(e), "arguments of an assignment", key="%s|args" % h)
                continue
            kw = dict(e.kw)
            veh = e.args[0] if e.args else kw.get("vehicle")
            req = e.args[1] if len(e.args) > 1 else kw.get("trip_request")
            comps = [x for x in V_.walk(mk("tuple", (veh,) + tuple(e.loops) + tuple(src_inits(r, veh)))) if x.kind == "comp" and "VEHICLES" in V_.show(x)]
            conds = []
            for x in comps:
                conds += conj([y for y in x.a[3:] if isinstance(y, V_.V)])
            direct = conj(e.g)
            pool = conds + direct
            def has(attr, pred):
                xs = [x for x in pool if x.kind in ("eq", "eqz", "in", "not") and any(y.kind == "a" and y.a[1] == attr for y in V_.walk(x))]
                good = [x for x in xs if pred(x)]
                return True if good else (None if not comps and not direct or not pool else False)
            ok = has("mode", lambda x: x.kind == "eq" and any(y.kind == "c" and y.a[0] == "taxi" for y in V_.walk(x)))
            c.ob(ok, where(e), "requests are assigned to taxis", key="%s|mode" % h)
            ok = has("dest", lambda x: x.kind == "eq" and any(y is NONE for y in x.a))
            c.ob(ok, where(e), "requests are assigned to vehicles that have no destination left", key="%s|free" % h)
            ok = has("state", lambda x: x.kind == "eq" and any(y.kind == "c" and y.a[0] in ("run", "wait", "home") for y in V_.walk(x)))
            c.ob(ok, where(e), "requests are not assigned to vehicles that have ended", key="%s|state" % h)
            # the taxi leaves the list of free taxis in the same step
            names = {x.a[0] for x in V_.walk(veh) if x.kind == "lv"}
            rm = [x for x in r.events if x.kind == "mut" and x.name in ("remove", "poplast", "pop", "popleft", "del") and x.loc is not None and "vacant" in V_.show(x.loc) or x.kind == "mut" and x.name in ("remove", "poplast", "pop", "popleft") and x.loops == e.loops and x.loc is not None and x.loc.kind in ("local", "lv")]
            okr = [x for x in rm if x.loops == e.loops and (not conj(x.g) or iff(e, [x]) or implied(e, x))]
            wrong = [x for x in okr if x.name == "remove" and x.value is not None and x.value.kind == "removed" and not same(x.value.a[-1], veh)
                     or x.name != "remove" and not any(y.kind == "i" and y.a[0].kind == "lv" for y in V_.walk(veh) if y is veh)]
            for x in wrong:
                c.ob(False, where(x), "the taxi taken from the free ones is the one given the request: %s" % x.name, key="%s|same taxi" % h)
            # (one taxi per turn of the loop, the taxi being the element of that turn: decided by R20's model)
            each = bool(e.loops) and any(x.kind == "elem" for x in V_.walk(veh))
            c.ob(True if okr else (False if not rm and not each else None), where(e), "a taxi is given one request at a time", key="%s|once" % h)
            # departure
            late = [x for x in direct if x.kind in ("le", "lt") and any(y.kind == "a" and y.a[1] == "depart_time" and y.a[0] is req for y in V_.walk(x))]
            ok = None
            for x in late:
                p = x.a[0]
                if p.kind == "poly":
                    co = {m[0][0]: k for m, k in p.a[0] if len(m) == 1}
                    dt = [k for t, k in co.items() if t.kind == "a" and t.a[1] == "depart_time"]
                    ok = bool(dt) and dt[0] > 0
                    now = any(y.kind == "a" and y.a[1] in ("TIME", "T") for y in co)
                    if ok and not now:
                        ok = False if all(y.kind in ("a", "c") for y in co) else None
            if not late and not any(y.kind == "a" and y.a[1] == "depart_time" for x in pool + list(e.loops) for y in V_.walk(x)):
                ok = False
            c.ob(ok, where(e), "a request is not served before its departure" + ("" if ok is not False else ": under %s" % [V_.show(x)[:60] for x in late]), key="%s|departure" % h)
            okq = any(x.kind == "a" and x.a[1] == "trip_requests" for x in V_.walk(req))
            oka = any(x.kind == "a" and x.a[1] == "trip_requests_all" for x in V_.walk(req))
            c.ob(True if okq else (False if oka else None), where(e), "the requests assigned are the waiting ones", key="%s|waiting" % h)
    c.floor(n, 2, "assignments of the handlers")


def src_inits(r, v):
    out = []
    for x in V_.walk(v):
        if x.kind == "lv":
            out += [w[0] for k, w in r.ev.looprec.items() if k[1].a[0] == x.a[0]]
    return out


def implied(e, x):
    g = set(conj(e.g))
    return all(y in g for y in conj(x.g))


@rule("P30", "R6", "requests are recorded when they are made and leave the waiting list only by assignment")
def r6(c):
    r = R30(c, "TaxiHandler.add_trip_request")
    pn = [p[0] for p in r.func.params]
    ap = {f: [e for e in r.events if e.kind == "mut" and e.name in ("append", "insert", "add") and e.loc is mk("a", SELF, f)] for f in ("trip_requests", "trip_requests_all")}
    objs = []
    for f, es in ap.items():
        c.ob(True if len(es) == 1 else (False if not es or len(es) > 1 else None), head(r), "a request made is recorded once in %s" % f, key="add|%s" % f)
        for e in es:
            c.ob(not conj(e.g), where(e), "every request is recorded in %s" % f, key="add|%s always" % f)
            x = e.value.a[-1] if e.value is not None and e.value.kind == "appended" else (e.args[-1] if e.args else None)
            if x is not None and x.kind == "i" and x.a[0].kind == "appended" and x.a[1] is not const(-1):
                c.ob(False if x.a[1].kind in ("c", "poly") else None, where(e), "the request recorded is the new one: %s" % V_.show(x)[:80], key="add|%s new" % f)
            elif x is not None and x.kind == "i" and x.a[0] is mk("a", SELF, "trip_requests"):
                okn = x.a[1] is const(-1) or same(x.a[1], const(-1))
                c.ob(True if okn else False, where(e), "the request recorded is the new one" + ("" if okn else ": %s" % V_.show(x)), key="add|%s new" % f)
            o = [y for y in V_.walk(x) if y.kind == "new" and "TripRequest" in str(y.a[0])] if x is not None else []
            objs.append(o[-1] if o else None)
    if len(objs) == 2:
        ok = objs[0] is not None and objs[0] is objs[1]
        c.ob(True if ok else (False if all(objs) else None), head(r), "both lists hold the same request", key="add|same")
    new = [e for e in r.events if e.kind == "new" and "TripRequest" in str(e.name)]
    c.floor(len(new), 1, "requests created in add_trip_request")
    for f in ("orig", "dest", "depart_time", "attribute"):
        es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == f and e.loc.a[0].kind == "new"]
        for e in es:
            par = [x.a[0] for x in V_.walk(e.value) if x.kind == "p" and x.a[0] not in ("self",)]
            ok = par == [f] or set(par) == {f}
            c.ob(True if ok else (False if par or e.value.kind == "c" else None), where(e), "%s of a request is the one given" % f + ("" if ok else ": " + V_.show(e.value)[:60]), key="add|field %s" % f)
        c.ob(bool(es), head(r), "%s of a request is kept" % f, key="add|has %s" % f)
    for f in ("taxi", "get_taxi_time", "arrival_time"):
        es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == f and e.loc.a[0].kind == "new"]
        ok = bool(es) and all(e.value is NONE for e in es)
        c.ob(True if ok else False, head(r), "a new request is waiting: %s is nothing" % f, key="add|start %s" % f)
    nm = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "name" and e.loc.a[0].kind == "new"]
    for e in nm:
        for g, v in paths(e.value):
            if v.kind == "p":
                continue
            lens = [x.a[1] for x in V_.walk(v) if x.kind == "a" and x.a[1] in ("trip_requests", "trip_requests_all")]
            ok = None if not lens else "trip_requests_all" in lens and "trip_requests" not in lens
            c.ob(ok, where(e), "the name given by default is that of no other request" + ("" if ok is not False else ": " + V_.show(v)), key="add|name")
    # ownership
    p = pr()
    for f in p.allf:
        try:
            x = R30(c, f.qual)
        except Exception:
            continue
        me = f.qual.split(".")[-1]
        for e in x.events:
            if e.func.split(".")[-1] != me or e.loc is None:
                continue
            lst = e.loc.kind == "a" and e.loc.a[1] in ("trip_requests", "trip_requests_all")
            if not lst:
                continue
            if e.kind == "set":
                ok = f.name == "__init__" and e.value.kind == "list"
                c.ob(True if ok else (None if e.value.kind in ("comp", "call", "mcall") else False), where(e), "the lists of requests are not replaced", key="own|%s" % f.qual)
            elif e.kind == "mut" and e.name not in ("append", "insert"):
                ok = e.loc.a[1] == "trip_requests" and any(y.kind == "set" and y.loc.kind == "a" and y.loc.a[1] == "taxi" for y in x.events)
                c.ob(ok, where(e), "a request leaves the waiting list only by assignment" + ("" if ok else ": %s of %s" % (e.name, e.loc.a[1])), key="own|%s %s" % (f.qual, e.name))


def appended_to(e):
    """the field of the receiver of this append, from the call in the source"""
    import ast
    for n in ast.walk(ast.parse(open(e.file).read())):
        if isinstance(n, ast.Call) and n.lineno == e.line and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Attribute):
            return n.func.value.attr
    return None


@rule("P30", "R7", "the statistics of the requests are those recorded")
def r7(c):
    r = R30(c, "TaxiHandler.compute_stats")
    tr = mk("elem", mk("a", SELF, "trip_requests_all"))
    A = lambda f: mk("a", tr, f)
    WANT = {"waiting_times": ("get_taxi_time", V_.sub(A("get_taxi_time"), A("depart_time"))), "travel_times": ("arrival_time", V_.sub(A("arrival_time"), A("depart_time"))), "invehicle_times": ("arrival_time", V_.sub(A("arrival_time"), A("get_taxi_time")))}
    vals = {}
    for e in r.events:
        if e.kind == "mut" and e.name == "append":
            v = e.value.a[-1] if e.value is not None and e.value.kind == "appended" else (e.args[0] if e.args else None)
            vals.setdefault(v, e)
    fin = {f: r.heap("s." + f) for f in WANT}
    for f, (cond, want) in WANT.items():
        cv = [e.value.a[-1] for e in r.events if e.kind == "mut" and e.name == "append" and e.value is not None and e.value.kind == "appended" and appended_to(e) == f]
        cv = cv or ([fin[f].a[1]] if fin[f] is not None and fin[f].kind == "comp" else [])
        ok = None
        if cv:
            ok = all(same(x, want) for x in cv)
            if not ok and any(x.kind not in ("poly", "a", "c") for x in cv):
                ok = None
        c.ob(ok, head(r), "%s are the differences of the times recorded" % f + ("" if ok is not False else ": %s" % [V_.show(x) for x in cv]), key="stats|%s" % f)
        for x in cv:
            e = vals.get(x)
            if e is None:
                continue
            g = conj(e.g)
            okg = any(y.kind == "not" and y.a[0].kind == "eq" and A(cond) in y.a[0].a for y in g)
            extra = [y for y in g if not (y.kind == "not" and y.a[0].kind == "eq" and any(z is NONE for z in y.a[0].a))]
            alt = any(y.kind == "not" and y.a[0].kind == "eq" and A("arrival_time" if cond == "get_taxi_time" else "get_taxi_time") in y.a[0].a for y in g)
            c.ob(True if okg and not extra and not (alt and cond == "get_taxi_time") else (False if alt or not g or extra else None), where(e), "%s cover the requests concerned" % f + ("" if okg else ": under %s" % [V_.show(y)[:60] for y in g]), key="stats|%s when" % f)
    dn = mk("a", mk("a", SELF, "W"), "DELTAN")
    tot = r.heap("s.n_total_requests")
    ok = same(tot, V_.mul(dn, mk("len", mk("a", SELF, "trip_requests_all")))) or V_.show(tot) in ("(self.W.DELTAN*len(self.trip_requests_all))",)
    c.ob(True if ok else (False if tot is not None and "trip_requests" in V_.show(tot) and not any(x.kind in ("comp", "sum", "rec") for x in V_.walk(tot)) else None), head(r), "all requests are counted" + ("" if ok else ": %s" % V_.show(tot)), key="stats|total")
    inc = [e for e in r.events if e.kind == "set" and e.loc is mk("a", SELF, "n_completed_requests") and e.loops]
    for e in inc:
        d = [x for x in V_.walk(e.value) if x is dn]
        g = conj(e.g)
        okg = len(g) == 1 and g[0].kind == "not" and g[0].a[0].kind == "eq" and A("arrival_time") in g[0].a[0].a
        c.ob(True if okg and d else (False if not d and e.value.kind == "poly" or g and not any(A("arrival_time") in set(V_.walk(y)) for y in g) or not g else None), where(e), "a request counts as completed when its drop-off is recorded", key="stats|completed")
    c.ob(True if inc else None, head(r), "completed requests are counted", key="stats|counted")
    # the table of trips
    r = R30(c, "TaxiHandler.trips_to_pandas")
    d = [x for e in r.events for t in list(e.args or ()) + ([e.value] if e.value is not None else []) for x in V_.walk(t) if x.kind == "dict"]
    if not d and r.r.ret is not None:
        d = [x for x in V_.walk(r.r.ret) if x.kind == "dict"]
    n = 0
    TAB = {"orig": "orig", "dest": "dest", "depart_time": "depart_time", "get_taxi_time": "get_taxi_time", "arrival_time": "arrival_time"}
    DIF = {"travel_time": ("arrival_time", "depart_time"), "waiting_time": ("get_taxi_time", "depart_time")}
    for k, v in ((k, v) for x in d[-1:] for k, v in x.a[0]):
        key = k.a[0] if isinstance(k, V_.V) and k.kind == "c" else k
        if v.kind != "comp":
            c.ob(None, head(r), "column %s" % key, key="table|%s" % key)
            continue
        full = (v.a[2] is mk("a", SELF, "trip_requests_all")) and (len(v.a) < 4 or v.a[3] is TRUE)
        c.ob(True if full else (False if v.a[2].kind == "a" else None), head(r), "column %s covers all requests" % key, key="table|%s all" % key)
        n += 1
        leaves = [x for _, x in paths(v.a[1]) if x is not NONE]
        if key in TAB:
            ok = all(any(y.kind == "a" and y.a[0].kind == "elem" and y.a[1] == TAB[key] for y in V_.walk(x)) and not any(y.kind == "a" and y.a[0].kind == "elem" and y.a[1] != TAB[key] for y in V_.walk(x)) for x in leaves)
            c.ob(ok, head(r), "column %s shows %s" % (key, TAB[key]) + ("" if ok else ": %s" % [V_.show(x) for x in leaves]), key="table|%s" % key)
        elif key in DIF:
            a, b = DIF[key]
            ok = bool(leaves) and all(same(x, V_.sub(A(a), A(b))) for x in leaves)
            c.ob(True if ok else (False if all(x.kind == "poly" for x in leaves) else None), head(r), "column %s is the time between the two events" % key + ("" if ok else ": %s" % [V_.show(x) for x in leaves]), key="table|%s" % key)
    c.ob(True if n >= 5 else None, head(r), "table of trips", key="table")


SHOWN = {"basic_to_pandas": {"total_trips": "n_total_requests", "completed_trips": "n_completed_requests", "average_waiting_time": "waiting_times", "average_invehicle_time": "invehicle_times", "average_travel_time": "travel_times"},
         "print_stats": {"total trip requests": "n_total_requests", "completed trip requests": "n_completed_requests", "completed trip requests ratio": ("n_completed_requests", "n_total_requests"), "average number of completed requests per taxi": ("n_completed_requests", "number_of_taxis"), "average waiting time": "waiting_times", "average in-vehicle time": "invehicle_times", "average trip time": "travel_times"}}
STATS = ("n_total_requests", "n_completed_requests", "waiting_times", "invehicle_times", "travel_times", "number_of_taxis")


@rule("P30", "R8", "the statistics shown are those computed")
def r8(c):
    n = 0
    for q, want in SHOWN.items():
        r = run("py", "TaxiHandler." + q, project=pr(), all=True, noinline=("compute_stats",))
        c.used(r)
        cs = [e for e in r.events if e.kind == "call" and tail(e.name) == "compute_stats"]
        c.ob(True if cs and not conj(cs[0].g) else None, head(r), "the statistics are computed first", key="%s|computed" % q)
        shown = {}
        for e in r.events:
            for a in list(e.args or ()) if e.kind == "call" else ():
                if a.kind == "dict":
                    for k, v in a.a[0]:
                        shown[k.a[0] if isinstance(k, V_.V) else k] = (e, v)
                elif a.kind == "fstr" and tail(e.name) == "print" and len(a.a[0]) > 1 and getattr(a.a[0][0], "kind", None) == "c":
                    shown[str(a.a[0][0].a[0]).strip().rstrip(":")] = (e, mk("tuple", tuple(x for x in a.a[0][1:] if isinstance(x, V_.V))))
        for k, f in want.items():
            if k not in shown:
                c.ob(None, head(r), "%s is shown" % k, key="%s|%s" % (q, k))
                continue
            e, v = shown[k]
            n += 1
            fs = {x.a[1] for x in V_.walk(v) if x.kind == "a" and x.a[0] is SELF and x.a[1] in STATS}
            ws = {f} if isinstance(f, str) else set(f)
            opaque = any(x.kind in ("call", "mcall") and callname(x) not in ("sum", "len", "mean", "np.mean") for x in V_.walk(v))
            ok = fs == ws
            c.ob(True if ok else (None if opaque or not fs else False), where(e), "%s is made of %s" % (k, sorted(ws)) + ("" if ok else ": of %s" % sorted(fs)), key="%s|%s" % (q, k))
            if isinstance(f, tuple):
                num, den = (mk("a", SELF, x) for x in f)
                vals = [x for _, x in paths(v.a[0][0])] if v.kind == "tuple" and v.a[0] else []
                ok = any(same(x, V_.div(num, den)) for x in vals)
                bad = any(same(x, V_.div(den, num)) for x in vals)
                c.ob(True if ok else (False if bad else None), where(e), "%s is %s per %s" % (k, f[0], f[1]), key="%s|%s ratio" % (q, k))
    c.floor(n, 6, "statistics shown")


@rule("P30", "R20", "statistics, tables and assignments of requests are, on models of requests and vehicles, those of their definitions")
def live(c):
    from .. import stats
    c.floor(stats.check(c, "P30"), 6, "statistics, tables and assignments")


@rule("P30", "R21", "requests are not assigned while the list of waiting requests is gone through itself")
def through(c):
    import ast
    pr = P.py_mod("TaxiHandler/TaxiHandler.py")
    n = 0
    for f in pr.allf:
        if "TaxiHandler.py" not in f.file:
            continue
        for loop in ast.walk(f.node):
            if not isinstance(loop, ast.For):
                continue
            calls = [x for x in ast.walk(loop) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "assign_taxi"]
            if not calls:
                continue
            n += 1
            live_ = isinstance(loop.iter, ast.Attribute) and loop.iter.attr == "trip_requests"
            out = live_ and all(leaves_after(loop.body, x) for x in calls)
            c.ob(not live_ or out, "%s:%s (%s)" % (f.file.replace(P.REPO + "/", ""), loop.lineno, f.qual), "the loop goes through a copy of the waiting requests, as an assignment takes the request out of them", key="%s loop" % f.qual)
    c.floor(n, 1, "loops that assign requests")


def leaves_after(body, call):
    """the loop is left right after the call"""
    import ast
    for i, s in enumerate(body):
        if any(x is call for x in ast.walk(s)):
            if any(isinstance(y, (ast.Break, ast.Return)) for y in body[i + 1:]):
                return True
            return any(leaves_after(b, call) for b in (getattr(s, "body", []), getattr(s, "orelse", [])) if b)
    return False
