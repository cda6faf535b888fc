from .common import *


def time_loop(c, r):
    """loop instance that advances the simulation clock"""
    ts = [e for e in r.fsets("T") if is_world(base_of(e.loc), r) and e.lids]
    c.floor(len(ts), 1, "clock assignments in a loop of %s" % r.qual)
    return ts[0]


def container_of(v):
    while v.kind in ("elem", "i"):
        v = v.a[0]
        if v.kind == "call" and v.a[0] == "list" and v.a[1]:
            v = v.a[1][0]
        if v.kind == "values":
            v = v.a[0]
        if v.kind == "a":
            return v
    return v


def nonempty(x, v):
    """the guard only skips an empty container that is iterated anyway"""
    if x.kind == "le":
        for y in V_.walk(x):
            if y.kind == "call" and y.a[0] == "len" and y.a[1] and any(z is y.a[1][0] for z in V_.walk(v)):
                return implied([V_.le(V_.sub(ONE, y))], x)
    return False


STAGES = {
    "py": [("link update", "update", "LINKS", "Link"), ("departure", "generate", "NODES", "Node"), ("signal and capacity", "update", "NODES", "Node"), ("transfer", "transfer", "NODES", "Node"), ("car following", "carfollow", "VEHICLES_RUNNING", "Vehicle"), ("movement", "update", "VEHICLES_LIVING", "Vehicle")],
    "cpp": [("link update", "update", "links", "Link"), ("departure", "generate", "nodes", "Node"), ("signal", "signal_update", "nodes", "Node"), ("node capacity", "flow_capacity_update", "nodes", "Node"), ("transfer", "transfer", "nodes", "Node"), ("car following", "car_follow_newell", "vehicles", "Vehicle"), ("movement", "update", "vehicles", "Vehicle"), ("waiting vehicles", "update", "generation_queue", "Vehicle")],
}


def stage_events(r, tl):
    out = []
    for what, name, field, cls in STAGES[r.lang]:
        evs = []
        for e in r.calls(name):
            if e.lids[:1] != tl.lids[:1] or e.recv is None:
                continue
            if e.name.replace("::", ".").split(".")[-2:-1] not in ([], [cls]):
                continue
            b = container_of(e.recv)
            if b.kind == "a" and b.a[1] == field:
                evs.append(e)
        out.append((what, evs))
    return out


@rule("P09", "R1", "every step runs link update, departures, signals and capacities, transfers, car following and movement once for every element")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "World.exec_simulation")
        tl = time_loop(c, r)
        for what, evs in stage_events(r, tl):
            if not evs:
                c.ob(False, head(r), "the stage '%s' is not executed for all elements in the step loop" % what, key="%s|missing|%s" % (lang, what))
                continue
            for e in evs:
                rest = [g for g in rel_guards(e, 0) if not nonempty(g, e.recv)]
                c.ob(not rest, where(e), "the stage '%s' runs in every step for every element" % what + ("" if not rest else ", found the extra condition %s" % inl(V_.and_(rest))), key="%s|cond|%s" % (lang, what))
                ok = each_element(r, e.recv) and no_early_exit(r, e)
                c.ob(ok, where(e), "the stage '%s' covers all elements" % what + ("" if ok else " (found %s)" % inl(e.recv)), key="%s|all|%s" % (lang, what))
            c.ob(len(evs) == 1, where(evs[0]), "the stage '%s' runs once per step (%d times)" % (what, len(evs)), key="%s|once|%s" % (lang, what))


@rule("P09", "R2", "the stages of a step are separate passes in a fixed order: no element moves before all were updated")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "World.exec_simulation")
        tl = time_loop(c, r)
        st = {w: e for w, e in stage_events(r, tl)}
        order = ["link update", "departure", "transfer", "car following", "movement"] + (["waiting vehicles"] if lang == "cpp" else [])
        pairs = list(zip(order, order[1:]))
        for w in ("signal and capacity", "signal", "node capacity"):
            if w in st:
                pairs += [("link update", w), (w, "transfer")]
        for a, b in pairs:
            for x in st[a]:
                for y in st[b]:
                    ok = x.seq < y.seq and x.lids[1:2] != y.lids[1:2]
                    c.ob(ok, where(y), "'%s' is completed for all elements before '%s'" % (a, b) + ("" if ok else " (not so)"), key="%s|%s<%s" % (lang, a, b))
        names = ("homogeneous_DUO_update", "route_search_all") if lang == "py" else ("route_choice_duo", "route_choice_duo_gradual", "route_search_all", "update_adj_time_matrix")
        rc = [e for e in r.calls(*names) if e.lids[:1] == tl.lids[:1]]
        c.floor(len(rc), 2, "route choice updates in the step loop")
        for e in rc:
            ok = all(x.seq < e.seq for x in st["movement"])
            c.ob(ok, where(e), "route information is updated after the movement of all vehicles", key="%s|route|%s" % (lang, e.name))
        if lang == "cpp":
            home = [e for e in r.calls("update") if e.recv is not None and "departure_buckets" in V_.show(e.recv)[:600]]
            for e in home:
                ok = all(x.seq < e.seq for x in st["waiting vehicles"])
                c.ob(ok, where(e), "vehicles start waiting after the waiting vehicles were handled", key="cpp|home")


@rule("P09", "R3", "the clock advances by one step per pass and the time is step number times step width")
def r3(c):
    r = R(c, "py", "World.exec_simulation")
    tl = time_loop(c, r)
    it = tl.loops[0]
    ok = it.kind == "range" or (it.kind == "call" and it.a[0] == "range")
    c.ob(ok and tl.value.kind == "elem" and tl.value.a[0] is it, where(tl), "the clock takes every step number in turn", key="py|range")
    a = it.a if it.kind == "range" else it.a[1]
    c.ob(ok and len(a) == 2 and same(a[0], r.spec("W.T")), where(tl), "a run continues at the step where the last one stopped", key="py|start")
    tm = [e for e in r.fsets("TIME") if e.lids[:1] == tl.lids[:1]]
    c.ob(bool(tm) and all(same(e.value, V_.mul(tl.value, r.spec("W.DELTAT"))) for e in tm), where(tm[0]) if tm else where(tl), "the time is step number times step width", key="py|time")
    fin = [e for e in r.fsets("T") if not e.lids]
    ok = len(fin) == 1 and V_.show(V_.sub(fin[0].value, ONE)).startswith("rec(self.T")
    c.ob(ok, where(fin[0]) if fin else head(r), "after the last pass the clock points to the next step", key="py|next")
    r = R(c, "cpp", "World.exec_simulation")
    tl = time_loop(c, r)
    it = tl.loops[0]
    ok = it.kind == "range" or (it.kind == "call" and it.a[0] == "range")
    a = it.a if it.kind == "range" else it.a[1]
    c.ob(ok and same(a[0], r.spec("W.T")) and tl.value.kind == "elem" and tl.value.a[0] is it, where(tl), "a run continues at the step where the last one stopped (C++)", key="cpp|start")
    tm = [e for e in r.fsets("TIME") if e.lids[:1] == tl.lids[:1]]
    c.ob(bool(tm) and all(same(e.value, V_.mul(tl.value, r.spec("W.DELTAT"))) for e in tm) and not any(rel_guards(e, 0) for e in tm[:1]), where(tm[0]) if tm else where(tl), "the time is step number times step width (C++)", key="cpp|time")


@rule("P09", "R4", "C++: each vehicle is moved with the queue as it was before the pass")
def r4(c):
    r = R(c, "cpp", "World.exec_simulation")
    tl = time_loop(c, r)
    for e in dict(stage_events(r, tl))["movement"]:
        b = e.recv
        ok = any(x.kind == "call" and x.a[0] == "list" for x in V_.walk(b))
        c.ob(ok, where(e), "the movement pass iterates over a copy of the queue (trip ends shorten the queue during the pass)", key="snapshot")
        ld = e.args[0] if e.args else None
        want = None
        if b.kind == "i":
            q, i = b.a
            n = mk("a", base_of(container_of(b)), "number_of_lanes")
            want = V_.ite(V_.lt(V_.sub(i, n)), NONE, mk("i", q, V_.sub(i, n)))
        c.ob(None if want is None or ld is None else same(ld, want), where(e), "the recorded leader is the vehicle one lane cycle ahead in the queue before the pass", key="snapleader")


@rule("P09", "R5", "the car-following pass uses no field of another vehicle that the same pass computes")
def r5(c):
    for lang in LANGS:
        for nm in ("Vehicle.carfollow", "Link.update"):
            r = R(c, lang, nm)
            ws = {field_of(root(e.loc)) for e in r.events if e.kind in ("set", "mut") and base_of(root(e.loc)) is r.self} - {None}
            c.floor(len(ws), 1, "fields computed by %s" % r.qual)
            seen = set()
            for e in r.events:
                terms = list(e.g) + list(e.args or ()) + ([e.value] if isinstance(e.value, V) else [])
                for t in terms:
                    for x in V_.walk(t):
                        if isinstance(x, V) and x.kind == "a" and x.a[1] in ws and x not in seen and x.a[0] is not r.self:
                            ty = proj(lang).typeof(x.a[0], r.ev)
                            if ty is not None and ty != r.func.cls.name:
                                continue
                            if ty is None and not leads_to(x.a[0], r.self):
                                continue
                            seen.add(x)
                            c.ob(False, where(e), "%s reads %s, which the same pass computes for another element: the result depends on the order of the elements" % (r.qual, V_.show(x)), key="%s|%s" % (r.qual, x.a[1]))
            c.ob(True, head(r), "%s reads only its own values among the %d fields it computes" % (r.qual, len(ws)), key="%s|pass" % r.qual)


def leads_to(b, s):
    return b.kind == "a" and b.a[1] in ("leader", "follower")
