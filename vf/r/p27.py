"""P27: trip statistics are correct."""
import ast
from .common import *
from .. import pyraw, tables
from .p22 import shown

ANA = "uxsim/analyzer.py"


def table(c, name):
    r = run("py", "Analyzer." + name, worlds=True)
    c.used(r)
    t = tables.columns(r)
    return r, t


def col(c, r, t, name, want, key=None):
    """column of a table holds one of the reference values"""
    k = "%s|%s" % (r.qual, name)
    if name not in t:
        c.ob(False, head(r), "the table has no column %s" % name, key=k)
        return
    got = t[name]
    ok = None
    for w in want:
        d = decide(got, w)
        if d:
            ok = True
            break
        ok = False if d is False and ok is None else ok
    c.ob(ok, head(r), "column %s %s" % (name, "holds its value" if ok else "holds %s" % inl(got)), key=k)


OD = {"total_trips": "trips", "completed_trips": "comp"}


def odmap(c):
    """field of the analyzer behind each column of the OD table"""
    r, t = table(c, "od_to_pandas")
    if not t:
        raise Floor("OD table not recognised")
    m = {}
    for k, v in t.items():
        if v.kind == "i" and v.a[0].kind == "a":
            m[k] = v.a[0].a[1]
    return r, t, m


def norm(v):
    """tables read through self or the analyzer of the world are the same"""
    def f(x):
        if x.kind == "a" and x.a[1] == "analyzer":
            return mk("p", "self")
        return None
    return V_.subst(v, f)


def veh_of(v):
    """the vehicle the value is about: elements of the registered vehicles"""
    return [x for x in V_.walk(v) if x.kind == "elem"]


@rule("P27", "R1", "trips per origin-destination pair are counted with the platoon size, completed ones only with their recorded travel time")
def r1(c):
    r0, t, m = odmap(c)
    r = run("py", "Analyzer.od_analysis", worlds=True, named=True)
    c.used(r)
    dn = r.spec("s.W.DELTAN")
    allev = {}
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[0] is r.self:
            allev.setdefault(e.loc.a[0].a[1], []).append(e)
        if e.kind == "mut" and e.name == "append" and e.loc.kind == "i" and e.loc.a[0].kind == "a":
            allev.setdefault(e.loc.a[0].a[1], []).append(e)
    for cname in ("total_trips", "completed_trips"):
        if cname not in m:
            c.ob(None, head(r0), "%s is not read from a counter" % cname, key=cname)
            continue
        evs = [e for e in allev.get(m[cname], []) if e.kind == "set"]
        c.floor(len(evs), 1, "updates of " + cname)
        for e in evs:
            d = V_.sub(e.value, e.old if e.old is not None else e.loc)
            if e.old is None or not V_.contains_v(e.value, lambda x: x is e.loc):
                d = V_.sub(e.value, e.loc)
            vs = [x for x in e.loops if x is not None]
            v = vehicle(e, r)
            if v is None:
                c.ob(None, where(e), "%s is counted over another collection" % cname, key=cname + "|loop")
                continue
            c.ob(decide(d, dn), where(e), "%s counts %s per vehicle" % (cname, inl(d)), key=cname + "|step")
            want = mk("tuple", (r.spec("v.orig", v=v), r.spec("v.dest", v=v)))
            c.ob(decide(e.loc.a[1], want), where(e), "%s is counted for the pair %s" % (cname, inl(e.loc.a[1])), key=cname + "|pair")
            gs = own(e, v)
            has = V_.not_(V_.eq(r.spec("v.dest", v=v), NONE))
            fin = finished(r, v)
            if cname == "total_trips":
                ok = set(gs) <= {has}
                c.ob(ok, where(e), "every vehicle with a destination is counted" + ("" if ok else ", found condition %s" % inl(V_.and_(gs))), key=cname + "|guard")
            else:
                rest = [g for g in gs if g is not has]
                ok = len(rest) == 1 and any(rest[0] is f for f in fin)
                if not ok and rest and not any(implied(rest, f) for f in fin):
                    ok = False
                elif not ok:
                    ok = False if rest == [] or len(rest) > 1 else None
                c.ob(ok, where(e), "trips with a recorded travel time are counted as completed" + ("" if ok else ", found condition %s" % inl(V_.and_(gs))), key=cname + "|guard")
    # the averages are those of the recorded values
    for cname, fun, src, attr in (("average_travel_time", "average", None, "travel_time"), ("stddiv_travel_time", "std", None, "travel_time"),
                                  ("average_distance_traveled_per_veh", "average", None, "distance_traveled"), ("stddiv_distance_traveled_per_veh", "std", None, "distance_traveled")):
        if cname not in m:
            c.ob(None, head(r0), "%s is not read from a field" % cname, key=cname)
            continue
        evs = [e for e in allev.get(m[cname], []) if e.kind == "set"]
        c.floor(len(evs), 1, "updates of " + cname)
        for e in evs:
            v = e.value
            nm = str(v.a[0]).split(".")[-1] if v.kind == "call" else ""
            good = nm in ({"average", "mean", "fmean"} if fun == "average" else {"std", "pstdev"})
            arg = v.a[1][0] if v.kind == "call" and v.a[1] else None
            if not good or arg is None or arg.kind != "i" or arg.a[0].kind != "a":
                ok = False if nm in ("average", "mean", "std", "median", "max", "min", "sum", "var") or V_.contains_v(v, lambda x: x.kind == "call" and "floyd" in str(x.a[0])) else None
                c.ob(ok, where(e), "%s is %s" % (cname, inl(v)), key=cname + "|kind")
                continue
            c.ob(decide(arg.a[1], e.loc.a[1]), where(e), "%s of a pair is computed from the values of the pair" % cname, key=cname + "|pair")
            ap = [x for x in allev.get(arg.a[0].a[1], []) if x.kind == "mut"]
            c.floor(len(ap), 1, "recorded values of " + cname)
            for a in ap:
                vv = vehicle(a, r)
                if vv is None:
                    c.ob(None, where(a), "values are recorded over another collection", key=cname + "|loop")
                    continue
                c.ob(decide(a.args[0], r.spec("v." + attr, v=vv)), where(a), "%s uses %s" % (cname, inl(a.args[0])), key=cname + "|value")
                c.ob(decide(a.loc.a[1], mk("tuple", (r.spec("v.orig", v=vv), r.spec("v.dest", v=vv)))), where(a), "values are recorded for the pair %s" % inl(a.loc.a[1]), key=cname + "|valuepair")
                gs = own(a, vv)
                has = V_.not_(V_.eq(r.spec("v.dest", v=vv), NONE))
                rest = [g for g in gs if g is not has]
                if attr == "travel_time":
                    ok = any(implied(rest, f) for f in finished(r, vv)) and len(rest) <= 1
                    c.ob(ok, where(a), "travel times are taken from completed trips" + ("" if ok else ", found condition %s" % inl(V_.and_(gs))), key=cname + "|guard")
                else:
                    c.ob(not rest, where(a), "distances are taken from all trips" + ("" if not rest else ", found condition %s" % inl(V_.and_(rest))), key=cname + "|guard")
            # never of an empty list
            if attr == "travel_time":
                keys = e.loops and any(l is arg.a[0] or l is mk("a", r.self, arg.a[0].a[1]) for l in e.loops)
                gu = [g for g in e.g if V_.contains_v(g, lambda x: x.kind == "a" and x.a[0] is r.self and x.a[1] in (m.get("completed_trips"), arg.a[0].a[1]))]
                ok = bool(keys) or bool(gu)
                c.ob(ok, where(e), "%s is %s" % (cname, "only computed for pairs with completed trips" if ok else "also computed for pairs without completed trips"), key=cname + "|empty")
    # free-flow travel times and distances: shortest over the network by travel time and by length
    for cname, want in (("free_travel_time", ["l.length/l.u"]), ("shortest_distance", ["l.length"])):
        if cname not in m:
            c.ob(None, head(r0), "%s is not read from a field" % cname, key=cname)
            continue
        for e in [e for e in allev.get(m[cname], []) if e.kind == "set"]:
            v = e.value
            if not (v.kind == "i" and v.a[0].kind == "call"):
                c.ob(False if v.kind == "call" and str(v.a[0]).split(".")[-1] in ("average", "mean", "std", "sum") else None, where(e), "%s is %s" % (cname, inl(v)), key=cname)
                continue
            k = e.loc.a[1]
            if k.kind == "tuple" and len(k.a[0]) == 2:
                o, d = k.a[0]
                c.ob(decide(v.a[1], mk("tuple", (r.spec("o.id", o=o), r.spec("d.id", d=d)))), where(e), "%s is the one from the origin to the destination" % cname, key=cname + "|od")
            ks = [x for x in V_.walk(v.a[0]) if x.kind == "keyset"]
            lk = mk("elem", r.spec("s.W.LINKS"))
            if not ks:
                c.ob(None, where(e), "the costs of links behind %s were not found" % cname, key=cname + "|cost")
            for x in ks[:1]:
                val = x.a[2]
                w = r.spec(want[0], l=lk)
                ok = val is w or (val.kind == "min" and any(y is w for y in val.a) and all(y is w or y.kind == "i" for y in val.a))
                if not ok and opaque_in(val, (w,)) is not None and val.kind != "min":
                    ok = None
                c.ob(ok, where(e), "%s is the shortest path by %s" % (cname, inl(val)), key=cname + "|cost")
                c.ob(decide(x.a[1], mk("tuple", (r.spec("l.start_node.id", l=lk), r.spec("l.end_node.id", l=lk)))), where(e), "links are entered from their start to their end node", key=cname + "|dir")


def vehicle(e, r):
    for l in e.loops or ():
        if l is not None and V_.contains_v(l, lambda x: x.kind == "a" and str(x.a[1]) == "VEHICLES"):
            return mk("elem", l)
    return None


def own(e, v):
    """conditions on the vehicle itself"""
    return [g for g in e.g if V_.contains_v(g, lambda x: x is v)]


def finished(r, v):
    tt = r.spec("v.travel_time", v=v)
    return [V_.not_(V_.eq(tt, const(-1))), V_.lt(V_.neg(tt)), V_.le(V_.neg(tt)), V_.lt(V_.sub(const(-1), tt)), V_.eq(r.spec("v.state", v=v), const("end"))]


def od_col(name):
    return mk("i", mk("mcall", mk("p", "self"), "od_to_pandas", (), ()), const(name))


def total(x):
    return mk("sum", mk("elem", x), x)


@rule("P27", "R2", "overall statistics are the sums over all origin-destination pairs")
def r2(c):
    r = run("py", "Analyzer.basic_analysis", worlds=True)
    c.used(r)
    src = [x for e in r.events for x in V_.walk(e.value) if e.kind == "set" and x.kind == "i" and x.a[1].kind == "c" and x.a[1].a[0] == "completed_trips"] if r.events else []
    if not src:
        raise Floor("the overall statistics are not computed from the OD table")
    T = src[0].a[0]
    env = {"T": T}
    rb, tb = table(c, "basic_to_pandas")
    if not tb:
        raise Floor("table of overall statistics not recognised")
    C = lambda n: mk("i", T, const(n))
    n = total(C("completed_trips"))
    tt = total(V_.mul(C("completed_trips"), C("average_travel_time")))
    dl = total(V_.mul(C("completed_trips"), V_.sub(C("average_travel_time"), C("free_travel_time"))))
    ref = {
        "total_trips": [total(C("total_trips"))],
        "completed_trips": [n],
        "total_travel_time": [tt],
        "average_travel_time": [V_.mul(tt, V_.inv(n))],
        "total_delay": [dl],
        "average_delay": [V_.mul(dl, V_.inv(n))],
    }
    pos = [V_.truthy(n), V_.lt(V_.neg(n)), V_.not_(V_.eq(n, const(0)))]
    for cname, want in ref.items():
        if cname not in tb:
            c.ob(False, head(rb), "the table of overall statistics has no column %s" % cname, key=cname)
            continue
        a = tb[cname]
        if a.kind != "a":
            c.ob(None, head(rb), "%s is %s" % (cname, inl(a)), key=cname)
            continue
        v = sums(r.heap("s." + a.a[1]))
        alts = cases(v)
        good = False
        for val, path in alts:
            if path and contradicts(path, pos):
                # nothing completed: a mark
                ok = val.kind == "c" or val.kind in ("n", "num") or V_.is_num(val) or "nan" in str(val)
                c.ob(ok, head(r), "%s is %s when no trip is completed" % (cname, inl(val)), key=cname + "|empty")
                continue
            d = [decide(val, w) for w in want]
            ok = True if True in d else (None if None in d else False)
            good = True
            c.ob(ok, head(r), "%s is %s" % (cname, "as defined" if ok else "computed as %s" % inl(val)), key=cname + "|value")
            if "average" in cname:
                ok = any(p in pos for p in path)
                c.ob(ok, head(r), "%s is %s" % (cname, "only computed if trips are completed" if ok else "computed with no trip completed, too"), key=cname + "|guard")
        if not good:
            c.ob(False, head(r), "%s is not computed for completed trips" % cname, key=cname + "|value")
    # the remaining total
    v = sums(r.heap("s.total_distance_traveled"))
    w = total(V_.mul(C("average_distance_traveled_per_veh"), C("total_trips")))
    c.ob(decide(v, w), head(r), "the total distance is the sum over all trips", key="total_distance_traveled")
    # the printed ratio
    rp = run("py", "Analyzer.print_simple_stats", worlds=True)
    c.used(rp)
    k = 0
    for e in rp.events:
        if e.kind == "call" and any("delay ratio" in str(a) for a in e.args):
            k += 1
            txt = [x for a in e.args for x in V_.walk(a) if V_.contains_v(x, lambda y: y.kind == "a" and y.a[1] == "average_delay") and x.kind not in ("fstr", "fmt", "call", "mcall")]
            w = V_.mul(rp.heap("s.average_delay"), V_.inv(rp.heap("s.average_travel_time")))
            ok = any(V_.contains_v(a, lambda y: y is w) for a in e.args)
            if not ok:
                ok = None if not txt else False
            c.ob(ok, where(e), "the delay ratio printed is delay over travel time", key="delay_ratio")
            pos2 = [g for g in e.g if V_.contains_v(g, lambda y: y.kind == "a" and y.a[1] in ("trip_completed", "average_travel_time"))]
            c.ob(bool(pos2), where(e), "the delay ratio is only computed if trips are completed", key="delay_ratio|guard")
    c.floor(k, 1, "delay ratios printed")


def sums(v):
    """x.sum() is the sum over x"""
    return V_.subst(v, lambda y: total(sums(y.a[0])) if y.kind == "mcall" and y.a[1] == "sum" and not y.a[2] else None)


def cases(v, path=()):
    if v.kind == "ite":
        return cases(v.a[1], path + tuple(V_.conj(v.a[0]))) + cases(v.a[2], path + tuple(V_.conj(V_.not_(v.a[0]))))
    return [(v, path)]


def contradicts(path, pos):
    neg = {V_.not_(p) for p in pos}
    return any(p in neg for p in path)


@rule("P27", "R3", "the statistics tables show each value in the column of its name")
def r3(c):
    for name, ref in (
        ("basic_to_pandas", {"total_trips": "s.trip_all", "completed_trips": "s.trip_completed", "total_travel_time": "s.total_travel_time", "average_travel_time": "s.average_travel_time", "total_delay": "s.total_delay", "average_delay": "s.average_delay"}),
        ("link_to_pandas", {"link": "l.name", "start_node": "l.start_node.name", "end_node": "l.end_node.name", "length": "l.length", "traffic_volume": "s.linkc_volume[l]", "vehicles_remain": "s.linkc_remain[l]", "free_travel_time": "s.linkc_tt_free[l]", "average_travel_time": "s.linkc_tt_ave[l]", "stddiv_travel_time": "s.linkc_tt_std[l]", "delay_ratio": "s.linkc_tt_ave[l]/s.linkc_tt_free[l]"}),
        ("vehicle_trip_to_pandas", {"name": "v.name", "orig": "v.orig.name", "departure_time": "v.departure_time*s.W.DELTAT", "final_state": "v.state", "travel_time": "v.travel_time", "distance_traveled": "v.distance_traveled"}),
    ):
        r, t = table(c, name)
        if not t:
            c.ob(None, head(r), "the table returned by %s was not recognised" % name, key=name)
            continue
        if "#" in t:
            c.ob(False, head(r), "%s returns %s" % (name, t["#"]), key=name)
            continue
        env = {"l": mk("elem", r.spec("s.W.LINKS")), "v": vehicle_elem(t)}
        if env["v"] is None:
            del env["v"]
        for k, w in ref.items():
            col(c, r, t, k, [r.spec(w, **env)])
    # the pair of a row
    r, t, m = odmap(c)
    keys = [v.a[1] for v in t.values() if v.kind == "i" and v.a[0].kind == "a"]
    c.floor(len(keys), 8, "values per pair")
    for k in keys:
        c.ob(k is keys[0], head(r), "all values of a row belong to the same pair", key="od|row")
    if keys and keys[0].kind == "tuple":
        o, d = keys[0].a[0]
        for cname, e in (("orig", o), ("dest", d)):
            if cname in t:
                c.ob(decide(t[cname], r.spec("e.name", e=e)), head(r), "column %s names the %s" % (cname, cname), key="od|" + cname)
    # each column from another field
    fs = [v for k, v in m.items()]
    c.ob(len(set(fs)) == len(fs), head(r), "no two columns show the same value", key="od|distinct")


def vehicle_elem(t):
    for v in t.values():
        for x in V_.walk(v):
            if x.kind == "elem" and V_.contains_v(x.a[0], lambda y: y.kind == "a" and y.a[1] == "VEHICLES"):
                if x.a[0].kind in ("values", "mcall", "a"):
                    return x
    return None


@rule("P27", "R4", "statistics of links count what passed and remained")
def r4(c):
    r = run("py", "Analyzer.link_analysis_coarse", worlds=True, named=True)
    c.used(r)
    l = mk("elem", r.spec("s.W.LINKS"))
    n = 0
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[0] is r.self:
            f = e.loc.a[0].a[1]
            ref = {"linkc_volume": "l.cum_departure[-1]", "linkc_remain": "l.cum_arrival[-1]-l.cum_departure[-1]", "linkc_tt_free": "l.length/l.u"}.get(f)
            if ref:
                n += 1
                c.ob(decide(e.value, r.spec(ref, l=l)), where(e), "%s is %s" % (f, inl(e.value)), key=f)
                c.ob(decide(e.loc.a[1], l), where(e), "%s is stored for its link" % f, key=f + "|link")
    c.floor(n, 3, "statistics of links")


@rule("P27", "R5", "statistics of vehicle groups use completed trips, the platoon size and the pair of the vehicle")
def r5(c):
    r, t = table(c, "vehicle_groups_to_pandas")
    if not t:
        raise Floor("table of vehicle groups not recognised")
    gs = r.spec("groups", groups=mk("p", "groups"))
    g = mk("elem", gs)
    v = mk("elem", g)
    fins = [V_.eq(mk("a", v, "state"), const("end")), V_.not_(V_.eq(mk("a", v, "travel_time"), const(-1)))]
    dn = r.spec("s.W.DELTAN")
    col(c, r, t, "total_trips", [mk("sum", dn, g), V_.mul(dn, mk("call", "len", (g,), ()))])
    col(c, r, t, "completed_trips", [mk("sum", V_.ite(f, dn, const(0)), g) for f in fins])
    src = [x for k in t for x in V_.walk(t[k]) if isinstance(t[k], V) and x.kind == "mcall" and x.a[1] == "od_to_pandas"]
    T = src[0] if src else None

    def odval(name):
        """value of the pair of the vehicle in the OD table"""
        def f(x):
            # T[name][orig and dest match].values[0]
            if x.kind != "i" or not V_.is_num(x.a[1]) or V_.num(x.a[1]) != 0:
                return None
            b = x.a[0]
            if b.kind == "a" and b.a[1] == "values":
                b = b.a[0]
            if b.kind == "i" and b.a[0].kind == "i" and b.a[0].a[0] is T and V_.cval(b.a[0].a[1]) is not None:
                sel = b.a[1]
                ok = pair_selected(sel, T, v)
                return mk("p", "od:%s:%s" % (V_.cval(b.a[0].a[1]), ok))
            return None
        return f
    ref = {"average_travel_time": ("average", "v.travel_time"), "average_delay_ratio": ("average", "v.travel_time/free"), "std_delay_ratio": ("std", "v.travel_time/free"),
           "average_traveled_distance": ("average", "v.distance_traveled"), "average_detour_ratio": ("average", "v.distance_traveled/short"), "std_detour_ratio": ("std", "v.distance_traveled/short"),
           "average_speed": ("average", "v.distance_traveled/v.travel_time"), "std_speed": ("std", "v.distance_traveled/v.travel_time")}
    for cname, (fun, expr) in ref.items():
        if cname not in t:
            c.ob(False, head(r), "no column %s" % cname, key=cname)
            continue
        x = t[cname]
        if T is not None:
            x = V_.subst(x, odval(None))
        seen = 0
        for val, path in cases(x):
            if val.kind == "call" and str(val.a[0]).split(".")[-1] in ("average", "mean", "std"):
                seen += 1
                nm = str(val.a[0]).split(".")[-1]
                c.ob((nm == "std") == (fun == "std"), head(r), "%s is computed by %s" % (cname, nm), key=cname + "|fun")
                a = val.a[1][0]
                if a.kind != "comp":
                    c.ob(None, head(r), "%s is computed from %s" % (cname, inl(a)), key=cname + "|values")
                    continue
                env = {"v": v, "free": mk("p", "od:free_travel_time:True"), "short": mk("p", "od:shortest_distance:True")}
                w = r.spec(expr, **env)
                ok = a.a[1] is w
                if not ok and a.a[2] is g:
                    ok = None if any(y.kind in ("mcall", "call", "rec") for y in V_.walk(a.a[1])) or any(y.kind == "p" and str(y.a[0]).endswith(":None") for y in V_.walk(a.a[1])) else False
                elif not ok:
                    ok = None
                c.ob(ok, head(r), "%s is computed from %s" % (cname, inl(a.a[1])), key=cname + "|values")
                cond = a.a[3]
                ok = any(cond is f for f in fins)
                if not ok:
                    ok = False if cond is True or not isinstance(cond, V) or not V_.contains_v(cond, lambda y: y.kind in ("mcall", "call")) else None
                c.ob(ok, head(r), "%s uses %s" % (cname, "completed trips" if ok else "vehicles with %s" % (cond if not isinstance(cond, V) else inl(cond))), key=cname + "|cond")
                ok = bool(path)
                c.ob(ok, head(r), "%s is %s" % (cname, "only computed if trips are completed" if ok else "also computed for groups without completed trips"), key=cname + "|empty")
                pos = [mk("sum", V_.ite(f, dn, const(0)), g) for f in fins]
                tests = [V_.truthy(p) for p in pos] + [V_.lt(V_.neg(p)) for p in pos]
                ok = any(p in tests for p in path) or (False if path and not any(V_.contains_v(p, lambda y: y.kind == "a" and y.a[1] in ("state", "travel_time", "arrival_time") or y.kind in ("mcall", "rec")) for p in path) else None)
                c.ob(ok, head(r), "%s is computed if a trip of the group is completed" % cname, key=cname + "|when")
            elif "nan" in str(val) or V_.is_num(val) or val is NONE:
                pass
            else:
                c.ob(None, head(r), "%s is %s" % (cname, inl(val)), key=cname + "|kind")
                seen += 1
        c.ob(bool(seen), head(r), "%s is computed" % cname, key=cname + "|some")
    c.floor(len([k for k in ref if k in t]), 6, "columns of vehicle groups")


def pair_selected(sel, T, v):
    """the rows selected are those of origin and destination of the vehicle"""
    parts = list(sel.a[0]) if sel.kind in ("and", "setand") and isinstance(sel.a[0], tuple) else list(sel.a) if sel.kind == "setand" else V_.conj(sel)
    want = {"orig": mk("a", mk("a", v, "orig"), "name"), "dest": mk("a", mk("a", v, "dest"), "name")}
    hit = {}
    for p in parts:
        for k, w in want.items():
            cc = mk("i", T, const(k))
            if V_.contains_v(p, lambda y: y is cc):
                hit[k] = V_.contains_v(p, lambda y: y is w) and not V_.contains_v(p, lambda y: y.kind == "not") and (p.kind in ("eq", "eqz"))
    if set(hit) == {"orig", "dest"}:
        return all(hit.values())
    return None if not hit else False


@rule("P27", "R6", "statistics between areas weight the pairs by their trips")
def r6(c):
    r, t = table(c, "areas2areas_to_pandas")
    if not t:
        raise Floor("table of areas not recognised")
    arrs = {}
    for k, v in t.items():
        if isinstance(v, V):
            for x in V_.walk(v):
                if x.kind == "i" and x.a[0].kind == "i" and x.a[0].a[1].kind == "c" and x.a[0].a[0].kind == "mcall" and x.a[0].a[0].a[1] == "od_to_pandas":
                    arrs.setdefault(x.a[0].a[1].a[0], set()).add(x)

    def f(x):
        y = x
        if y.kind in ("mcall", "call") and str(y.a[0] if y.kind == "call" else "").split(".")[-1] in ("array", "asarray") and y.a[1]:
            z = y.a[1][0]
            if z.kind == "i" and z.a[0].kind == "i" and z.a[0].a[1].kind == "c":
                return mk("p", "col:" + str(z.a[0].a[1].a[0]))
        return None

    def g(x):
        if x.kind == "mcall" and x.a[1] == "sum" and not x.a[2]:
            return mk("p", "S[%s]" % V_.show(x.a[0]))
        if x.kind == "sum" and x.a[0].kind == "elem" and x.a[0].a[0] is x.a[1]:
            return mk("p", "S[%s]" % V_.show(x.a[1]))
        return None

    def nz(x):
        return V_.subst(V_.subst(x, f), g)
    P = lambda n: mk("p", "col:" + n)
    S = lambda x: mk("p", "S[%s]" % V_.show(x))
    ct, tt = P("completed_trips"), P("total_trips")
    ref = {"total_trips": (S(tt), None), "completed_trips": (S(ct), None),
           "average_travel_time": (V_.mul(S(V_.mul(ct, P("average_travel_time"))), V_.inv(S(ct))), S(ct)),
           "average_free_travel_time": (V_.mul(S(V_.mul(ct, P("free_travel_time"))), V_.inv(S(ct))), S(ct)),
           "average_distance_traveled": (V_.mul(S(V_.mul(tt, P("average_distance_traveled_per_veh"))), V_.inv(S(tt))), S(tt)),
           "average_shortest_distance": (V_.mul(S(V_.mul(tt, P("shortest_distance"))), V_.inv(S(tt))), S(tt))}
    # conditions under which a row exists
    rowg = []
    for e in [e for e in r.events if e.kind == "mut" and e.name == "append"]:
        rowg.append([nz(x) for x in e.g])
    common = set(rowg[0]).intersection(*map(set, rowg)) if rowg else set()
    n = 0
    for cname, (w, den) in ref.items():
        if cname not in t:
            c.ob(False, head(r), "no column %s" % cname, key=cname)
            continue
        x = nz(t[cname])
        for val, path in cases(x):
            if "nan" in str(val) or val is NONE:
                continue
            n += 1
            known = all(y.kind not in ("mcall", "call", "rec", "i") for y in V_.walk(val))
            ok = True if val is w else (False if known else None)
            c.ob(ok, head(r), "%s is %s" % (cname, inl(val)), key=cname)
            if den is not None:
                tests = [V_.truthy(den), V_.lt(V_.neg(den))]
                ok = any(p in tests for p in path) or any(p in tests for p in common)
                if not ok and not known:
                    ok = None
                c.ob(ok, head(r), "%s is %s" % (cname, "only computed with trips" if ok else "divided by a number of trips that may be zero"), key=cname + "|guard")
    c.floor(n, 6, "columns of the table of areas")


@rule("P27", "R9", "rows of the table of areas select origins and destinations separately")
def r9(c):
    k = 0
    for f in pyraw.mod(ANA).funcs:
        if f.qual != "Analyzer.areas2areas_to_pandas":
            continue
        loops = [n for n in ast.walk(f.node) if isinstance(n, ast.For)]
        sel = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "isin" and isinstance(n.func.value, ast.Subscript) and n.args:
                key = n.func.value.slice
                if isinstance(key, ast.Constant):
                    sel[key.value] = (n, loop_of(n.args[0], n, f))
        # the names of the row
        nm = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and n.args and isinstance(n.func.value, ast.Name):
                nm[n.func.value.id] = loop_of(n.args[0], n, f)
        if set(sel) >= {"orig", "dest"}:
            a, b = sel["orig"][1], sel["dest"][1]
            if a is not None and b is not None:
                k += 1
                c.ob(a is not b, f.where(sel["orig"][0]), "origins and destinations are %s" % ("selected by different areas" if a is not b else "selected by the same area"), "select")
                heads_ = [x for x in ast.walk(f.node) if isinstance(x, ast.List) and len(x.elts) == 1 and isinstance(x.elts[0], ast.List) and x.elts[0].elts and isinstance(x.elts[0].elts[0], ast.Constant)]
                rows = [x for x in ast.walk(f.node) if isinstance(x, ast.ListComp) and isinstance(x.elt, ast.List)]
                if heads_ and rows and len(heads_[0].elts[0].elts) == len(rows[0].elt.elts):
                    for h, e in zip(heads_[0].elts[0].elts, rows[0].elt.elts):
                        if h.value in ("origin_area", "destination_area") and isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and nm.get(e.value.id) is not None:
                            k += 1
                            want = a if h.value == "origin_area" else b
                            c.ob(nm[e.value.id] is want, f.where(e), "%s names the area whose trips are %s" % (h.value, "selected" if nm[e.value.id] is want else "not selected as such"), h.value)
    c.floor(k, 0, "selections")


def loop_of(e, at, f, d=0):
    """the loop whose variable the expression depends on"""
    names = [x.id for x in ast.walk(e) if isinstance(x, ast.Name)]
    p = at
    while p is not f.node and p is not None:
        p = p._parent
        if isinstance(p, ast.For) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(p.target)):
            return p
    if d < 4:
        for nme in names:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and n.lineno < at.lineno and any(isinstance(t, ast.Name) and t.id == nme for t in n.targets):
                    l = loop_of(n.value, n, f, d + 1)
                    if l is not None:
                        return l
    return None


COUNTS = ("trip", "complet", "count", "volume", "n_", "num")


@rule("P27", "R7", "averages over trips are not divided by zero")
def r7(c):
    k = 0
    for f in pyraw.mod(ANA).funcs:
        if f.cls != "Analyzer":
            continue
        if f.node.name not in ("basic_analysis", "od_analysis", "link_analysis_coarse", "areas2areas_to_pandas", "vehicle_groups_to_pandas", "print_simple_stats", "basic_to_pandas"):
            continue
        for n in ast.walk(f.node):
            den = None
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv)):
                den = n.right
            if den is None:
                continue
            names = [shown(x).split(".")[-1] for x in ast.walk(den) if isinstance(x, (ast.Name, ast.Attribute))]
            if not any(any(w in nm for w in COUNTS) for nm in names):
                continue
            k += 1
            last = names[0]
            gs = tests_above(n, f.node)
            ok = any(any(shown(x).split(".")[-1] in names or True and shown(x).split(".")[-1] == last for x in ast.walk(t) if isinstance(x, (ast.Name, ast.Attribute))) for t in gs)
            if not ok and any(isinstance(x, ast.IfExp) for x in parents(n, f.node)):
                ok = None
            c.ob(ok, f.where(n), "%s is %s" % (shown(n)[:80], "only computed if %s is not zero" % last if ok else "computed although %s may be zero" % last), "%s|%s" % (f.node.name, shown(n)[:60]))
    c.floor(k, 3, "divisions by numbers of trips")


def parents(n, top):
    while n is not top and n is not None:
        n = n._parent
        yield n


def tests_above(n, top):
    """conditions that hold at n: enclosing conditionals (right branch) and earlier exits"""
    out = []
    m = n
    while m is not top and m is not None:
        p = m._parent
        if isinstance(p, (ast.If, ast.While)) and m is not p.test and m in p.body:
            out.append(p.test)
        if isinstance(p, ast.IfExp) and m is p.body:
            out.append(p.test)
        for fld in ("body", "orelse"):
            blk = getattr(p, fld, None)
            if isinstance(blk, list) and any(x is m for x in blk):
                for x in blk:
                    if x is m:
                        break
                    if isinstance(x, ast.If) and x.body and isinstance(x.body[-1], (ast.Return, ast.Continue, ast.Raise)):
                        out.append(x.test)
                    if isinstance(x, ast.If) and x.orelse and isinstance(x.orelse[-1], (ast.Return, ast.Continue, ast.Raise)):
                        out.append(x.test)
        m = p
    return out


@rule("P27", "R8", "the C++ engine counts trips with the platoon size and completed trips once")
def r8(c):
    r = R(c, "cpp", "World.print_simple_results")
    for f, w in (("trips_total", ["len(s.vehicles)*s.delta_n", "s.vehicles.size()*s.delta_n"]), ("trips_completed", ["s.trips_completed_count()*s.delta_n"])):
        evs = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == f]
        c.floor(len(evs), 1, "assignments of " + f)
        for e in evs:
            if f == "trips_total":
                ws = [V_.mul(mk("call", "len", (mk("a", r.self, "vehicles"),), ()), mk("a", r.self, "delta_n"))]
                d = [decide(e.value, x) for x in ws]
                ok = True if True in d else (None if None in d else False)
                if not ok:
                    dn = [x for x in V_.walk(e.value) if x.kind == "a" and x.a[1] in ("delta_n", "DELTAN")]
                    ok = bool(dn) if not dn else (True if V_.contains_v(e.value, lambda x: x.kind == "a" and x.a[1] in ("vehicles", "VEHICLES")) else None)
                c.ob(ok, where(e), "the number of trips is %s" % inl(e.value), key=f)
            else:
                dn = V_.contains_v(e.value, lambda x: x.kind == "a" and x.a[1] in ("delta_n", "DELTAN"))
                c.ob(dn, where(e), "the number of completed trips is %s" % inl(e.value), key=f)
    re_ = R(c, "cpp", "Vehicle.end_trip")
    evs = [e for e in re_.events if e.kind == "set" and V_.contains_v(e.loc, lambda x: x.kind == "a" and x.a[1] == "link_trips_completed")]
    c.floor(len(evs), 1, "counts of completed trips")
    for e in evs:
        c.ob(V_.num(V_.sub(e.value, e.loc)) == 1, where(e), "each end of a trip is counted once", key="count")
    c.ob(len(evs) == 1, head(re_), "each end of a trip is counted once", key="count1")


@rule("P27", "R10", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P27"), 1, "properties of the elements of the C++ mode")


@rule("P27", "R11", "tables and statistics of links, pairs, areas, groups and vehicles are, on models of finished simulations, those of their definitions")
def live(c):
    from .. import stats
    c.floor(stats.check(c, "P27"), 8, "analyses and tables")
