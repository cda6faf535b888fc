"""Time-indexed queries and current traffic states: the value a query returns is a term over the records; it is compared
with the reference on every case of the order model (time before, inside, at the end of and after the record; empty record)."""
import itertools
from fractions import Fraction as F
from .common import *
from ..setmodel import Model, Undecided, Raises, X
from ..evalr import Evaluator

REC = ("cum_arrival", "cum_departure", "traveltime_instant", "traveltime_actual", "vehicles_enter_log")
DT = F(2)
TIMES = [F(x, 2) for x in (-9, -4, -1, 0, 1, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 40)]


def clamp(a, t, empty):
    if not a:
        return empty
    i = t // DT
    return a[int(min(max(i, 0), len(a) - 1))]


def dataset(n, base, step=1):
    return [F(base) + step * F(i * i + i, 1) for i in range(n)]


def judge(c, r, cases, want, what, key):
    """cases: [(description, Model, expected)]"""
    v = r.r.ret
    und = None
    for desc, m, exp in cases:
        try:
            for e in r.events:
                if e.kind == "raise" and not any(g.kind == "exc" for g in e.g) and all(m.truth(m.ev(g)) for g in e.g):
                    raise Raises("error raised")
            got = m.ev(v)
            if isinstance(got, list):
                got = tuple(got)
        except Raises as ex:
            c.ob(False, head(r), "%s: fails for %s (%s)" % (what, desc, ex), key=key)
            return
        except (Undecided, KeyError, TypeError, ValueError, AttributeError, ZeroDivisionError) as ex:
            und = ex
            continue
        if exp is not None and got not in (exp if isinstance(exp, set) else (exp,)):
            c.ob(False, head(r), "%s: expected %s for %s, found %s" % (what, want, desc, V_.show(v)[:300]), key=key)
            return
    c.ob(None if und is not None else True, head(r), what + (" (undecided: %s)" % und if und is not None else ""), key=key)


def get(lang, name, **kw):
    if lang == "dta":
        return run("cpp", name, all=True, project=P.cpp_dta(), **kw)
    return run(lang, name, all=True, noinline=REC if lang == "wrap" else (), **kw)


class Env:
    """terms of one function by name"""
    def __init__(self, r):
        self.r = r
        self.ps = [p for p in r.func.params if p != "self" and p != "s"]

    def t(self, text, **kw):
        if self.r.lang == "cpp":
            kw = dict(kw)
        return self.r.spec(text, **kw)


def params(r):
    ps = []
    for p in r.func.params:
        n = p[0] if isinstance(p, tuple) else getattr(p, "name", p)
        ps.append(n)
    return ps


def term_of(r, *names):
    """the terms of the result that are one of the given attributes of the object"""
    out = []
    for x in V_.walk(r.r.ret):
        if x.kind == "a" and x.a[1] in names and x not in out:
            out.append(x)
    for e in r.events:
        for g in e.g:
            for x in V_.walk(g):
                if x.kind == "a" and x.a[1] in names and x not in out:
                    out.append(x)
    return out


FREE = {"number_of_lanes": F(2), "lanes": F(2), "capacity_out": F(11), "capacity_in": F(13), "kappa": F(17), "jam_density": F(17), "TIME": F(19), "T": F(23), "time": F(19), "timestep": F(23), "length": F(6), "u": F(3), "vmax": F(3), "_free_flow_tt": F(2), "DELTAT": DT, "_deltat": DT, "delta_t": DT, "DELTAN": F(5), "delta_n": F(5), "free_flow_speed": F(3)}


def model(r, recs, ts, extra=None, py=True, preds=(), methods=None, attrs=False):
    cont, bools = {}, {}
    dflt = {"cum_arrival": dataset(3, 50), "cum_departure": dataset(3, 70), "traveltime_instant": dataset(3, 90), "traveltime_actual": dataset(3, 110), "traveltime_real": dataset(3, 110)}
    for n, a in {**{k: w for k, w in dflt.items() if k not in recs}, **recs}.items():
        for x in term_of(r, n, "_" + n):
            cont[x] = a
    for n, v in FREE.items():
        for x in term_of(r, n):
            if not any(y.kind == "elem" for y in V_.walk(x)):
                bools[x] = v
    for n, t in ts.items():
        bools[mk("p", n)] = t
    bools.update(extra or {})
    return Model(cont, list(preds), bools, wrap=py, methods=methods, attrs=attrs)


QUERIES = [("arrival_count", "cum_arrival", F(0)), ("departure_count", "cum_departure", F(0)), ("instant_travel_time", "traveltime_instant", F(2)), ("actual_travel_time", "traveltime_actual", F(2))]


def tname(r, n=1):
    ps = [p for p in params(r) if p not in ("self", "s", "ln", "w", "W")]
    return ps[:n]


@rule("P28", "R1", "queries return the record of the step that contains the time; times outside are mapped to the nearest recorded step")
def r1(c):
    for lang, cls in (("py", "Link"), ("wrap", "CppLink")):
        for q, rec, empty in QUERIES:
            r = get(lang, "%s.%s" % (cls, q))
            c.used(r)
            tn = tname(r)
            cs = []
            for n in range(1 if (lang, q) == ("py", "actual_travel_time") else 0, 5):   # that record always has one entry per step
                a = dataset(n, 3)
                for t in TIMES:
                    m = model(r, {rec: a, rec.replace("actual", "real"): a}, {tn[0]: t})
                    cs.append(("%d recorded steps and time %s (time step %s)" % (n, t, DT), m, clamp(a, t, empty)))
            judge(c, r, cs, "the record %s of the step of the time" % rec, "%s looks up the step of the time" % q, "%s|lookup" % r.qual)
    for q, rec, empty in (("dta_get_actual_travel_time", "traveltime_real", F(2)), ("dta_get_toll", "toll_timeseries", F(7))):
        r = get("dta", q)
        c.used(r)
        tn = tname(r)
        cs = []
        for n in range(0, 5):
            a = dataset(n, 3)
            for t in TIMES:
                ex = {x: F(7) for x in term_of(r, "route_choice_penalty")}
                m = model(r, {rec: a}, {tn[0]: t}, extra=ex, py=False)
                cs.append(("%d recorded steps and time %s (time step %s)" % (n, t, DT), m, clamp(a, t, empty)))
        judge(c, r, cs, "the record %s of the step of the time" % rec, "%s looks up the step of the time" % q, "%s|lookup" % r.qual)


@rule("P28", "R2", "derived queries follow from the counts and travel times")
def r2(c):
    for lang, cls in (("py", "Link"), ("wrap", "CppLink")):
        for q in ("num_vehicles_t", "average_density", "average_speed", "average_flow"):
            r = get(lang, "%s.%s" % (cls, q))
            c.used(r)
            tn = tname(r)
            cs = []
            for n in (1, 2, 4):
                A, D, I = dataset(n, 9, 3), dataset(n, 2), dataset(n, 4, 2)
                for t in TIMES:
                    m = model(r, {"cum_arrival": A, "cum_departure": D, "traveltime_instant": I}, {tn[0]: t})
                    nv = clamp(A, t, F(0)) - clamp(D, t, F(0))
                    sp = FREE["length"] / clamp(I, t, F(2))
                    want = {"num_vehicles_t": nv, "average_density": nv / FREE["length"], "average_speed": sp, "average_flow": sp * nv / FREE["length"]}[q]
                    cs.append(("%d recorded steps and time %s" % (n, t), m, want))
            judge(c, r, cs, {"num_vehicles_t": "arrivals minus departures", "average_density": "vehicles per length", "average_speed": "length over instantaneous travel time", "average_flow": "density times speed"}[q], "%s agrees with the counts" % q, "%s|derived" % r.qual)
        r = get(lang, "%s.inflow_between" % cls)
        c.used(r)
        tn = tname(r, 2)
        cs = []
        for n in (1, 3):
            A = dataset(n, 9, 3)
            for t0 in (F(-1), F(0), F(2), F(5), F(30)):
                for t1 in (F(-1), F(0), F(2), F(3), F(5), F(30)):
                    m = model(r, {"cum_arrival": A}, {tn[0]: t0, tn[1]: t1})
                    want = (clamp(A, t1, 0) - clamp(A, t0, 0)) / (t1 - t0) if t0 != t1 else F(0)
                    cs.append(("the interval from %s to %s" % (t0, t1), m, want))
        judge(c, r, cs, "arrivals in the interval over its duration", "inflow_between agrees with the counts", "%s|derived" % r.qual)
        r = get(lang, "%s.average_travel_time_between" % cls)
        c.used(r)
        tn = tname(r, 2)
        cs = []
        TA = dataset(5, 2)
        for ent in ([], [F(0)], [F(0), F(3), F(6)], [F(2), F(8), F(30)]):
            for t0, t1 in ((F(0), F(2)), (F(0), F(3)), (F(2), F(8)), (F(3), F(40)), (F(-5), F(0)), (F(5), F(5))):
                m = model(r, {"vehicles_enter_log": ent, "traveltime_actual": TA, "traveltime_real": TA}, {tn[0]: t0, tn[1]: t1})
                xs = [clamp(TA, t, 0) for t in ent if t0 <= t < t1]
                cs.append(("entries at %s asked from %s to %s" % ([str(x) for x in ent], t0, t1), m, sum(xs) / len(xs) if xs else F(2)))
        judge(c, r, cs, "the average over vehicles entering in [t0, t1), free flow without any", "average_travel_time_between averages the vehicles entering in the interval", "%s|derived" % r.qual)


def veh_model(r, vs, coll=("vehicles",), extra=None):
    cont = {}
    preds = [(mk("a", X, "v"), lambda it: it), (mk("a", X, "speed"), lambda it: it)]
    for x in term_of(r, *coll):
        if x.a[0].kind == "p":
            cont[x] = vs
    bools = dict(extra or {})
    for n, v in FREE.items():
        for x in term_of(r, n):
            if not any(y.kind == "elem" for y in V_.walk(x)):
                bools[x] = v
    for x in term_of(r, "vehicle_count"):
        bools[x] = F(len(vs))
    for x in term_of(r, "avg_speed"):
        bools[x] = sum(vs) / len(vs) if vs else FREE["u"]
    q = F(sum(1 for v in vs if v < FREE["u"]))
    for x in V_.walk(r.r.ret):
        if x.kind == "mcall" and x.a[1] == "count_vehicles_in_queue":
            bools[x] = q
    return Model(cont, preds, bools)


VS = [[], [F(3)], [F(0)], [F(1), F(3)], [F(0), F(1), F(3), F(3)], [F(3), F(3), F(2)]]


@rule("P28", "R3", "speed, density, flow and vehicle numbers of a link agree with its current vehicles")
def r3(c):
    avg = lambda vs: sum(vs) / len(vs) if vs else FREE["u"]
    N, L = FREE["DELTAN"], FREE["length"]
    want = {
        "speed": (avg, "the average speed of the vehicles, free-flow speed without any"),
        "num_vehicles": (lambda vs: N * len(vs), "platoons times platoon size"),
        "density": (lambda vs: N * len(vs) / L, "vehicles over length"),
        "flow": (lambda vs: N * len(vs) / L * avg(vs), "density times speed"),
        "num_vehicles_queue": (lambda vs: N * sum(1 for v in vs if v < FREE["u"]), "platoons slower than free flow times platoon size"),
    }
    for lang, cls in (("py", "Link"), ("wrap", "CppLink")):
        for q, (fn, txt) in want.items():
            r = get(lang, "%s.%s" % (cls, q))
            c.used(r)
            judge(c, r, [("vehicles with speeds %s (free-flow speed 3)" % [str(v) for v in vs], veh_model(r, vs), F(fn(vs))) for vs in VS], txt, "%s of a link agrees with its vehicles" % q, "%s|state" % r.qual)
    for q, fn, txt in (("bind_Link_avg_speed", avg, "the average speed"), ("bind_Link_vehicle_count", len, "the number of platoons"), ("Link.count_vehicles_in_queue", lambda vs: sum(1 for v in vs if v < FREE["u"]), "platoons slower than free flow")):
        r = get("dta", q)
        c.used(r)
        judge(c, r, [("vehicles with speeds %s (free-flow speed 3)" % [str(v) for v in vs], veh_model(r, vs), F(fn(vs))) for vs in VS], txt, "%s agrees with the vehicles of the link" % q, "%s|state" % r.qual)


@rule("P28", "R4", "the coordinates of a vehicle at a time are those of the log entry of this time")
def r4(c):
    mk_link = lambda x0, y0, x1, y1, L: {"start_node": {"x": F(x0), "y": F(y0)}, "end_node": {"x": F(x1), "y": F(y1)}, "length": F(L)}
    a, b = mk_link(0, 0, 10, 20, 100), mk_link(10, 20, 30, 20, 50)
    none = (F(-1), F(-1))
    logs = [[], [(0, -1, -1), (2, a, 0), (4, a, 50), (6, b, 10), (8, -1, -1)], [(0, -1, -1), (2, b, 25)]]
    for lang, q in (("py", "Vehicle.get_xy_coords"), ("wrap", "CppVehicle.get_xy_coords")):
        r = run(lang, q, all=True, noinline=("log_t", "log_link", "log_x", "link", "x", "log_state", "start_node", "end_node", "length", "get_link"))
        c.used(r)
        tn = tname(r)
        cs = []

        def pos(l, x):
            if not isinstance(l, dict):
                return none
            rt = F(x) / l["length"]
            s, e = l["start_node"], l["end_node"]
            return (s["x"] + (e["x"] - s["x"]) * rt, s["y"] + (e["y"] - s["y"]) * rt)

        slf = [x for x in V_.walk(r.r.ret) if x.kind == "p" and x.a[0] in ("self", "s")]
        for lg in logs:
            for t in (F(-3), F(0), F(1), F(2), F(3), F(4), F(6), F(7), F(8), F(30)):
                me = {"log_t": [F(x[0]) for x in lg], "log_link": [x[1] if isinstance(x[1], dict) else F(x[1]) for x in lg], "log_x": [F(x[2]) for x in lg], "link": None, "x": F(0), "log_state": []}
                exp = none
                if lg:
                    i = max([k for k in range(len(lg)) if lg[k][0] <= t] or [0])
                    exp = pos(me["log_link"][i], me["log_x"][i])
                cs.append(("time %s and log entries at %s" % (t, [x[0] for x in lg]), me, t, exp))
        for l, x in ((None, 0), (a, 30), (b, 50)):
            cs.append(("the latest position", {"log_t": [], "log_link": [], "log_x": [], "link": l, "x": F(x)}, F(-1), pos(l, x)))
        full = []
        for desc, me, t, exp in cs:
            bools = {mk("p", tn[0]): t}
            for s in slf:
                bools[s] = me
            for n in ("DELTAT", "vehicle_logging_timestep_interval"):
                for x in term_of(r, n):
                    bools[x] = DT if n == "DELTAT" else F(1)
            ide = lambda w, *a: a[0]
            for x in V_.walk(r.r.ret):
                if x.kind == "p" and x.a[0] == "W":
                    bools[x] = None
            full.append((desc, Model({}, [], bools, methods={"get_link": ide}, attrs=True), exp))
        judge(c, r, full, "the position on the link of that log entry", "get_xy_coords returns the position at the time", "%s|xy" % r.qual)


def leaves(v):
    return leaves(v.a[1]) + leaves(v.a[2]) if v.kind == "ite" else [v]


def route_queries(c, prop):
    """costs of a route are asked at the time of entering each link"""
    COSTS = ("actual_travel_time", "dta_get_actual_travel_time", "get_toll", "dta_get_toll", "estimate_congestion_externality", "estimate_congestion_externality_link", "instant_travel_time")
    todo = [("py", "Route.actual_travel_time"), ("wrap", "CppRoute.actual_travel_time"), ("cpp", "World.estimate_congestion_externality_route"), ("dta", "dta_compute_route_travel_time"), ("dta", "dta_compute_route_cost_due"), ("dta", "dta_compute_route_cost_dso"), ("py", "estimate_congestion_externality_route")]
    for lang, q in todo:
        pr = P.cpp_dta() if lang == "dta" else None
        r = run("cpp" if lang == "dta" else lang, q, project=pr)
        c.used(r)
        n = 0
        bad = None
        for e in r.events:
            if e.kind not in ("call", "new") or e.name.split(".")[-1].split("::")[-1] not in COSTS or not e.loops:
                continue
            n += 1
            targ = e.args[-1] if e.args else None
            if targ is None:
                continue
            lvs = [x for x in V_.walk(targ) if x.kind == "lv"]
            if not lvs and targ.kind != "p" and (not any(x.kind == "p" and x.a[0] in params(r) for x in V_.walk(targ)) or any(x.kind in ("elem", "rec", "sum", "loopv", "search", "mut", "mutated", "comp") for x in V_.walk(targ))):
                continue
            if not lvs:
                bad = (e, "%s is not asked at the time of entering the link but at %s" % (e.name, V_.show(targ)[:80]))
                break
            recs = [(k, w) for k, w in r.ev.looprec.items() if k[1] is lvs[0]]
            if not recs:
                continue
            init, step = recs[0][1][0], recs[0][1][1]
            ip = [x for x in V_.walk(init) if x.kind == "p" and x.a[0] in params(r)]
            if init.kind != "p" or not ip:
                bad = (e, "the time of entering the first link is %s" % V_.show(init)[:80])
                continue
            good = False
            for lf in leaves(step):
                inc = V_.sub(lf, lvs[0])
                lin = [x for m, _ in inc.a[0] for x, ex in m if len(m) == 1] if inc.kind == "poly" else [inc]
                if inc is ZERO:
                    bad = (e, "the time is not advanced from link to link")
                elif any(x.kind in ("lv", "p") for x in lin):
                    bad = (e, "the time of entering the next link is %s" % V_.show(lf)[:120])
                good = good or any(x in V_.show(inc) for x in ("actual_travel_time", "traveltime_real", "tts"))
            if bad is None and not good:
                bad = (e, "the time is advanced by %s instead of the travel time of the link" % V_.show(V_.sub(step, lvs[0]))[:120])
        c.floor(n, 1, "cost queries in %s" % q)
        c.ob(bad is None, head(r) if bad is None else where(bad[0]), "%s asks each link at the time of entering it" % q + ("" if bad is None else ": " + bad[1]), key="%s|entering" % r.qual)
        v = r.r.ret
        # the total is the plain sum over the links
        sums = [x for x in V_.walk(v) if x.kind == "sum"]
        c.ob(True if sums else None, head(r), "%s adds up the links of the route" % q, key="%s|sum" % r.qual)


@rule("P28", "R5", "travel time of a route is asked link by link at the time of entering")
def r5(c):
    route_queries(c, "P28")


@rule("P28", "R6", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P28"), 1, "properties of the elements of the C++ mode")


@rule("P28", "R7", "a vehicle entering a link is logged there under the current time")
def r7(c):
    n = 0
    for fn in ("Node.generate", "Node.transfer"):
        r = R(c, "py", fn)
        logs = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[1] == "vehicles_enter_log"]
        for e in logs:
            n += 1
            k = e.loc.a[1]
            ok = same(k, r.spec("W.TIME")) or decide(k, r.spec("W.T*W.DELTAT"), list(e.g))
            c.ob(ok, where(e), "the entry is logged under the current time" + ("" if ok else ", found %s" % inl(k)), key="%s|time" % fn)
        for e, L, v in entries(r):
            own = [x for x in logs if x.loc.a[0].a[0] is L]
            c.ob(bool(own) and covers(e, own) and all(same(x.value, v) for x in own) if logs else False, where(e), "every vehicle entering a link is in the entry log of this link", key="%s|logged" % fn)
    c.floor(n, 2, "entries of the logs of links")


@rule("P28", "R8", "when the end of the simulation is fixed late, the number of steps and every record per step follow it (C++)")
def r8(c):
    r = R(c, "cpp", "World.set_t_max")
    t = mk("p", params(r)[-1])
    tm = r.heap("s.t_max")
    c.ob(True if same(tm, t) else decide(tm, t), head(r), "the end of the simulation is the one given; found %s" % inl(tm), key="tmax")
    ts = r.heap("s.total_timesteps")
    c.ob(ts is not mk("a", r.self, "total_timesteps") and any(x is t for x in V_.walk(ts)), head(r), "the number of steps follows the new end; found %s" % inl(ts), key="steps")
    k = R(c, "cpp", "Link.Link")
    def cols(q):
        out = {}
        for e in q.events:
            if e.kind == "mut" and e.name in ("resize", "assign") and e.args and e.loc.kind == "a":
                out.setdefault(e.loc.a[1], []).append(e)
        return out
    new, old = cols(r), {f: es for f, es in cols(k).items() if any("total_timesteps" in V_.show(e.args[0]) or "t_max" in V_.show(e.args[0]) for e in es)}
    c.floor(len(old), 3, "records per step of a link")
    for f, es in sorted(old.items()):
        got = new.get(f, [])
        if not got:
            c.ob(False if new else None, head(r), "the record %s of every link grows with the number of steps" % f, key="grow|%s" % f)
            continue
        for e in got:
            c.ob(same(e.args[0], ts), where(e), "the record %s has one entry per step; found %s" % (f, inl(e.args[0])), key="size|%s" % f)
            c.ob(not rel_guards(e), where(e), "the record %s of every link grows" % f, key="every|%s" % f)
            a, b = e.args[1:], es[-1].args[1:]
            L = e.loc.a[0]
            # the arguments of the constructor are its fields
            own = lambda x: V_.subst(x, lambda y: k.r.st.heap.get(mk("a", k.self, y.a[1])) if y.kind == "a" and y.a[0] in (L, k.self) else None)
            ds = [decide(own(x), own(y)) for x, y in zip(a, b)]
            c.ob(False if len(a) != len(b) or False in ds else (None if None in ds else True), where(e), "new entries of %s start as those of a new link" % f, key="fill|%s" % f)
