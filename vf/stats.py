"""Analyses and tables against their definitions: every function below is summarised from the source (guards, values, recurrences)
and the summary is evaluated on small histories (models of vehicles, links and logs); the definition is evaluated on the same ones.
"""
import itertools
from fractions import Fraction as F
from .live import LModel, Mat, DD, Obj, Tab, model, final, std
from .bridge import agree
from .setmodel import Undecided, Raises
from .q import run, proj
from . import project as P

RAISES = "an error"
INF = float("inf")
NI = ("Analyzer.discard_outdated_results", "World.get_link", "World.get_node", "Analyzer.compute_edie_state", "Analyzer.compute_mfd", "Analyzer.od_analysis", "Analyzer.link_analysis_coarse", "Analyzer.basic_analysis", "Analyzer.compute_accurate_traj", "Analyzer.od_to_pandas", "Analyzer.link_to_pandas", "Analyzer.vehicles_to_pandas", "Vehicle.get_xy_coords", "TaxiHandler.assign_taxi", "TaxiHandler.compute_stats")


def num(x):
    return F(x) if x is not None and isinstance(x, int) and not isinstance(x, bool) else x


def nums(x):
    return [num(y) for y in x]


def names(*objs):
    d = {o["name"]: o for o in objs}
    f = lambda o, x: x if isinstance(x, Obj) else d[x]
    return {"get_link": f, "World.get_link": f, "get_node": f, "World.get_node": f}


# ---- trajectories --------------------------------------------------------------------------------------------------
def ext(l, ts, xs, dt):
    ts, xs = list(ts), list(xs)
    if xs[0] != 0:
        xs.insert(0, F(0))
        ts.insert(0, ts[0] - xs[1] / l["u"])
    if l["length"] - l["u"] * dt <= xs[-1] < l["length"]:
        ts.append(ts[-1] + (l["length"] - xs[-1]) / l["u"])
        xs.append(l["length"])
    return ts, xs


def traj_cases():
    mk_ = lambda nm, L, u: Obj(name=nm, length=F(L), u=F(u), tss=[], xss=[], names=[], ls=[], cs=[])
    logs = {
        "first seen past the start": [(0, None, -1, -1), (1, "l", 3, 0), (2, "l", 20, 1)],
        "last seen within one step of the end": [(1, "l", 0, 0), (2, "l", 45, 0)],
        "last seen exactly one step before the end": [(1, "l", 0, 0), (2, "l", 40, 1)],
        "still on the link": [(1, "l", 0, 1), (2, "l", 10, 1), (3, "l", 39, 1)],
        "recorded at the end itself": [(1, "l", 0, 1), (2, "l", 30, 1), (3, "l", 50, 1)],
        "standing": [(5, "l", 0, 0), (6, "l", 12, 0), (7, "l", 12, 0), (8, "l", 12, 0)],
        "two links": [(0, None, -1, -1), (1, "l", 0, 1), (2, "l", 44, 1), (3, "m", 6, 0), (4, "m", 21, 2), (5, None, -1, -1)],
        "only one record on a link": [(1, "l", 45, 1), (2, "m", 5, 0), (3, "m", 7, 0)],
        "back on an earlier link": [(1, "l", 0, 0), (2, "m", 4, 0), (3, "l", 8, 1), (4, "l", 15, 1)],
    }
    groups = [[k] for k in logs] + [list(logs), list(logs)[::-1]]
    for g in groups:
        for dt in (1, 2):
            l, m = mk_("l", 50, 10), mk_("m", 30, 15)
            by = {"l": l, "m": m, None: F(-1)}
            vs, want = [], {"l": [], "m": []}
            for n, k in enumerate(g):
                rec = logs[k]
                v = Obj(name="v%d" % n, color="c%d" % n, log_t=[F(t * dt) for t, _, _, _ in rec], log_link=[by[a] for _, a, _, _ in rec], log_x=[F(x) for _, _, x, _ in rec], log_lane=[F(y) for _, _, _, y in rec])
                vs.append(v)
                old, parts = None, []
                for t, a, x, y in rec:
                    if a is not None and a != old:
                        parts.append((a, y, [], []))
                    if a is not None:
                        parts[-1][2].append(F(t * dt))
                        parts[-1][3].append(F(x))
                        old = a
                for a, y, ts, xs in parts:
                    ts, xs = ext(by[a], ts, xs, F(dt))
                    want[a].append((tuple(ts), tuple(xs), v["name"], F(y), v["color"]))
            W = Obj(LINKS=[l, m], VEHICLES={v["name"]: v for v in vs}, DELTAT=F(dt), vehicle_logging_timestep_interval=F(1))
            s = Obj(flag_trajectory_computed=F(0))
            get = lambda ret, l=l, m=m: {x["name"]: [(tuple(a), tuple(b), c, d, e) for a, b, c, d, e in zip(x["tss"], x["xss"], x["names"], x["ls"], x["cs"])] if len({len(x[y]) for y in ("tss", "xss", "names", "ls", "cs")}) == 1 else "lists of different lengths" for x in (l, m)}
            yield s, W, {}, names(l, m), get, want, "a vehicle " + ", ".join(g[:2]) + (" (step %d s)" % dt)


# ---- cells ---------------------------------------------------------------------------------------------------------
def edie_ref(l, T, dn):
    dt, dx = l["edie_dt"], l["edie_dx"]
    nt, nx = int(T / dt), int(l["length"] / dx)
    tn, dnm = {}, {}
    for ts, xs in zip(l["tss"], l["xss"]):
        for (t0, x0), (t1, x1) in zip(zip(ts, xs), zip(ts[1:], xs[1:])):
            i = int(t0 // dt)
            if x1 > x0:
                for j in range(nx):
                    d = min(x1, (j + 1) * dx) - max(x0, j * dx)
                    if d > 0:
                        dnm[i, j] = dnm.get((i, j), F(0)) + d * dn
                        tn[i, j] = tn.get((i, j), F(0)) + d * (t1 - t0) / (x1 - x0) * dn
            else:
                j = int(x0 // dx)
                tn[i, j] = tn.get((i, j), F(0)) + (t1 - t0) * dn
    out = {}
    for i in range(nt):
        for j in range(nx):
            a, b = tn.get((i, j), F(0)), dnm.get((i, j), F(0))
            out[i, j] = (a, b, a / dt / dx, b / dt / dx, b / a if a else l["u"])
    return out


def edie_cases():
    tr = {
        "within one cell": ([0, 1, 2], [1, 4, 9]),
        "over a cell boundary": ([0, 1, 3], [0, 5, 25]),
        "from boundary to boundary, then standing, then to the end": ([5, 7, 9, 12], [10, 20, 20, 50]),
        "in the second period": ([70, 71, 72], [33, 38, 41]),
        "over several cells": ([2, 6], [3, 47]),
        "after the simulation": ([130, 131], [3, 7]),
        "recorded twice at one time": ([4, 4, 6], [6, 6, 16]),
        "into the rest behind the last cell": ([8, 10], [35, 47]),
        "in the last period": ([119, F(239, 2)], [22, 26]),
    }
    for g in [[k] for k in tr] + [list(tr), list(tr)[::-1], ["over several cells"] * 3]:
        for dn, L2 in ((1, 50), (3, 47)):
            ls = []
            for nm, L, dx, u in (("a", L2, 10, 20), ("b", 100, 25, 15)):
                l = Obj(name=nm, length=F(L), u=F(u), edie_dx=F(dx), edie_dt=F(60), tss=[nums(tr[k][0]) for k in g], xss=[nums(tr[k][1]) for k in g], names=["v%d" % i for i in range(len(g))])
                for f in ("k_mat", "q_mat", "v_mat", "tn_mat", "dn_mat"):
                    l[f] = Mat([3, int(F(L) / dx)], {(0, 0): F(7), (1, 1): F(9)} if f != "v_mat" else {})    # of an earlier analysis
                ls.append(l)
            W = Obj(LINKS=ls, TMAX=F(120), DELTAN=F(dn), DELTAT=F(1), EULAR_DT=F(60))
            s = Obj(flag_edie_state_computed=F(0))

            def get(ret, ls=ls):
                out = {}
                for l in ls:
                    ks = [(i, j) for i in range(2) for j in range(int(l["length"] / l["edie_dx"]))]
                    out[l["name"]] = {k: tuple(l[f].get(l[f].key(k), F(0)) for f in ("tn_mat", "dn_mat", "k_mat", "q_mat", "v_mat")) for k in ks}
                return out
            yield s, W, {}, {}, get, {l["name"]: edie_ref(l, F(120), F(dn)) for l in ls}, "%d vehicles, one %s (platoons of %d)" % (len(g), g[0], dn)


def area_links():
    l1 = Obj(name="l1", length=F(50), edie_dt=F(10), edie_dx=F(25), tn_mat=Mat([3, 2], {(0, 0): F(5), (1, 1): F(4)}), dn_mat=Mat([3, 2], {(1, 1): F(3)}))
    l2 = Obj(name="l2", length=F(30), edie_dt=F(10), edie_dx=F(10), tn_mat=Mat([3, 3], {(0, 0): F(7)}), dn_mat=Mat([3, 3], {(0, 1): F(4), (1, 2): F(2)}))
    l3 = Obj(name="l3", length=F(40), edie_dt=F(10), edie_dx=F(20), tn_mat=Mat([3, 2], {(0, 0): F(9)}), dn_mat=Mat([3, 2], {(0, 1): F(8)}))
    for n, l in enumerate((l1, l2, l3)):
        for f in ("k_mat", "q_mat", "v_mat"):
            l[f] = Mat([2, l["tn_mat"].shape[1]], {(i, j): F(100 * n + 10 * i + j + ord(f[0])) for i in range(2) for j in range(l["tn_mat"].shape[1])})
    return l1, l2, l3


def mfd_cases():
    for sel in (None, ["l1"], ["l2", "l1"], ["l1", "l2", "l3"], ["l3"]):
        for asobj in (False, True):
            ls = area_links()
            W = Obj(LINKS=list(ls), EULAR_DT=F(10), K_AREA=DD(lambda: [F(0)] * 2), Q_AREA=DD(lambda: [F(0)] * 2))
            by = {l["name"]: l for l in ls}
            use = [by[n] for n in (sel or by)]
            key = frozenset(use)
            want = tuple(tuple(sum((sum(l[f].cells()[i, j] for j in range(l[f].shape[1])) for l in use), F(0)) / sum(l["length"] * 10 for l in use) for i in range(2)) for f in ("tn_mat", "dn_mat"))
            get = lambda ret, W=W, key=key: (tuple(W["K_AREA"][key]), tuple(W["Q_AREA"][key]))
            yield Obj(), W, {"links": None if sel is None else [by[n] if asobj else n for n in sel]}, names(*ls), get, want, "the links %s" % sel


def mfd_table_cases():
    for sel in (None, ["l1"], ["l2", "l1"]):
        ls = area_links()
        by = {l["name"]: l for l in ls}
        key = frozenset(by[n] for n in (sel or by))
        W = Obj(LINKS=list(ls), EULAR_DT=F(10), K_AREA=DD(lambda: [F(0)] * 2), Q_AREA=DD(lambda: [F(0)] * 2))
        W["K_AREA"][key], W["Q_AREA"][key] = [F(1), F(2)], [F(3), F(4)]
        want = tab(("t", "network_k", "network_q"), ((F(0), F(1), F(3)), (F(10), F(2), F(4))))
        yield Obj(), W, {"links": sel}, names(*ls), (lambda ret: ret), want, "the links %s" % sel


def state_table_cases():
    for n in (1, 3):
        ls = area_links()[:n]
        rows = tuple((l["name"], i * l["edie_dt"], j * l["edie_dx"], l["edie_dt"], l["edie_dx"], l["q_mat"][i, j], l["k_mat"][i, j], l["v_mat"][i, j]) for l in ls for i in range(2) for j in range(l["k_mat"].shape[1]))
        yield Obj(), Obj(LINKS=list(ls), EULAR_DT=F(10)), {}, names(*ls), (lambda ret: ret), tab(("link", "t", "x", "delta_t", "delta_x", "q", "k", "v"), rows), "%d links" % n


def grid_cases(lang):
    for L, u, T, dt, dx in ((500, 20, 600, 120, 50), (430, 10, 700, 120, 43), (90, 20, 600, 60, 20)):
        s = Obj(length=F(L), u=F(u), edie_dx=F(dx))
        W = Obj(TMAX=F(T), EULAR_DT=F(dt), TSIZE=F(3), DELTAT=F(1))
        get = lambda ret, s=s, L=L, T=T, dt=dt, dx=dx: (s["edie_dt"], s["edie_dx"]) + tuple(all(a >= b for a, b in zip(s[f].shape, (int(F(T) / dt), int(F(L) / dx)))) and s[f].shape[1] == int(F(L) / dx) for f in ("k_mat", "q_mat", "v_mat", "tn_mat", "dn_mat"))
        yield s, W, {}, {}, get, (F(dt), F(dx)) + (True,) * 5, "length %d, cells of %d m, %d s, periods of %d s" % (L, dx, T, dt)


# ---- links and origin-destination pairs ----------------------------------------------------------------------------
def coarse_cases():
    for tts in ([30, 30, 40], [30, -1, -1, 50], [-1, -1], [-1, 0, 60], []):
        for arr, dep in ((10, 6), (4, 4), (3, 0)):
            ls = [Obj(name="l%d" % i, length=F(300), u=F(10 + 5 * i), cum_arrival=nums([0, 1, arr + i]), cum_departure=nums([0, 0, dep]), traveltime_actual=[F(x + i) if x > 0 else F(x) for x in tts], vehicles=[]) for i in range(2)]
            want = {}
            for l in ls:
                pos = [x for x in l["traveltime_actual"] if x > 0]
                has = bool(l["cum_departure"][-1] and pos)
                want[l["name"]] = (l["cum_departure"][-1], l["cum_arrival"][-1] - l["cum_departure"][-1], l["length"] / l["u"], sum(pos) / len(pos) if has else F(-1), std(pos) if has else F(-1))
            s = Obj()
            get = lambda ret, s=s, ls=ls: {l["name"]: tuple(s[f][l] for f in ("linkc_volume", "linkc_remain", "linkc_tt_free", "linkc_tt_ave", "linkc_tt_std")) for l in ls}
            yield s, Obj(LINKS=ls), {}, {}, get, want, "travel times %s, %d vehicles in and %d out" % (tts, arr, dep)


def link_table_cases():
    ls = [Obj(name="l%d" % i, length=F(300 + i), start_node=Obj(name="a%d" % i), end_node=Obj(name="b%d" % i)) for i in range(3)]
    s = Obj(linkc_volume={l: F(5 + i) for i, l in enumerate(ls)}, linkc_remain={l: F(2 * i) for i, l in enumerate(ls)}, linkc_tt_free={l: F(20 + i) for i, l in enumerate(ls)}, linkc_tt_ave={l: F(30 + 3 * i) for i, l in enumerate(ls)}, linkc_tt_std={l: F(i) for i, l in enumerate(ls)})
    cols = ("link", "start_node", "end_node", "traffic_volume", "vehicles_remain", "free_travel_time", "average_travel_time", "stddiv_travel_time", "delay_ratio", "length")
    rows = tuple((l["name"], l["start_node"]["name"], l["end_node"]["name"], s["linkc_volume"][l], s["linkc_remain"][l], s["linkc_tt_free"][l], s["linkc_tt_ave"][l], s["linkc_tt_std"][l], s["linkc_tt_ave"][l] / s["linkc_tt_free"][l], l["length"]) for l in ls)
    yield s, Obj(LINKS=ls), {}, {}, (lambda ret: ret), tab(cols, rows), "three links"


def cumulative_table_cases():
    for n, T in ((3, 3), (3, 5), (4, 3)):
        ls = [Obj(name="l%d" % i, cum_arrival=[F(10 * i + k) for k in range(n)], cum_departure=[F(7 * i + k) for k in range(n)], traveltime_actual=[F(30 + i + k) for k in range(T)], traveltime_instant=[F(40 + i + k) for k in range(T)]) for i in range(2)]
        rows = tuple((l["name"], F(5 * i), l["cum_arrival"][i], l["cum_departure"][i], l["traveltime_actual"][i], l["traveltime_instant"][i]) for l in ls for i in range(min(n, T)))
        yield Obj(), Obj(LINKS=ls, DELTAT=F(5), TSIZE=F(T)), {}, {}, (lambda ret: ret), tab(("link", "t", "arrival_count", "departure_count", "actual_travel_time", "instantanious_travel_time"), rows), "%d recorded of %d steps" % (n, T)


def floyd(m):
    n = m.shape[0]
    c = m.cells()
    d = {(i, j): F(0) if i == j else c[i, j] for i in range(n) for j in range(n)}
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if d[i, k] + d[k, j] < d[i, j]:
                    d[i, j] = d[i, k] + d[k, j]
    return Mat([n, n], d)


def od_cases():
    ns = [Obj(name="n%d" % i, id=F(i)) for i in range(4)]
    base = [(0, 1, 300, 10, None), (1, 2, 400, 20, None), (0, 2, 900, 30, None)]
    nets = {
        "a plain network": base,
        "two links between the same nodes, the better one first": [(0, 1, 300, 10, None), (0, 1, 500, 10, None), (1, 2, 400, 20, None)],
        "two links between the same nodes, the better one last": [(0, 1, 500, 10, None), (0, 1, 300, 10, None), (1, 2, 400, 20, None)],
        "a link that is shorter and one that is faster": [(0, 1, 500, 50, None), (0, 1, 300, 10, None), (1, 2, 400, 20, None)],
        "a closed link on the shortest way": [(0, 1, 300, 10, 0), (0, 1, 600, 10, 2), (1, 2, 400, 20, None)],
    }
    vehs = {
        "completed and unfinished trips": [(0, 2, 100, 700), (0, 2, 140, 690), (0, 2, -1, 200), (0, 1, -1, 5), (1, 2, 30, 400)],
        "a vehicle without destination": [(0, 2, 100, 700), (0, None, -1, 50)],
        "no completed trip": [(0, 2, -1, 10)],
    }
    for (nn, net), (vn, vh), dn in itertools.product(nets.items(), vehs.items(), (1, 5)):
        links = [Obj(name="l%d" % i, start_node=ns[a], end_node=ns[b], length=F(L), u=F(u), capacity_in=None if ci is None else F(ci)) for i, (a, b, L, u, ci) in enumerate(net)]
        vs = {"v%d" % i: Obj(name="v%d" % i, orig=ns[a], dest=None if b is None else ns[b], travel_time=F(tt), distance_traveled=F(x), state="end" if tt != -1 else "run") for i, (a, b, tt, x) in enumerate(vh)}
        tm, ds = Mat([4, 4], {(i, j): INF for i in range(4) for j in range(4)}), Mat([4, 4], {(i, j): INF for i in range(4) for j in range(4)})
        adj = Mat([4, 4])
        for l in links:
            k = (int(l["start_node"]["id"]), int(l["end_node"]["id"]))
            adj[k] = F(1)
            if l["capacity_in"] != 0:
                tm[k], ds[k] = min(tm[k], l["length"] / l["u"]), min(ds[k], l["length"])
        tm, ds = floyd(tm), floyd(ds)
        want = {}
        for v in vs.values():
            if v["dest"] is None:
                continue
            od = (v["orig"]["name"], v["dest"]["name"])
            w = want.setdefault(od, {"n": F(0), "c": F(0), "tt": [], "d": [], "free": F(0), "dmin": ds[int(v["orig"]["id"]), int(v["dest"]["id"])]})
            w["n"] += dn
            w["d"].append(v["distance_traveled"])
            if v["travel_time"] != -1:
                w["c"] += dn
                w["tt"].append(v["travel_time"])
                w["free"] = tm[int(v["orig"]["id"]), int(v["dest"]["id"])]
        want = {od: (w["n"], w["c"], sum(w["tt"]) / len(w["tt"]) if w["tt"] else F(0), w["free"], sum(w["d"]) / len(w["d"]), sum(w["d"]), w["dmin"], std(w["tt"]) if w["tt"] else F(0), std(w["d"])) for od, w in want.items()}
        s = Obj(flag_od_analysis=F(0))
        W = Obj(NODES=list(ns), LINKS=links, VEHICLES=vs, DELTAN=F(dn), ADJ_MAT=adj)

        def get(ret, s=s):
            return {(o["name"], d["name"]): tuple(s[f][o, d] for f in ("od_trips", "od_trips_comp", "od_tt_ave", "od_tt_free", "od_dist_ave", "od_dist_total", "od_dist_min", "od_tt_std", "od_dist_std")) for o, d in list(s["od_trips"])}
        yield s, W, {}, {"floyd_warshall": lambda o, m, *a: floyd(m)}, get, want, "%s, %s, platoons of %d" % (nn, vn, dn)


def tab(cols, rows):
    return Tab(("table", tuple(cols), tuple(tuple(x) for x in rows)))


ODC = ("orig", "dest", "total_trips", "completed_trips", "free_travel_time", "average_travel_time", "stddiv_travel_time", "shortest_distance", "average_distance_traveled_per_veh", "stddiv_distance_traveled_per_veh")


def od_table(n=None):
    rows = [("a", "b", 50, 40, 30, 45, 4, 500, 600, 9), ("a", "c", 10, 10, 60, 60, 1, 900, 900, 0), ("b", "c", 25, 0, 0, 0, 0, 400, 450, 3), ("c", "a", 5, 5, 20, 90, 2, 300, 1500, 7), ("d", "a", 15, 10, 70, 77, 5, 1200, 1300, 11)]
    return [tuple(num(x) for x in r) for r in rows][:n]


def basic_cases():
    for lab, rows in (("several pairs", od_table()), ("one pair", od_table(1)), ("no completed trip", od_table()[2:3])):
        comp, tot = sum(r[3] for r in rows), sum(r[2] for r in rows)
        ttt = sum(r[3] * r[5] for r in rows)
        dl = sum(r[3] * (r[5] - r[4]) for r in rows)
        want = (comp, tot, sum(r[8] * r[2] for r in rows)) + ((ttt, ttt / comp, dl, dl / comp) if comp else (F(-1),) * 4)
        s = Obj()
        t = tab(ODC, rows)
        get = lambda ret, s=s: tuple(s[f] for f in ("trip_completed", "trip_all", "total_distance_traveled", "total_travel_time", "average_travel_time", "total_delay", "average_delay"))
        yield s, Obj(analyzer=s), {}, {"od_to_pandas": lambda o, t=t: t}, get, want, lab


def od_table_cases():
    a, b, c_ = [Obj(name=x) for x in "abc"]
    by = {"a": a, "b": b, "c": c_}
    fs = ("od_trips", "od_trips_comp", "od_tt_free", "od_tt_ave", "od_tt_std", "od_dist_min", "od_dist_ave", "od_dist_std")
    rows = od_table(3)
    s = Obj()
    for i, f in enumerate(fs):
        s[f] = DD(lambda: F(0))
        for r in rows:
            s[f][by[r[0]], by[r[1]]] = r[2 + i]
    yield s, Obj(), {}, {"od_analysis": lambda o: None}, (lambda ret: ret), tab(ODC, rows), "three pairs"


def areas_cases():
    for areas in ([["a"], ["b", "c"]], [["a", "b"], ["c"], ["d"]], [["a", "d"], ["a", "b", "c"]], [["d"], ["b", "c"]]):
        for given in (None, True):
            for asobj in (False, True):
                rows = od_table()
                nodes = {x: Obj(name=x) for x in "abcd"}
                nm = ["area %d including %s" % (i, a[0]) for i, a in enumerate(areas)] if not given else ["A%d" % i for i in range(len(areas))]
                out = []
                for i, o in enumerate(areas):
                    for j, d in enumerate(areas):
                        rs = [r for r in rows if r[0] in o and r[1] in d]
                        tt, ct = sum(r[2] for r in rs), sum(r[3] for r in rs)
                        if not tt:
                            continue
                        av = lambda k, w: sum(r[k] * r[w] for r in rs) / sum(r[w] for r in rs)
                        out.append((nm[i], nm[j], tt, ct, av(5, 3) if ct else NAN, av(4, 3) if ct else NAN, av(8, 2), av(7, 2)))
                t = tab(ODC, rows)
                s = Obj()
                want = tab(("origin_area", "destination_area", "total_trips", "completed_trips", "average_travel_time", "average_free_travel_time", "average_distance_traveled", "average_shortest_distance"), out)
                ms = dict(names(*nodes.values()), od_to_pandas=lambda o, t=t: t)
                yield s, Obj(analyzer=s), {"areas": [[nodes[x] if asobj else x for x in a] for a in areas], "area_names": nm if given else None}, ms, (lambda ret: nan(ret)), nan(want), "areas %s" % areas


NAN = "not a number"


def nan(x):
    if isinstance(x, float) and x != x:
        return NAN
    return type(x)([nan(y) for y in x]) if isinstance(x, (list, tuple)) else x


def vehicles_cases():
    for given in (0, 1):
        l, m = Obj(name="l"), Obj(name="m")
        o, d = Obj(name="o"), Obj(name="d")
        logs = [("home", -1, -1, -1, 0), ("wait", -1, -1, -1, 0), ("run", l, 5, 7, 11), ("run", m, 0, 9, 12), ("end", -1, -1, -1, 0)]
        abl = [("home", -1, -1, -1, 0), ("run", m, 3, 2, 1), ("abort", -1, -1, -1, 0)]
        vs, rows = {}, []
        for n, (lg, dest) in enumerate(((logs, d), (abl, None), (logs[:3], d), (logs[:1], d))):
            v = Obj(name="v%d" % n, orig=o, dest=dest, log_t=[F(5 * i + n) for i in range(len(lg))], log_state=[x[0] for x in lg], log_link=[num(x[1]) for x in lg])
            for f, i in (("x", 2), ("s", 3), ("v", 4)):
                v["log_" + f] = [num(x[i]) for x in lg]
            vs[v["name"]] = v
            for i, x in enumerate(lg):
                if x[0] != "home":
                    rows.append((v["name"], F(5), "o", dest and "d", F(5 * i + n), x[1]["name"] if x[1] != -1 else {"wait": "waiting_at_origin_node", "abort": "trip_aborted"}.get(x[0], "trip_end"), num(x[2]), num(x[3]), num(x[4])))
        old = tab(("name",), [("computed before",)])
        s = Obj(flag_pandas_convert=F(given), df_vehicles=old)
        want = tab(("name", "dn", "orig", "dest", "t", "link", "x", "s", "v"), rows) if not given else old
        yield s, Obj(VEHICLES=vs, DELTAN=F(5), vehicle_logging_timestep_interval=F(1)), {}, {}, (lambda ret: ret), want, "four vehicles" + (", computed before" if given else "")


def trip_cases():
    o, d = Obj(name="o"), Obj(name="d")
    vs, rows = {}, []
    for n, (dest, st, tt, v) in enumerate(((d, "end", 300, [-1, -1, 5, 10]), (None, "run", -1, [-1, 7, 0, 8]), (d, "abort", -1, [-1, 4]))):
        vs["v%d" % n] = Obj(name="v%d" % n, orig=o, dest=dest, departure_time=F(n + 3), state=st, travel_time=F(tt), distance_traveled=F(100 * n + 7), log_v=nums(v))
        sp = [x for x in v if x != -1]
        rows.append(("v%d" % n, "o", dest and "d", F(5 * (n + 3)), st, F(tt), F(sum(sp), len(sp)), F(100 * n + 7)))
    yield Obj(), Obj(VEHICLES=vs, DELTAT=F(5)), {}, {}, (lambda ret: ret), tab(("name", "orig", "dest", "departure_time", "final_state", "travel_time", "average_speed", "distance_traveled"), rows), "three vehicles"


def gps_cases():
    vs = {"v%d" % n: Obj(name="v%d" % n, log_t=[F(n + i) for i in range(3)], log_v=[F(10 * n + i) for i in range(3)]) for n in range(2)}
    at = lambda v, t: (F(-1), F(-1)) if t == 1 else (t * 10, t * 3)
    rows = [(v["name"], t, t * 10, t * 3, x) for v in vs.values() for t, x in zip(v["log_t"], v["log_v"]) if t != 1]
    yield Obj(), Obj(VEHICLES=vs), {}, {"get_xy_coords": at}, (lambda ret: ret), tab(("name", "t", "x", "y", "v"), rows), "two vehicles"


def groups_cases():
    ns = {x: Obj(name=x) for x in "abcd"}
    mk_ = lambda n, o, d, st, tt, x: Obj(name="v%d" % n, orig=ns[o], dest=ns[d], state=st, travel_time=F(tt), distance_traveled=F(x))
    v = [mk_(0, "a", "b", "end", 45, 600), mk_(1, "a", "c", "end", 80, 1000), mk_(2, "c", "a", "end", 90, 450), mk_(3, "a", "b", "run", -1, 20), mk_(4, "a", "c", "abort", -1, 300)]
    rows = {(r[0], r[1]): r for r in od_table()}
    for gs in ([[0, 1, 3]], [[2], [0, 1]], [[3, 4], [0, 4, 2]]):
        for given in (None, True):
            nm = ["group %d including v%d" % (i, g[0]) for i, g in enumerate(gs)] if not given else ["G%d" % i for i in range(len(gs))]
            out = []
            for i, g in enumerate(gs):
                e = [v[k] for k in g if v[k]["state"] == "end"]
                od = [rows[x["orig"]["name"], x["dest"]["name"]] for x in e]
                av = lambda c: F(sum(c)) / len(c)
                tt, ds = [x["travel_time"] for x in e], [x["distance_traveled"] for x in e]
                dl, dt, sp = [a / b[4] for a, b in zip(tt, od)], [a / b[7] for a, b in zip(ds, od)], [a / b for a, b in zip(ds, tt)]
                out.append((nm[i], F(5 * len(g)), F(5 * len(e))) + ((av(tt), av(dl), std(dl), av(ds), av(dt), std(dt), av(sp), std(sp)) if e else (NAN,) * 8))
            s = Obj()
            t = tab(ODC, od_table())
            cols = ("group", "total_trips", "completed_trips", "average_travel_time", "average_delay_ratio", "std_delay_ratio", "average_traveled_distance", "average_detour_ratio", "std_detour_ratio", "average_speed", "std_speed")
            yield s, Obj(analyzer=s, DELTAN=F(5)), {"groups": [[v[k] for k in g] for g in gs], "group_names": nm if given else None}, {"od_to_pandas": lambda o, t=t: t}, (lambda ret: nan(ret)), nan(tab(cols, out)), "groups %s" % gs


def request(n, o, d, t, on=None, off=None, taxi=None):
    return Obj(name="r%s" % n, orig=o, dest=d, depart_time=num(t), get_taxi_time=num(on), arrival_time=num(off), taxi=taxi)


def taxi_state(sel):
    o, d = Obj(name="o"), Obj(name="d")
    taxi = Obj(name="t0", mode="taxi")
    al = {"waiting": (5, None, None, None), "on board": (10, 40, None, taxi), "done": (20, 50, 200, taxi), "done at once": (0, 0, 90, taxi), "assigned": (7, None, None, taxi)}
    rs = [request(i, o, d, *al[x]) for i, x in enumerate(sel)]
    vs = {"v%d" % i: Obj(name="v%d" % i, mode=m) for i, m in enumerate(["taxi", "single_trip", "taxi", "taxi"])}
    return rs, Obj(DELTAN=F(5), VEHICLES=vs, TIME=F(300))


SELS = ([], ["waiting"], ["on board"], ["done"], ["waiting", "on board", "done", "done at once", "assigned"], ["done at once", "done", "done"])


def taxi_stats_cases():
    for sel in SELS:
        rs, W = taxi_state(sel)
        done = [r for r in rs if r["arrival_time"] is not None]
        on = [r for r in rs if r["get_taxi_time"] is not None]
        want = (F(5 * len(rs)), F(5 * len(done)), [r["arrival_time"] - r["get_taxi_time"] for r in done], [r["arrival_time"] - r["depart_time"] for r in done], [r["get_taxi_time"] - r["depart_time"] for r in on], F(15))
        s = Obj(trip_requests_all=rs, trip_requests=[r for r in rs if r["taxi"] is None])
        get = lambda ret, s=s: (s["n_total_requests"], s["n_completed_requests"]) + tuple(list(s[f]) for f in ("invehicle_times", "travel_times", "waiting_times")) + (s["number_of_taxis"],)
        yield s, W, {}, {}, get, want, "requests %s" % sel


def taxi_basic_cases():
    for a, b, c_ in (([], [], []), ([3, 5], [30], [40]), ([7], [10, 20, 60], [15, 25, 85])):
        av = lambda x: F(sum(x), len(x)) if x else F(0)
        s = Obj(n_total_requests=F(35), n_completed_requests=F(15), waiting_times=nums(a), invehicle_times=nums(b), travel_times=nums(c_))
        yield s, Obj(), {}, {"compute_stats": lambda o: None}, (lambda ret: ret), tab(("total_trips", "completed_trips", "average_waiting_time", "average_invehicle_time", "average_travel_time"), [(F(35), F(15), av(a), av(b), av(c_))]), "%d waiting times" % len(a)


def taxi_trips_cases():
    for sel in SELS:
        rs, W = taxi_state(sel)
        rows = [("o", "d", r["depart_time"], r["get_taxi_time"], r["arrival_time"], None if r["arrival_time"] is None else r["arrival_time"] - r["depart_time"], None if r["get_taxi_time"] is None else r["get_taxi_time"] - r["depart_time"], r["taxi"] and "t0") for r in rs]
        s = Obj(trip_requests_all=rs, trip_requests=[r for r in rs if r["taxi"] is None])
        yield s, W, {}, {"compute_stats": lambda o: None}, (lambda ret: ret), tab(("orig", "dest", "depart_time", "get_taxi_time", "arrival_time", "travel_time", "waiting_time", "used_taxi"), rows), "requests %s" % sel


def taxi_assign_cases(kind):
    at = {"n": (3, 8), "e": (100, -20), "w": (-15, 70)}
    for cars in ([("taxi", "run", None, (10, 0)), ("taxi", "run", None, (90, 5))],
                 [("taxi", "run", None, (10, 0))],
                 [("taxi", "run", None, (5000000, 3))],
                 [("taxi", "run", None, (40, 35)), ("taxi", "run", None, (-30, 12)), ("taxi", "run", None, (5, 95))],
                 [("single_trip", "run", None, (0, 0)), ("taxi", "wait", None, (1, 1)), ("taxi", "run", "dest", (2, 2)), ("taxi", "end", None, (3, 3)), ("taxi", "run", None, (60, 60))],
                 [("taxi", "run", None, (50, 3)), ("taxi", "run", None, (0, 45)), ("taxi", "run", None, (95, 40))],
                 []):
        for reqs in ([("n", 0)], [("e", 0), ("n", 50), ("w", 51)], [("w", 90), ("e", 20)], [("n", 1), ("e", 2), ("w", 3), ("n", 4)], []):
            for rad in ((200, 30) if kind == "radius" else (None,)):
                nd = {k: Obj(name=k, x=F(x), y=F(y)) for k, (x, y) in at.items()}
                vs = {"v%d" % i: Obj(name="v%d" % i, mode=m, state=st, dest=nd["n"] if d else None, xy=(F(p[0]), F(p[1]))) for i, (m, st, d, p) in enumerate(cars)}
                rs = [request(i, nd[o], nd["n"], t) for i, (o, t) in enumerate(reqs)]
                free = [v for v in vs.values() if v["mode"] == "taxi" and v["state"] == "run" and v["dest"] is None]
                n_free, want = len(free), []
                for r in rs:
                    if r["depart_time"] <= 50:
                        dist = lambda v: round(float((v["xy"][0] - r["orig"]["x"]) ** 2 + (v["xy"][1] - r["orig"]["y"]) ** 2) ** 0.5, 9)
                        ok = [v for v in free if kind != "radius" or dist(v) <= rad]
                        if ok:
                            b = min(ok, key=dist) if kind != "random" else None
                            free.remove(b or ok[0])
                            want.append((r["name"], b and b["name"]))
                s = Obj(trip_requests=list(rs), trip_requests_all=list(rs), done=[], rng=Obj(), matching_radious=num(rad))

                def assign(m, o, v, r, s=s):
                    if not any(x is r for x in s["trip_requests"]):
                        raise Raises("assigned twice")
                    s["trip_requests"][:] = [x for x in s["trip_requests"] if x is not r]
                    if kind == "random" and (v["mode"] != "taxi" or v["state"] != "run" or v["dest"] is not None or any(x == v["name"] for _, x in s["done"])):
                        raise Raises("assigned to a vehicle that is not free")
                    s["done"].append((r["name"], v["name"]))
                get = lambda ret, s=s: [(a, b if kind != "random" else None) for a, b in s["done"]]
                W = Obj(VEHICLES=vs, TIME=F(50))
                yield s, W, {}, {"get_xy_coords": lambda o, *a: o["xy"], "@assign_taxi": assign, "@shuffle": lambda m, *a: None}, get, want, "%d vehicles, requests %s%s" % (len(cars), reqs, "" if rad is None else ", within %d" % rad)


def get_trip_cases():
    for ns in ((F(0), F(1), "r1", "r10", "r"), ("r10", "r1", "r"), (F(2), F(1), F(12))):
        rs = [Obj(name=n, __class__=("TripRequest",)) for n in ns]
        other = Obj(name="r1", __class__=("TripRequest",))
        for x, want in [(r["name"], r) for r in rs] + [(r, r) for r in rs] + [("r2", RAISES), (other, RAISES), (F(5), RAISES)]:
            yield Obj(trip_requests_all=list(rs), trip_requests=rs[1:]), Obj(), {"tr": x}, {}, (lambda ret: ret), want, "looking for %s" % (x if not isinstance(x, Obj) else "a request itself")


TABLE = [
    ("P30", "taxi", "TaxiHandler.get_trip", get_trip_cases, "a request is found by its name or itself"),
    ("P30", "taxi", "TaxiHandler.compute_stats", taxi_stats_cases, "the statistics of requests are those of the recorded times"),
    ("P30", "taxi", "TaxiHandler.basic_to_pandas", taxi_basic_cases, "the table of statistics shows counts and averages"),
    ("P30", "taxi", "TaxiHandler.trips_to_pandas", taxi_trips_cases, "the table of requests shows every request with its own values"),
    ("P30", "taxi", "TaxiHandler_random.assign_trip_request_to_taxi", lambda: taxi_assign_cases("random"), "every waiting request gets a free taxi of its own"),
    ("P30", "taxi", "TaxiHandler_nearest.assign_trip_request_to_taxi", lambda: taxi_assign_cases("nearest"), "every waiting request gets the nearest free taxi"),
    ("P30", "taxi", "TaxiHandler_nearest_matching_radious.assign_trip_request_to_taxi", lambda: taxi_assign_cases("radius"), "every waiting request gets the nearest free taxi within the radius"),
    ("P27", "py", "Analyzer.basic_analysis", basic_cases, "totals over origin-destination pairs"),
    ("P27", "py", "Analyzer.od_to_pandas", od_table_cases, "the table of origin-destination pairs reports every pair with its own values"),
    ("P27", "py", "Analyzer.areas2areas_to_pandas", areas_cases, "trips between areas are those between their nodes, averages are weighted by trips"),
    ("P27", "py", "Analyzer.vehicle_trip_to_pandas", trip_cases, "the table of trips reports every vehicle with its own values"),
    ("P27", "py", "Analyzer.vehicle_groups_to_pandas", groups_cases, "a group is described by the trips of its vehicles"),
    ("P29", "py", "Analyzer.vehicles_to_pandas", vehicles_cases, "the table of vehicle logs has one row per record"),
    ("P29", "py", "Analyzer.gps_like_log_to_pandas", gps_cases, "the table of coordinates has one row per record on a link"),
    ("P31", "py", "Analyzer.compute_accurate_traj", traj_cases, "trajectories are the recorded positions, extended to the ends of the link at free-flow speed"),
    ("P31", "py", "Analyzer.compute_edie_state", edie_cases, "density, flow and speed of every cell follow from the time spent and the distance travelled in it"),
    ("P31", "py", "Analyzer.compute_mfd", mfd_cases, "the state of an area is that of its links together"),
    ("P31", "py", "Analyzer.mfd_to_pandas", mfd_table_cases, "the table of area states has one row per period"),
    ("P31", "py", "Analyzer.link_traffic_state_to_pandas", state_table_cases, "the table of traffic states reports every cell at its own place and time"),
    ("P31", "py", "Link.init_after_tmax_fix", lambda: grid_cases("py"), "the cells cover the link and the simulation"),
    ("P31", "wrap", "CppLink.init_after_tmax_fix", lambda: grid_cases("wrap"), "the cells cover the link and the simulation"),
    ("P27", "py", "Analyzer.link_analysis_coarse", coarse_cases, "volume, remaining vehicles and average travel time of a link"),
    ("P27", "py", "Analyzer.link_to_pandas", link_table_cases, "the table of links reports every link with its own values"),
    ("P02 P16", "py", "Analyzer.link_cumulative_to_pandas", cumulative_table_cases, "the table of cumulative counts reports every step of every link"),
    ("P27", "py", "Analyzer.od_analysis", od_cases, "trips, travel times and distances of origin-destination pairs"),
]


def check(c, prop):
    n = 0
    for tags, lang, q, gen, what in TABLE:
        if prop not in tags.split():
            continue
        pr = P.py_mod("TaxiHandler/TaxiHandler.py") if lang == "taxi" else proj(lang)
        if not pr.has(q):
            raise P.AnchorMissing(q)
        r = run(lang, q, all=True, project=pr, noinline=tuple(x for x in NI if x != q), alloc=True)
        c.used(r)
        n += 1
        cases = []
        for s, W, args, meths, get, want, lab in gen():
            def go(s=s, W=W, args=args, meths=meths, get=get, want=want):
                m = model(r, s, W, args, {k: v for k, v in meths.items() if k[0] != "@"})
                m.effects = {k[1:]: v for k, v in meths.items() if k[0] == "@"}
                try:
                    try:
                        return get(final(r, m))
                    except Raises:
                        if want is not RAISES:
                            raise
                        return RAISES
                except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError) as ex:
                    raise Undecided("%s: %s" % (type(ex).__name__, ex))
            cases.append((go, want, lab))
        agree(c, "%s:%s (%s)" % (r.func.file.replace(P.REPO + "/", ""), r.func.line, r.qual), q, what, cases)
    return n
