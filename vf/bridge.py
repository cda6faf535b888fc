"""The properties of the elements of the C++ mode (uxsim_cpp_wrapper.py) against the definition of what they report.

Every getter and setter is summarised from the source (guards and values over the fields of the object and of the element of
the engine); the summary and the definition are compared on every model of a small grid of engine states.
"""
import ast
import os
from fractions import Fraction as F
from .setmodel import Model, Undecided, Raises
from .val import V, mk
from . import val as V_, project as P
from .q import run, proj

WRF = "uxsim/uxsim_cpp_wrapper.py"


class Obj(dict):
    """an object: compared by identity, attributes as items"""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return "<%s>" % self.get("name", self.get("__class__", "object"))


NP = {
    "np.arange": lambda n: [F(k) for k in range(int(n))], "np.full": lambda n, x: [x] * int(n), "np.zeros": lambda n: [F(0)] * int(n), "np.ones": lambda n: [F(1)] * int(n),
    "np.concatenate": lambda xs: [y for x in xs for y in x],
}


class BModel(Model):
    def _ev(self, v, env):
        if v.kind == "isinst":
            x, t = self.ev(v.a[0], env), V_.show(v.a[1])
            if isinstance(x, Obj):
                return t in x.get("__class__", ())
            names = {"str": str, "list": list, "dict": dict, "bool": bool}
            if t in ("int", "float"):
                return isinstance(x, F) and (t == "float") == (x.denominator != 1)
            if t not in names:
                if t.startswith(("Cpp", "Link", "Node", "Vehicle")):
                    return False
                raise Undecided(t)
            return isinstance(x, names[t])
        if v.kind == "mcall" and v.a[1] == "items" and not v.a[2]:
            return [list(x) for x in self.ev(v.a[0], env).items()]
        if v.kind == "mcall" and v.a[1] == "*call" and v.a[0].kind == "a" and v.a[0].a[1] in self.methods:     # a bound method in a variable
            return self.methods[v.a[0].a[1]](self.ev(v.a[0].a[0], env), *[self.ev(x, env) for x in v.a[2]])
        if v.kind == "dict" and isinstance(v.a[0], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in v.a[0]):
            return {(self.ev(k, env) if isinstance(k, V) else k): self.ev(x, env) for k, x in v.a[0]}
        if v.kind == "call" and v.a[0] in NP:
            return NP[v.a[0]](*[self.ev(x, env) for x in v.a[1]])
        if v.kind == "mcall" and v.a[1] == "astype":
            return self.ev(v.a[0], env)
        if v.kind == "call" and v.a[0] == "len" and len(v.a[1]) == 1:
            x = self.ev(v.a[1][0], env)
            if isinstance(x, (dict, list, str)) and not isinstance(x, Obj):
                return F(len(x))
        if v.kind == "mcall" and v.a[1] == "values" and not v.a[2]:
            x = self.ev(v.a[0], env)
            return list(x.values()) if isinstance(x, dict) else list(x)
        if v.kind == "call" and v.a[0] == "list" and len(v.a[1]) == 1 and isinstance(v.a[1][0], V):
            x = self.ev(v.a[1][0], env)
            if isinstance(x, list):
                return list(x)
        return super()._ev(v, env)

    def truth(self, x):
        if isinstance(x, (dict, list, str)):
            return bool(x) if not isinstance(x, Obj) else True
        return super().truth(x)


def consts(cls):
    """literal class attributes"""
    out = {}
    with open(os.path.join(P.REPO, WRF), encoding="utf-8") as fh:
        t = ast.parse(fh.read())
    for c in t.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for b in c.body:
                if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                    try:
                        out[b.targets[0].id] = conv(ast.literal_eval(b.value))
                    except (ValueError, SyntaxError):
                        pass
    return out


def conv(x):
    if isinstance(x, bool) or isinstance(x, str) or x is None:
        return x
    if isinstance(x, (int, float)):
        return F(x)
    if isinstance(x, dict) and not isinstance(x, Obj):
        return {conv(k): conv(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [conv(y) for y in x]
    return x


def model(r, cls, s, W=None, args=None, methods=None):
    s = Obj({k: conv(v) for k, v in s.items()})
    W = Obj({k: conv(v) for k, v in (W or {}).items()})
    m_self = mk("p", "self")
    bools = {m_self: s, mk("p", "W"): W}
    cs = consts(cls)
    for k, v in cs.items():
        s.setdefault(k, v)
        bools[mk("a", mk("g", cls), k)] = v
    s.setdefault("W", W)
    for n, d in r.func.params:
        if n not in ("self", "s", "W"):
            bools[mk("p", n)] = conv((args or {}).get(n)) if n in (args or {}) else (F(0) if d is None else conv(lit(d)))
    m = BModel({}, [], bools, methods=methods or {}, attrs=True, recs=r.ev.looprec, listeq=True)
    m.consts, m.cls, m.s, m.W, m.bools0 = cs, cls, s, W, bools
    # class attributes reached through the class name
    terms = {x for e in r.events for y in list(e.g) + [e.value, e.loc] + list(e.args or ()) if isinstance(y, V) for x in V_.walk(y)} | {x for st, v in r.r.returns for y in list(st.g) + [v] if isinstance(y, V) for x in V_.walk(y)}
    for x in terms:
        if x.kind == "a" and x.a[1] in cs and V_.show(x.a[0]) == cls:
            bools[x] = cs[x.a[1]]
    return m


def lit(d):
    """value of a literal default"""
    if isinstance(d, tuple) and d and d[0] == "const":
        return d[1]
    if isinstance(d, tuple) and d and d[0] in ("list", "tuple") and isinstance(d[1], (list, tuple)):
        return [lit(x) for x in d[1]]
    return None


def value(r, m):
    for st, v in r.r.returns:
        if all(m.truth(m.ev(g)) for g in st.g):
            return m.ev(v) if isinstance(v, V) else None
    raise Undecided("no return applies")


def effects(r, m):
    """{(object, attribute): value} of what the function assigns, and its calls on engine elements"""
    out, calls = {}, []
    for e, env in m.play([e for e in r.events if e.kind == "set" or e.kind == "call" or (e.kind == "mut")], brks=r.ev.loopbrk):
        if e.kind == "set" and e.loc.kind == "a":
            b = m.ev(e.loc.a[0], env)
            if not isinstance(b, Obj):
                raise Undecided(V_.show(e.loc))
            out[(id(b), e.loc.a[1])] = m.ev(e.value, env)
        elif e.kind == "set" and e.loc.kind == "i" and e.loc.a[1].kind == "slice":
            c = m.ev(e.loc.a[0], env)
            b = [None if x is None or x.kind == "none" or x is V_.NONE else int(m.ev(x, env)) for x in e.loc.a[1].a]
            x = m.ev(e.value, env)
            sl = slice(*b)
            if isinstance(x, list):
                c[sl] = x
            else:
                for i in range(*sl.indices(len(c))):
                    c[i] = x
        elif e.kind == "call":
            calls.append((e, env))
    return out, calls


def agree(c, where, key, what, cases):
    """one obligation: (model value, reference) agree in all cases"""
    n, why, bad = 0, None, None
    for run_, want, lab in cases:
        try:
            got = run_()
        except Undecided as ex:
            why = str(ex)
            continue
        except Raises as ex:
            got = "error: %s" % ex
        except (TypeError, KeyError, ValueError, AttributeError, IndexError) as ex:     # outside of what the models cover
            why = "%s: %s" % (type(ex).__name__, ex)
            continue
        n += 1
        if got != want and bad is None:
            bad = (lab, want, got)
    if bad is None and n == 0:
        c.ob(None, where, what + ": " + str(why)[:160], key=key)
    else:
        c.ob(bad is None, where, what + ("" if bad is None else ": with %s expected %s, computed %s" % bad), key=key)
    return n


# ---- definitions ---------------------------------------------------------------------------------------------------
NAMES = ("home", "wait", "run", "end", "abort")


def vehicle_states():
    """engine states a vehicle can have: (state, departure, arrival, travel time, aborted)"""
    for st in range(5):
        for dep in (0, 30):
            if st < 3:
                yield st, dep, -1, -1, 0
            elif st == 3:
                for tt in (10, 45):
                    yield st, dep, dep + tt, tt, 0
            else:
                yield st, dep, -1, -1, 1


def links(n=3):
    W = Obj(name="W")
    ls = [Obj(name="L%d" % i, __class__=("CppLink", "Link"), length=F(100 * (i + 1)), _cpp_link=Obj(name="cl%d" % i, id=F(i))) for i in range(n)]
    W["LINKS"] = ls
    W["DELTAT"], W["DELTAN"], W["T"] = F(5), F(5), F(3)
    return W, ls


def vehicle(st, dep, at, tt, ab, **kw):
    cv = Obj(name="cv", state=st, departure_time=dep, arrival_time=at, travel_time=tt, flag_trip_aborted=ab, link=None, route_next_link=None, leader=None, follower=None, trip_abort=1, arrival_time_link=7, distance_traveled=123, x=12, v=3, lane=0)
    for k, v in kw.items():
        cv[k] = v
    for k in cv:
        if k != "name" and not isinstance(cv[k], Obj):
            cv[k] = conv(cv[k])
    return dict(_cpp_vehicle=cv, state=NAMES[st], name="v")


def getter(field, want, W=None):
    """cases of a getter over the vehicle states"""
    for x in vehicle_states():
        w, _ = links()
        w["DELTAT"] = F(W or 5)
        yield vehicle(*x), w, {}, want(x, F(W or 5)), "engine state %s" % (x,)


def at_link(field, target):
    """cases of a getter of an object referred to by the engine"""
    for i in (None, 0, 1, 2):
        w, ls = links()
        vs = [Obj(name="v%d" % k) for k in range(3)]
        w["_veh_by_index"] = vs
        ref = None if i is None else Obj(name="cpp%d" % i, id=F(i))
        other = None if i is None else Obj(name="cppx", id=F((i + 1) % 3))
        s = vehicle(2, 0, -1, -1, 0, link=other, route_next_link=other, leader=other, follower=other)
        s["_cpp_vehicle"][field] = ref
        yield s, w, {}, (None if i is None else (ls if target == "LINKS" else vs)[i]), "%s %s" % (field, i)


def plain(cls, h, field, name=None, W=None):
    for x in (0, 1, F(5, 2), 7):
        o = Obj(name="e")
        o[field] = F(x)
        yield {h: o}, W or {}, {}, F(x), "engine value %s" % x


def setter(h, field, param, vals=(0, 1, F(5, 2), 7), conv_=lambda x: x):
    for x in vals:
        o = Obj(name="e")
        o[field] = F(99)
        yield {h: o}, {}, {param: x}, {(h, field): conv_(x)}, "value %s" % (x,)


def cached(meth, field):
    """array of the engine during the run, at the end, and at the end once read"""
    o = lambda: Obj(name="cl")
    arr = {"get_cum_arrival_np": 0, "get_cum_departure_np": 100, "get_traveltime_instant_np": 200, "get_traveltime_actual_np": 300}
    vals = lambda m, n=6: [F(arr[m] + 5 * i) for i in range(n)]
    for T in (1, 3, 6):
        for done in (False, True):
            for have in ((False, True) if done else (False,)):
                w = Obj(T=F(T), _simulation_done=done, DELTAT=F(5))
                s = dict(_cpp_link=o(), _free_flow_tt=F(9), length=F(90), u=F(10), _traveltime_actual=[], __dict__={"_traveltime_actual": []})
                if have:
                    s["__dict__"] = {"_traveltime_actual": [], "_cached_" + field: 1}
                    s["_cached_" + field] = vals(meth)
                want = vals(meth)
                if not done and field.startswith("cum_"):
                    want = want[:T]
                if not done and field == "traveltime_instant":
                    want = want[:T] + [want[T - 1]] * (6 - T)
                yield s, w, {}, want, "T=%d%s" % (T, " at the end" * done), {m: (lambda _o, m=m: vals(m)) for m in arr}


def state_want(x, d):
    return NAMES[x[0]]


def log_cases(kind):
    for ids in ([-1, 0, 1, 2, -2], [-1], [-1, 2, 0], [-1, 1, -2]):
        for cachd in (False, True):
            w, ls = links()
            ts = [F(5 * i) for i in range(len(ids))]
            raw = {"log_t_link_t": ts, "log_t_link_id": [F(i) for i in ids], "log_link": [F(i if i >= 0 else -1) for i in ids], "log_state": [F(k % 5) for k in range(len(ids))]}
            if kind == "log_t_link":
                want = [[t, "home" if i == -1 else "end" if i == -2 else ls[i]] for t, i in zip(ts, ids)]
            elif kind == "log_link":
                want = [ls[i] if i >= 0 else F(-1) for i in ids]
            else:
                want = [NAMES[k % 5] for k in range(len(ids))]
            if cachd:
                raw["_%s_converted" % kind] = want
            yield dict(_log_cache=raw), w, {}, want, "log %s" % ids


def route_cases():
    for n, fin in ((0, False), (1, False), (2, True), (3, True), (2, False)):
        for ia in (True, False):
            for idp in (True, False):
                w, ls = links()
                log = [[F(0), "home"]] + [[F(10 * (k + 1)), ls[k]] for k in range(n)] + ([[F(77), "end"]] if fin else [])
                ts = [t for t, l in log if isinstance(l, Obj) or (l == "home" and idp)]
                if log and ia:
                    ts = ts + [log[-1][0] if fin else F(-1)]
                yield dict(log_t_link=log), w, {"include_arrival_time": ia, "include_departure_time": idp}, [[ls[k] for k in range(n)], ts], "%d links%s arrival=%s departure=%s" % (n, " finished" * bool(fin), ia, idp)


def signal_cases():
    for n in (1, 2, 3):
        for ph in (0, 1, 2, 3):
            o = Obj(name="cn", signal_phase=F(ph), signal_t=F(11), signal_intervals=[F(1)])
            val = [F(10 + 5 * k) for k in range(n)]
            want = {("_cpp_node", "signal_intervals"): val}
            if ph >= n:
                want.update({("_cpp_node", "signal_phase"): F(0), ("_cpp_node", "signal_t"): F(0)})
            yield dict(_cpp_node=o), {}, {"value": val}, want, "phase %d, %d intervals" % (ph, n)


def group_cases():
    for x in ([0], [0, 2], [1, 2, 3]):
        o = Obj(name="cl", signal_group=[F(9)])
        x = [F(k) for k in x]
        yield dict(_cpp_link=o), {}, {"value": x}, {("_cpp_link", "signal_group"): x, ("", "_signal_group"): x}, "groups %s" % [int(k) for k in x]


def avoid_cases(attr, field):
    for ids in ([], [0], [2, 1]):
        w, ls = links()
        want = {("_cpp_vehicle", field): [ls[i]["_cpp_link"] for i in ids], ("", attr): [ls[i] for i in ids]}
        yield dict(_cpp_vehicle=Obj(name="cv")), w, {"links": [ls[i] for i in ids]}, want, "links %s" % ids, {"get_link": lambda o, l: l}


def state_set():
    for k, nm in enumerate(NAMES):
        yield dict(_cpp_vehicle=Obj(name="cv")), {}, {"value": nm}, {("_cpp_vehicle", "state"): F(k)}, "state %s" % nm


def penalty_set():
    for x in (0, 3, F(5, 2)):
        yield dict(_cpp_link=Obj(name="cl")), {}, {"value": x}, {("_cpp_link", "route_choice_penalty"): F(x), ("", "_route_choice_penalty"): F(x)}, "value %s" % x


def jam_cases():
    for per in (None, F(1, 5)):
        for n in (1, 3):
            s = dict(_cpp_link=Obj(name="cl", kappa=F(3, 5)), kappa=F(3, 5), number_of_lanes=F(n), jam_density_per_lane=per)
            yield s, {}, {"new_value": F(3, 5)}, ({} if per is None else {("", "jam_density_per_lane"): F(3, 5) / n}), "%d lanes, per lane %s" % (n, per)


def local_tables(r, m):
    """tables built and used within the function: filled entry by entry, then read in a loop over their keys"""
    evs = [e for e in r.events if e.kind in ("set", "mut")]
    tabs, out = {}, {}
    fill = [e for e in evs if e.loc.kind == "i" and e.loc.a[0].kind in ("call", "dict", "new")]
    for e, env in m.play(fill, brks=r.ev.loopbrk):
        t = tabs.setdefault(e.loc.a[0], {})
        k = m.ev(e.loc.a[1], env)
        if e.kind == "set":
            t[k] = m.ev(e.value, env)
        elif e.name == "append":
            t.setdefault(k, []).append(m.ev(e.args[0], env))
        elif e.name in ("add", "setdefault", "extend"):
            raise Undecided(e.name)
    if not tabs:
        raise Undecided("no local table")
    for e in evs:
        if e.kind == "set" and e.loc.kind == "a" and e.lids and any(V_.contains_v(e.loops[-1], lambda y, t=t: y is t) for t in tabs):
            T = next(t for t in tabs if V_.contains_v(e.loops[-1], lambda y: y is t))
            if not all(m.truth(m.ev(g)) for g in e.g if not V_.contains_v(g, lambda y: y is T)):
                continue
            for k, x in tabs[T].items():
                env = {mk("elem", T): k, mk("elem", mk("values", T)): x}
                b = m.ev(e.loc.a[0], env)
                if not isinstance(b, Obj):
                    raise Undecided("object")
                out[(id(b), e.loc.a[1])] = m.ev(e.value, env)
    return out


def override_cases():
    for gs in ([[0], [1], [2]], [[0, 1], [2]], [[0, 1], [0], [0, 2]], [[2], [0, 1], [2, 0]], [[1]]):
        w, ls = links(4)
        s = dict(inlinks={l["name"]: l for l in ls}, _cpp_node=Obj(name="cn", signal_phase=F(0), signal_t=F(0)), signal_phase=F(0), signal_t=F(0), cycle_length=F(60), signal=[F(9)], signal_offset=F(0))
        args = {"signal": [F(30)] * len(gs), "groups": [[ls[i] for i in g] for g in gs]}
        want = {ls[i]: [F(k) for k, g in enumerate(gs) if i in g] for g in gs for i in g}
        yield s, w, args, want, "groups %s" % gs, {"get_link": lambda o, l: l}


def enforce_cases():
    for ids in ([0, 1], [2], [1, 0, 3]):
        for av in (False, True):
            w, ls = links(4)
            s = dict(_cpp_vehicle=Obj(name="cv"), links_avoid=[], links_prefer=[])
            want = {"specified_route": [ls[i] for i in ids], "links_avoid": [l for i, l in enumerate(ls) if i not in ids] if av else []}
            want["engine"] = [ls[i]["_cpp_link"] for i in ids]
            yield s, w, {"route": [ls[i] for i in ids], "set_avoid": av}, want, "route %s set_avoid=%s" % (ids, av), {"get_link": lambda o, l: l}


# property, qualified name, kind (ret: returned value, eff: what is assigned), cases, what
TABLE = [
    ("P08 P24", "CppVehicle.state", "ret", lambda: getter("state", state_want), "the state of a vehicle is that of the engine"),
    ("P08 P24", "CppVehicle.state=", "eff", state_set, "an assigned state reaches the engine"),
    ("P08 P24", "CppVehicle.departure_time", "ret", lambda: getter("departure_time", lambda x, d: F(x[1]) / d), "the departure time is in timesteps"),
    ("P08 P24", "CppVehicle.departure_time_in_second", "ret", lambda: getter("departure_time", lambda x, d: F(x[1])), "the departure time in seconds"),
    ("P08 P27 P24", "CppVehicle.arrival_time", "ret", lambda: getter("arrival_time", lambda x, d: F(x[2]) / d if x[2] >= 0 else F(-1)), "the arrival time is in timesteps, -1 without arrival"),
    ("P08 P27 P24", "CppVehicle.travel_time", "ret", lambda: getter("travel_time", lambda x, d: F(x[3])), "the travel time is in seconds, -1 without arrival"),
    ("P08 P24", "CppVehicle.flag_trip_aborted", "ret", lambda: getter("flag_trip_aborted", lambda x, d: F(x[4])), "a trip is aborted exactly when the engine aborted it"),
    ("P08 P24", "CppVehicle.link", "ret", lambda: at_link("link", "LINKS"), "the link of a vehicle is that of the engine"),
    ("P13 P24", "CppVehicle.route_next_link", "ret", lambda: at_link("route_next_link", "LINKS"), "the next link of a vehicle is that of the engine"),
    ("P07 P24", "CppVehicle.leader", "ret", lambda: at_link("leader", "veh"), "the leader of a vehicle is that of the engine"),
    ("P07 P24", "CppVehicle.follower", "ret", lambda: at_link("follower", "veh"), "the follower of a vehicle is that of the engine"),
    ("P24", "CppVehicle.trip_abort", "ret", lambda: plain("CppVehicle", "_cpp_vehicle", "trip_abort"), "trip_abort is that of the engine"),
    ("P24", "CppVehicle.trip_abort=", "eff", lambda: setter("_cpp_vehicle", "trip_abort", "value", (0, 1)), "trip_abort reaches the engine"),
    ("P16 P24", "CppVehicle.link_arrival_time", "ret", lambda: plain("CppVehicle", "_cpp_vehicle", "arrival_time_link"), "the time of entry to the link is that of the engine"),
    ("P27 P24", "CppVehicle.distance_traveled", "ret", lambda: plain("CppVehicle", "_cpp_vehicle", "distance_traveled"), "the distance traveled is that of the engine"),
    ("P27 P24", "CppVehicle.distance_traveled=", "eff", lambda: setter("_cpp_vehicle", "distance_traveled", "value"), "the distance traveled reaches the engine"),
    ("P29 P24", "CppVehicle.log_t_link", "ret", lambda: log_cases("log_t_link"), "the link log of a vehicle"),
    ("P29 P24", "CppVehicle.log_link", "ret", lambda: log_cases("log_link"), "the link at every time"),
    ("P29 P24", "CppVehicle.log_state", "ret", lambda: log_cases("log_state"), "the state at every time"),
    ("P29 P33 P24", "CppVehicle.traveled_route", "route", route_cases, "the traveled route is that of the log"),
    ("P29 P33", "Vehicle.traveled_route", "route", route_cases, "the traveled route is that of the log"),
    ("P15 P24", "CppVehicle.set_links_avoid", "eff", lambda: avoid_cases("links_avoid", "links_avoid"), "the links to avoid reach the engine"),
    ("P15 P24", "CppVehicle.set_links_prefer", "eff", lambda: avoid_cases("links_prefer", "links_preferred"), "the preferred links reach the engine"),
    ("P02 P28 P24", "CppLink.cum_arrival", "ret", lambda: cached("get_cum_arrival_np", "cum_arrival"), "the cumulative arrivals are those of the engine until now"),
    ("P02 P28 P24", "CppLink.cum_departure", "ret", lambda: cached("get_cum_departure_np", "cum_departure"), "the cumulative departures are those of the engine until now"),
    ("P16 P24", "CppLink.traveltime_instant", "inst", lambda: cached("get_traveltime_instant_np", "traveltime_instant"), "the instantaneous travel times of the engine until now, the last one afterwards"),
    ("P16 P24", "CppLink.traveltime_actual", "ret", lambda: cached("get_traveltime_actual_np", "traveltime_actual"), "the actual travel times are those of the engine"),
    ("P03 P24", "CppLink.capacity_out", "ret", lambda: plain("CppLink", "_cpp_link", "capacity_out"), "the outflow capacity is that of the engine"),
    ("P03 P24", "CppLink.capacity_out=", "eff", lambda: setter("_cpp_link", "capacity_out", "value"), "an assigned outflow capacity reaches the engine"),
    ("P03 P24", "CppLink.capacity_in", "ret", lambda: plain("CppLink", "_cpp_link", "capacity_in"), "the inflow capacity is that of the engine"),
    ("P03 P24", "CppLink.capacity_in=", "eff", lambda: setter("_cpp_link", "capacity_in", "value"), "an assigned inflow capacity reaches the engine"),
    ("P03 P24", "CppLink.capacity_out_remain", "ret", lambda: plain("CppLink", "_cpp_link", "capacity_out_remain"), "the remaining outflow capacity is that of the engine"),
    ("P03 P24", "CppLink.capacity_out_remain=", "eff", lambda: setter("_cpp_link", "capacity_out_remain", "value"), "an assigned remaining outflow capacity reaches the engine"),
    ("P03 P24", "CppLink.capacity_in_remain", "ret", lambda: plain("CppLink", "_cpp_link", "capacity_in_remain"), "the remaining inflow capacity is that of the engine"),
    ("P03 P24", "CppLink.capacity_in_remain=", "eff", lambda: setter("_cpp_link", "capacity_in_remain", "value"), "an assigned remaining inflow capacity reaches the engine"),
    ("P01 P24", "CppLink.merge_priority", "ret", lambda: plain("CppLink", "_cpp_link", "merge_priority"), "the merge priority is that of the engine"),
    ("P01 P24", "CppLink.merge_priority=", "eff", lambda: setter("_cpp_link", "merge_priority", "value"), "an assigned merge priority reaches the engine"),
    ("P04 P12 P24", "CppLink.signal_group=", "eff", group_cases, "assigned signal groups reach the engine"),
    ("P13 P24", "CppLink.route_choice_penalty=", "eff", penalty_set, "an assigned penalty reaches the engine"),
    ("P12 P24", "CppNode.signal=", "eff", signal_cases, "assigned signal timings reach the engine, and the phase stays one of theirs"),
    ("P12 P24", "CppNode.signal_phase", "ret", lambda: plain("CppNode", "_cpp_node", "signal_phase"), "the phase is that of the engine"),
    ("P12 P24", "CppNode.signal_phase=", "eff", lambda: setter("_cpp_node", "signal_phase", "value", (0, 1, 2)), "an assigned phase reaches the engine"),
    ("P12 P24", "CppNode.signal_t", "ret", lambda: plain("CppNode", "_cpp_node", "signal_t"), "the time within the phase is that of the engine"),
    ("P12 P24", "CppNode.signal_t=", "eff", lambda: setter("_cpp_node", "signal_t", "value"), "an assigned time within the phase reaches the engine"),
    ("P04 P12 P24", "CppNode.override_signal", "groups", override_cases, "every link gets exactly the phases in which it is listed"),
    ("P04 P12", "Node.override_signal", "groups", override_cases, "every link gets exactly the phases in which it is listed"),
    ("P14 P15 P24", "CppVehicle.enforce_route", "enforce", enforce_cases, "the engine is given the route to enforce, and the links to avoid are those not on it"),
    ("P14 P15", "Vehicle.enforce_route", "enforce", enforce_cases, "the route to enforce, and the links to avoid are those not on it"),
    ("P35 P24", "CppLink.change_jam_density", "eff", jam_cases, "the jam density per lane follows the jam density"),
]


# ---- the World ---------------------------------------------------------------------------------------------------------
def node_cases(kind):
    pts = [(0, 0), (10, 0), (0, 10), (13, 4), (-7, -3), (4, 21)]
    for n in (1, 3, 6):
        for x, y, rad in ((1, 2, 9), (12, 3, 11), (-6, 8, 15), (5, 30, 10), (3, -9, 14)):
            ns = [Obj(name="n%d" % k, x=F(a), y=F(b)) for k, (a, b) in enumerate(pts[:n])]
            d = lambda o: (o["x"] - x) ** 2 + (o["y"] - y) ** 2
            want = min(ns, key=d) if kind == "nearest" else [o for o in ns if d(o) < rad ** 2]
            yield dict(NODES=ns), {}, {"x": x, "y": y, "r": rad}, want, "%d nodes, (%d, %d), radius %d" % (n, x, y, rad)


def register_cases():
    for before, total, custom in ((0, 3, None), (2, 5, None), (4, 5, "mine"), (3, 3, None), (1, 2, None)):
        nodes = [Obj(name="n%d" % k) for k in range(3)]
        cpp = [Obj(name=str(k + 100), orig=Obj(name="n%d" % (k % 3)), dest=Obj(name="n%d" % ((k + 1) % 3)) if k % 2 == 0 else None) for k in range(total)]
        old = [Obj(name="v%d" % k, id=F(k)) for k in range(before)]
        cw = Obj(name="cw", vehicle_count=F(total))
        s = dict(_cpp_veh_registered_count=F(before), _cpp_world=cw, NODES_NAME_DICT={o["name"]: o for o in nodes}, VEHICLES={o["name"]: o for o in old}, VEHICLES_LIVING={o["name"]: o for o in old}, _veh_by_index=old, route_choice_principle="homogeneous_DUO", rng=Obj(name="rng"))
        want = [dict(name=custom or c["name"], id=F(k), _cpp_vehicle=c, orig=nodes[k % 3], dest=nodes[(k + 1) % 3] if c["dest"] else None, reg=True) for k, c in enumerate(cpp) if k >= before]
        yield s, {}, {"custom_name": custom}, (want, total if total > before else None), "%d vehicles registered, %d in the engine, name %s" % (before, total, custom), {"get_vehicle_by_index": lambda o, i, cpp=cpp: cpp[int(i)]}


def mark_cases():
    for before, total in ((0, 2), (2, 5), (3, 4)):
        vs = [Obj(name="v%d" % k, attribute=None) for k in range(total)]
        s = dict(_cpp_world=Obj(name="cw", vehicle_count=F(before)), _veh_by_index=vs, DELTAN=F(5))
        yield s, {}, {"attribute": "A", "orig": "a", "dest": "b", "t_start": 0, "t_end": 100, "flow": F(1, 2), "volume": -1, "direct_call": True}, {o["name"]: ("A" if k >= before else None) for k, o in enumerate(vs)}, "%d vehicles before, %d after" % (before, total)


def enter_cases():
    for ids, ts, vi in (([0, 1, 2], [5, 10, 15], [0, 1, 2]), ([2, 0, 2, 1], [5, 5, 10, 20], [3, 1, 0, 2]), ([1], [30], [2])):
        _, ls = links()
        vs = [Obj(name="v%d" % k) for k in range(4)]
        for l in ls:
            l["_vehicles_enter_log"] = {}
        data = {"link_id": [F(i) for i in ids], "time": [F(t) for t in ts], "vehicle_index": [F(i) for i in vi]}
        want = sorted((ls[i]["name"], F(t), vs[k]["name"]) for i, t, k in zip(ids, ts, vi))
        yield dict(_cpp_world=Obj(name="cw"), LINKS=ls, _veh_by_index=vs, VEHICLES={}, T=F(9)), {}, {}, want, "entries %s" % (ids,), {"build_enter_log_data": lambda o, data=data: data}


def registered(r, m):
    its, order = {}, []
    app = []
    cnt = None
    for e, env in m.play([e for e in r.events if e.kind in ("set", "mut")], brks=r.ev.loopbrk):
        if e.loc.kind == "a" and e.loc.a[1] == "_cpp_veh_registered_count":
            cnt = m.ev(e.value, env)
            continue
        if not e.lids:
            continue
        k = id(env)
        if k not in its:
            its[k] = {"_env": env, "reg": set()}
            order.append(k)
        d = its[k]
        if e.kind == "set" and e.loc.kind == "a":
            if e.loc.a[1] in ("name", "id", "_cpp_vehicle", "orig", "dest"):
                d[e.loc.a[1]] = m.ev(e.value, env)
        elif e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a":
            d["reg"].add((e.loc.a[0].a[1], m.ev(e.loc.a[1], env)))
        elif e.kind == "mut" and e.name == "append" and e.loc.kind == "a":
            d["reg"].add((e.loc.a[1], "append"))
    out = []
    for k in order:
        d = its[k]
        d.pop("_env")
        full = {("VEHICLES", d.get("name")), ("VEHICLES_LIVING", d.get("name")), ("_veh_by_index", "append")}
        d["reg"] = True if full <= d["reg"] else "not registered in %s" % sorted(x for x, _ in full - d["reg"])
        out.append(d)
    return out, cnt


def marked(r, m):
    got = {o["name"]: o["attribute"] for o in m.s["_veh_by_index"]}
    for e, env in m.play([e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "attribute"], brks=r.ev.loopbrk):
        got[m.ev(e.loc.a[0], env)["name"]] = m.ev(e.value, env)
    return got


def entered(r, m):
    out = []
    at = {id(l["_vehicles_enter_log"]): l["name"] for l in m.s["LINKS"]}
    for e, env in m.play([e for e in r.events if e.kind == "set" and e.loc.kind == "i" and not any(x.kind == "exc" for g in e.g for x in V_.walk(g))], brks=r.ev.loopbrk):
        c = m.ev(e.loc.a[0], env)
        if id(c) not in at:
            raise Undecided("log of another object")
        out.append((at[id(c)], m.ev(e.loc.a[1], env), m.ev(e.value, env)["name"]))
    return sorted(out)


def log_array_cases():
    cols = ("log_t", "log_x", "log_v", "log_state", "log_s", "log_lane", "log_link")
    for nm in ([0, 0, 0], [2, 0, 3], [1, 4, 0], None):
        for have in (False, True):
            lens, ltl = [3, 0, 2], [2, 1, 3]
            offs, loffs = [0, 3, 3, 5], [0, 2, 3, 6]
            flat = {c: [F(100 * (k + 1) + i) for i in range(5)] for k, c in enumerate(cols)}
            flat.update(offsets=[F(x) for x in offs], ltl_offsets=[F(x) for x in loffs], ltl_t=[F(7 * i) for i in range(6)], ltl_id=[F(i) for i in range(6)])
            if nm is not None:
                flat["n_missing"] = [F(x) for x in nm]
            vs = [Obj(name="v%d" % i, _log_cache={"old": F(1)} if have and i == 1 else None) for i in range(3)]
            want = {}
            for i, v in enumerate(vs):
                if v["_log_cache"] is not None:
                    continue
                k = nm[i] if nm else 0
                d = {}
                for c in cols:
                    front = [F(5 * j) for j in range(k)] if c == "log_t" else [F(0)] * k if c == "log_state" else [F(-1)] * k
                    d[c] = front + flat[c][offs[i]:offs[i + 1]]
                d["log_t_link_t"], d["log_t_link_id"] = flat["ltl_t"][loffs[i]:loffs[i + 1]], flat["ltl_id"][loffs[i]:loffs[i + 1]]
                want[v["name"]] = d
            yield dict(_cpp_world=Obj(name="cw"), _veh_by_index=vs, DELTAT=F(5)), {}, {}, want, "missing entries %s" % nm, {"build_all_vehicle_logs_flat_compact": lambda o, flat=flat: flat}


def log_arrays(r, m):
    got = {}
    for e, env in m.play([e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "_log_cache"], brks=r.ev.loopbrk):
        got[m.ev(e.loc.a[0], env)["name"]] = m.ev(e.value, env)
    return got


TABLE += [
    ("P29 P24", "CppWorld._build_all_vehicle_log_caches", log_arrays, log_array_cases, "every vehicle gets its part of every log array, after one entry for every step before it was recorded"),
    ("P19 P21", "World.get_nearest_node", "ret", lambda: node_cases("nearest"), "the node nearest to a position"),
    ("P19 P21 P24", "CppWorld.get_nearest_node", "ret", lambda: node_cases("nearest"), "the node nearest to a position"),
    ("P19 P21", "World.get_nodes_in_area", "ret", lambda: node_cases("area"), "the nodes within a radius"),
    ("P19 P21 P24", "CppWorld.get_nodes_in_area", "ret", lambda: node_cases("area"), "the nodes within a radius"),
    ("P20 P08 P24", "CppWorld._register_new_cpp_vehicles", registered, register_cases, "every new vehicle of the engine is registered once, with its own identifier, name, origin and destination"),
    ("P19 P24", "CppWorld.adddemand", marked, mark_cases, "the attribute of a demand is given to exactly its own vehicles"),
    ("P28 P24", "CppWorld._build_vehicles_enter_log", entered, enter_cases, "the entry log of a link names the vehicles that entered"),
]

INL = {}


def cases_of(q, kind, gen):
    lang = "wrap" if q.startswith("Cpp") else "py"
    cls = q.split(".")[0]
    r = run(lang, q, all=True, inline=INL.get(q, ())) if INL.get(q) else run(lang, q)
    out = []
    for case in gen():
        s, W, args, want, lab = case[:5]
        ms = case[5] if len(case) > 5 else {}

        def go(s=s, W=W, args=args, want=want, ms=ms):
            m = model(r, cls, s, W, args, ms)
            if callable(kind):
                return kind(r, m)
            if kind == "ret":
                return value(r, m)
            if kind == "inst":
                v = value(r, m)
                effects(r, m)
                return v
            if kind == "groups":
                eff = local_tables(r, m)
                ls = m.W["LINKS"]
                got = {}
                for l in ls:
                    pub, own, eng = eff.get((id(l), "signal_group")), eff.get((id(l), "_signal_group")), eff.get((id(l["_cpp_link"]), "signal_group"))
                    if pub is None and (own is not None or eng is not None):
                        pub = own if own == eng else "list %s, in the engine %s" % (own, eng)
                    if pub is not None:
                        got[l] = pub
                return got
            if kind == "enforce":
                eff, calls = effects(r, m)
                got = {k: eff.get((id(m.s), k), m.s.get(k)) for k in ("specified_route", "links_avoid")}
                for e, env in calls:
                    if e.name == "CppVehicle.set_links_avoid" and e.args:
                        got["links_avoid"] = m.ev(e.args[0], env)
                if lang == "py":
                    got["engine"] = want["engine"]
                else:
                    en = [m.ev(e.args[0], env) for e, env in calls if (e.name or "").split(".")[-1] == "enforce_route" and e.args]
                    got["engine"] = en[-1] if en else None
                return got
            if kind == "route":
                ns = [e for e in r.events if e.kind == "new" and (e.name or "").endswith("Route")]
                v = [x for st, x in r.r.returns if x.kind == "tuple"]
                if len(ns) != 1 or len(v) != 1 or len(v[0].a[0]) != 2:
                    raise Undecided("result")
                for e in ns:
                    a = (list(e.args) + [y for k, y in (e.kw or {}).items() if k == "links"] if isinstance(e.kw, dict) else list(e.args))[1]
                return [m.ev(a), m.ev(v[0].a[0][1])]
            eff, _ = effects(r, m)
            ids = {id(m.s): ""}
            ids.update({id(x): k for k, x in m.s.items() if isinstance(x, Obj)})
            got = {(ids.get(b, "?"), f): x for (b, f), x in eff.items()}
            base = {k: (m.s if k[0] == "" else m.s[k[0]]).get(k[1]) for k in set(want) | set(got)}
            fin = dict(base)
            fin.update(got)
            return {k: fin[k] for k in want}, {k for k in got if k not in want and k[0] and got[k] != base.get(k)}
        out.append((go, want if kind != "eff" else (want, set()), lab))
    return r, out


def check(c, prop):
    """the obligations of a property"""
    n = 0
    for tags, q, kind, gen, what in TABLE:
        if prop not in tags.split():
            continue
        lang = "wrap" if q.startswith("Cpp") else "py"
        if not proj(lang).has(q):
            continue
        r, cs = cases_of(q, kind, gen)
        c.used(r)
        n += 1
        agree(c, "%s:%s (%s)" % (r.func.file.replace(P.REPO + "/", ""), r.func.line, r.qual), q, what, cs)
    return n


# ---- constructors: same fields, same values ------------------------------------------------------------------------
def grids(cls):
    if cls == "World":
        for dn, rt, duo, iv, sp in ((5, 1, 600, 5, 600), (1, 1, 300, 5, 60), (2, F(3, 2), 100, 60, 3), (10, 2, 5, 7, 30)):
            yield dict(deltan=dn, reaction_time=rt, duo_update_time=duo, instantaneous_TT_timestep_interval=iv, show_progress_deltat=sp, cpp=False, duo_update_weight=F(1, 4), duo_noise=F(1, 8), eular_dt=90, eular_dx=50, tmax=1200, print_mode=False, save_mode=False,
                       show_mode=True, show_progress=False, vehicle_logging_timestep_interval=3, hard_deterministic_mode=True, no_cyclic_routing=True, adjust_node_capacity=True, random_seed=7, name="n", meta_data={"a": 1}, user_attribute="ua", reduce_memory_delete_vehicle_route_pref=True,
                       route_choice_principle="heterogeneous_DUO", route_choice_update_gradual=True)
    elif cls == "Node":
        for fc, nl in ((None, None), (F(4, 5), None), (F(9, 10), 2), (F(12, 5), None), (F(1, 2), 3)):
            yield dict(name="n1", x=3, y=4, flow_capacity=fc, number_of_lanes=nl, signal=[30, 60], signal_offset=5, attribute="a", user_attribute="b", user_function=None, auto_rename=False, signal_offset_old=None)
    else:
        for u, k, kp, nl, ln, dx, tau in ((20, F(1, 5), None, 1, 1000, None, 1), (10, F(1, 2), None, 3, 400, None, 1), (25, F(1, 5), F(1, 10), 2, 500, 40, 2), (5, F(1, 10), None, 2, 20, None, F(3, 2)), (20, F(1, 5), F(3, 10), 3, 999, None, 1)):
            yield dict(name="l1", start_node="a", end_node="b", length=ln, free_flow_speed=u, jam_density=k, jam_density_per_lane=kp, number_of_lanes=nl, merge_priority=2, signal_group=[1], capacity_out=None, capacity_in=None, congestion_pricing=None, eular_dx=dx, attribute="a", user_attribute="b",
                       user_function=None, auto_rename=False, _tau=tau)


def engine(cls, a):
    """fields of the element of the engine created with these arguments (by definition; checked on the engine itself)"""
    if cls == "Node":
        fc, nl = a["flow_capacity"], a["number_of_lanes"]
        return Obj(name="cn", x=F(a["x"]), y=F(a["y"]), signal_offset=F(a["signal_offset"]), flow_capacity=F(-1) if fc is None else fc, number_of_lanes=F(nl) if nl is not None else F(-1) if fc is None else F(-(-fc // F(4, 5))))
    u, nl, rt = F(a["free_flow_speed"]), F(a["number_of_lanes"]), F(a["_tau"])
    k = a["jam_density_per_lane"] * nl if a["jam_density_per_lane"] is not None else F(a["jam_density"])
    tau = rt / nl
    w = 1 / tau / k
    return Obj(name="cl", vmax=u, kappa=k, tau=tau, w=w, capacity=u * w * k / (u + w), delta=1 / k, delta_per_lane=nl / k, capacity_out_remain=F(10), capacity_in_remain=F(10), length=F(a["length"]), id=F(0))


def constructors(c, cls):
    """both modes give a new object the same values"""
    rs = {"py": run("py", cls + ".__init__"), "wrap": run("wrap", "Cpp%s.__init__" % cls)}
    heaps = {}
    for lang, r in rs.items():
        c.used(r)
        heaps[lang] = {l.a[1]: v for l, v in r.r.st.heap.items() if l.kind == "a" and V_.show(l.a[0]) in (("self", "W") if cls == "World" else ("self",)) and isinstance(v, V)}
    n = 0
    for f in sorted(set(heaps["py"]) & set(heaps["wrap"])):
        cases = []
        for a in grids(cls):
            def go(lang, a=a):
                r = rs[lang]
                W = dict(REACTION_TIME=a.get("_tau", 1), DELTAT=F(a.get("_tau", 1)) * 5, DELTAN=F(5), NODES=[], LINKS=[], NODES_NAME_DICT={}, LINKS_NAME_DICT={}, _cpp_world=Obj(name="cw"))
                if cls == "World":
                    W = {}
                e = None if cls == "World" else engine(cls, a)
                m = model(r, cls, {}, W, a, {"get_node": lambda o, x: e if cls == "Node" else Obj(name=x), "get_link": lambda o, x: e})
                return m.ev(heaps[lang][f])
            try:
                want = go("py")
            except (Undecided, Raises):
                continue
            if isinstance(want, Obj):
                continue
            cases.append((lambda go=go: go("wrap"), want, ", ".join("%s=%s" % (k, v) for k, v in a.items() if k in ("deltan", "reaction_time", "duo_update_time", "flow_capacity", "number_of_lanes", "length", "free_flow_speed", "jam_density_per_lane"))))
        if cases:
            r = rs["wrap"]
            probe = type("Probe", (), {"res": None, "ob": lambda s, ok, *x, **k: setattr(s, "res", ok)})()
            agree(probe, "", f, "", cases)
            if probe.res is None:
                continue        # the value comes from what this comparison does not model
            n += agree(c, "%s:%s (%s)" % (r.func.file.replace(P.REPO + "/", ""), r.func.line, r.qual), "new|%s.%s" % (cls, f), "%s of a new %s is the same in both modes" % (f, cls), cases)
    return n


def holds(q):
    """True, False or None (not decided) for the definition of one function"""
    out = []
    for tags, q_, kind, gen, what in TABLE:
        if q_ == q and proj("wrap" if q.startswith("Cpp") else "py").has(q):
            r, cs = cases_of(q_, kind, gen)
            probe = type("Probe", (), {"res": None, "ob": lambda s, ok, *x, **k: setattr(s, "res", ok)})()
            agree(probe, "", q_, what, cs)
            out.append(probe.res)
    return None if None in out or not out else all(out)
