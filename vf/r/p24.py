"""P24: the C++ mode offers the same interface and semantics."""
import ast
from .common import *
from .. import binds, pyraw

PYF, WRF = "uxsim/uxsim.py", "uxsim/uxsim_cpp_wrapper.py"
PAIRS = (("World", "CppWorld"), ("Node", "CppNode"), ("Link", "CppLink"), ("Vehicle", "CppVehicle"), ("RouteChoice", "CppRouteChoice"), ("Route", "CppRoute"))
BOUND = {"CppWorld": "World", "CppNode": "Node", "CppLink": "Link", "CppVehicle": "Vehicle"}
HANDLE = {"_cpp_world": "World", "_cpp_node": "Node", "_cpp_link": "Link", "_cpp_vehicle": "Vehicle"}

# the public interface both modes offer
IFACE = {
    "World": "addNode addLink addVehicle adddemand adddemand_point2point adddemand_area2area adddemand_nodes2nodes adddemand_area2area2 adddemand_nodes2nodes2 finalize_scenario exec_simulation "
             "check_simulation_ongoing simulation_terminated get_node get_link get_nearest_node get_nodes_in_area defRoute load_scenario_from_csv generate_Nodes_from_csv generate_Links_from_csv "
             "generate_demand_from_csv save_scenario load_scenario print_scenario_stats on_time change_print_mode show_network copy save "
             "TMAX DELTAN REACTION_TIME DUO_UPDATE_TIME DUO_UPDATE_WEIGHT DUO_NOISE EULAR_DT DELTAT DELTAT_ROUTE VEHICLES VEHICLES_LIVING VEHICLES_RUNNING NODES LINKS NODES_NAME_DICT LINKS_NAME_DICT "
             "vehicle_logging_timestep_interval route_choice_principle route_choice_update_gradual instantaneous_TT_timestep_interval show_progress reduce_memory_delete_vehicle_route_pref name "
             "hard_deterministic_mode no_cyclic_routing adjust_node_capacity meta_data network_info demand_info finalized print_mode print save_mode show_mode user_attribute user_function rng random_seed "
             "T TIME TSIZE Q_AREA K_AREA analyzer ROUTECHOICE ADJ_MAT ADJ_MAT_LINKS NODE_PAIR_LINKS",
    "Node": "override_signal adjust_node_capacity W x y inlinks outlinks signal signal_phase signal_t signal_offset cycle_length signal_log flow_capacity number_of_lanes id name attribute user_attribute "
            "user_function flag_lanes_automatically_determined",
    "Link": "arrival_count departure_count num_vehicles_t average_density instant_travel_time actual_travel_time average_speed average_flow get_toll change_free_flow_speed change_jam_density "
            "inflow_between average_travel_time_between speed density flow num_vehicles num_vehicles_queue "
            "W start_node end_node length u kappa tau w capacity delta delta_per_lane q_star k_star jam_density jam_density_per_lane free_flow_speed number_of_lanes merge_priority signal_group "
            "capacity_out capacity_in capacity_out_remain capacity_in_remain congestion_pricing route_choice_penalty vehicles cum_arrival cum_departure traveltime_actual traveltime_instant id name "
            "attribute user_attribute user_function",
    "Vehicle": "enforce_route set_links_prefer set_links_avoid add_dest add_dests traveled_route get_xy_coords "
               "W name id orig dest departure_time departure_time_in_second arrival_time travel_time state link x v lane leader follower trip_abort flag_trip_aborted distance_traveled links_prefer "
               "links_avoid specified_route mode color attribute user_attribute user_function log_t log_state log_link log_x log_s log_v log_lane log_t_link",
    "RouteChoice": "dist next dist_record",
    "Route": "actual_travel_time links links_name name",
}
NAMED = {"direct_call"}     # says who calls, not what is asked for


def meths(cls):
    return {f.name: f for f in cls.body if isinstance(f, ast.FunctionDef) and not any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in f.decorator_list)}


def is_prop(f):
    return any((isinstance(d, ast.Name) and "property" in d.id) or (isinstance(d, ast.Attribute) and "property" in d.attr) for d in f.decorator_list)


def stores(m, cls):
    """attributes given to the instances of a class"""
    out = set()
    for f in ast.walk(cls):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f.args.args:
            s = f.args.args[0].arg
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
    for b in cls.body:
        for t in (b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) else []):
            if isinstance(t, ast.Name):
                out.add(t.id)
    # attributes set from outside on a fresh instance: x = Cls(...) / Cls.__new__(Cls); x.attr = ...
    for fn in m.funcs:
        fresh = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(isinstance(x, ast.Name) and x.id == cls.name for x in ast.walk(n.value)):
                fresh |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in fresh:
                out.add(n.attr)
    return out


def world_stores(m, cls):
    """attributes other classes give to their world"""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == "W":
            out.add(n.attr)
    return out


def value_of(m, e):
    """value of a default: literals and module constants"""
    if e is None:
        return ("none",)
    try:
        v = ast.literal_eval(e)
        return ("lit", float(v) if isinstance(v, (int, float)) else v)     # 0, 0.0 and False are the same default
    except Exception:
        pass
    if isinstance(e, ast.Name):
        for b in m.tree.body:
            if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in b.targets):
                return value_of(m, b.value)
    return ("?", ast.unparse(e))


def params(m, f, own=True):
    a = f.args
    ps = a.posonlyargs + a.args
    ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, value_of(m, d) if d is not None else None) for p, d in zip(ps, ds)]
    if own:
        out = out[1:]
    kw = [(k.arg, value_of(m, d) if d is not None else None) for k, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out, kw, bool(a.vararg or a.kwarg)


def always_raises(f):
    body = [b for b in f.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return bool(body) and isinstance(body[-1], ast.Raise) and not any(isinstance(x, ast.Return) for b in body for x in ast.walk(b))


@rule("P24", "R1", "methods of both modes take the same parameters, in the same order, with the same defaults")
def r1(c):
    mp, mw = pyraw.mod(PYF), pyraw.mod(WRF)
    n = 0
    for a, b in PAIRS:
        if a not in mp.classes or b not in mw.classes:
            raise P.AnchorMissing("class %s or %s not found" % (a, b))
        ma, mb = meths(mp.classes[a]), meths(mw.classes[b])
        names = [x for x in IFACE[a].split() if x in ma and x in mb and not is_prop(ma[x]) and not is_prop(mb[x])]
        if "__init__" in ma and "__init__" in mb and a != "RouteChoice":
            names.append("__init__")
        for x in names:
            pa, ka, va = params(mp, ma[x])
            pb, kb, vb = params(mw, mb[x])
            if va and x.startswith("add") and x[3:] in mp.classes:      # hands everything to the constructor
                pa, k2, va = params(mp, meths(mp.classes[x[3:]])["__init__"])
                pa, ka = pa[1:], ka + k2
            if vb and x.startswith("add") and "Cpp" + x[3:] in mw.classes and "__init__" in meths(mw.classes["Cpp" + x[3:]]):
                pb, k2, vb = params(mw, meths(mw.classes["Cpp" + x[3:]])["__init__"])
                pb, kb = pb[1:], kb + k2
            wh = "%s:%s (%s.%s)" % (mw.rel, mb[x].lineno, b, x)
            if va or vb:
                c.ob(None, wh, "%s takes the parameters of the Python mode" % x, key="%s.%s|sig" % (b, x))
                continue
            if a == "World" and x == "__init__":
                pa = [p for p in pa if p[0] != "cpp"]
            n += 1
            na, nb = [p for p, _ in pa], [p for p, _ in pb]
            da, db = dict(pa + ka), dict(pb + kb)
            # positional parameters of the Python mode keep their position; everything is accepted by name
            pos = [p for p in na if p not in NAMED]
            okp = [p for p in nb if p not in NAMED][:len(pos)] == pos
            c.ob(okp, wh, "parameters of %s.%s in the order of the Python mode" % (b, x) + ("" if okp else ": expected %s, found %s" % (pos, nb)), key="%s.%s|order" % (b, x))
            miss = [p for p in da if p not in db]
            c.ob(not miss, wh, "%s.%s accepts every parameter of the Python mode" % (b, x) + ("" if not miss else ", missing %s" % miss), key="%s.%s|names" % (b, x))
            for p in da:
                if p not in db:
                    continue
                u, v = da[p], db[p]
                ok = u == v
                if not ok and ((u and u[0] == "?") or (v and v[0] == "?")):
                    ok = None
                c.ob(ok, wh, "default of %s" % p + ("" if ok else ": %s in Python, %s in C++ mode" % (u, v)), key="%s.%s|default|%s" % (b, x, p))
            extra = [p for p in db if p not in da and db[p] is None]
            c.ob(not extra, wh, "no further parameter is required" + ("" if not extra else ", found %s" % extra), key="%s.%s|extra" % (b, x))
    c.floor(n, 40, "methods of both modes")


@rule("P24", "R2", "the public attributes and methods of the Python mode exist in C++ mode")
def r2(c):
    mp, mw = pyraw.mod(PYF), pyraw.mod(WRF)
    tab = binds.table()
    for a, b in PAIRS:
        ca, cb = mp.classes.get(a), mw.classes.get(b)
        if ca is None or cb is None:
            raise P.AnchorMissing("class %s or %s not found" % (a, b))
        sa = stores(mp, ca) | set(meths(ca))
        sb = stores(mw, cb) | set(meths(cb))
        if a == "World":
            sa |= world_stores(mp, ca)
            sb |= world_stores(mw, cb)
        if "__getattr__" in meths(cb):
            sb |= set(tab.get(BOUND.get(b), {}))
        for x in IFACE[a].split():
            if x not in sa:
                continue    # no longer part of the Python mode
            c.ob(x in sb, "%s:%s (%s)" % (mw.rel, cb.lineno, b), "%s has %s" % (b, x), key="%s|has|%s" % (b, x))
            if x in meths(ca) and x in meths(cb):
                c.ob(is_prop(meths(ca)[x]) == is_prop(meths(cb)[x]), "%s:%s (%s.%s)" % (mw.rel, meths(cb)[x].lineno, b, x), "%s is a method or an attribute in both modes" % x, key="%s|kind|%s" % (b, x))


@rule("P24", "R3", "no parameter of the C++ mode is silently ignored")
def r3(c):
    mp, mw = pyraw.mod(PYF), pyraw.mod(WRF)
    n = 0
    for a, b in PAIRS:
        cb = mw.classes[b]
        for x, f in meths(cb).items():
            if x.startswith("__") and x != "__init__" or x == "_":
                continue
            if always_raises(f):
                continue
            used = {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
            if "locals" in used:
                used |= {p.arg for p in f.args.args}
            fp = meths(mp.classes[a]).get(x) if a in mp.classes else None
            for p in f.args.posonlyargs + f.args.args[1:] + f.args.kwonlyargs:
                if p.arg in NAMED:
                    continue
                if fp is not None and p.arg in {y.arg for y in fp.args.args} and p.arg not in {y.id for y in ast.walk(fp) if isinstance(y, ast.Name)}:
                    continue    # without meaning in the Python mode, too
                n += 1
                c.ob(p.arg in used, "%s:%s (%s.%s)" % (mw.rel, f.lineno, b, x), "%s is used" % p.arg, key="%s.%s|used|%s" % (b, x, p.arg))
    c.floor(n, 150, "parameters of the wrapper")
    # adders hand every parameter on to the constructor under its own name
    for x in ("addNode", "addLink"):
        r = run("wrap", "CppWorld." + x)
        c.used(r)
        cls = "Cpp" + x[3:]
        f = meths(mw.classes["CppWorld"])[x]
        calls = [e for e in r.events if e.kind in ("call", "new") and (e.name or "").split(".")[0] == cls]
        c.floor(len(calls), 1, "creation of %s" % cls)
        ps = [p for p, _ in params(mw, meths(mw.classes[cls])["__init__"])[0]]
        for e in calls:
            got = dict(zip(ps, e.args))
            got.update(dict(e.kw or []))
            for p in [y.arg for y in f.args.args[1:]]:
                v = got.get(p)
                c.ob(v is not None and stripc(v) is mk("p", p), where(e), "%s hands %s on" % (x, p), key="%s|hand|%s" % (x, p))
            c.ob(not e.g, where(e), "%s always creates" % x, key="%s|always" % x)


def handed(e, ns):
    args = {n: v for n, v in zip(ns, e.args)}
    args.update(dict(e.kw or []))
    return args


def plain(v):
    """without conversions to the type the engine takes"""
    def f(y):
        if y.kind == "call" and y.a[0] in ("float", "int", "bool", "list", "str") and len(y.a[1]) == 1 and not y.a[2]:
            return plain(y.a[1][0])
        if y.kind == "truthy":
            return plain(y.a[0])
        return None
    return V_.subst(v, f)


def creation(c, qual, call, bound, want, only=None):
    r = run("wrap", qual)
    c.used(r)
    b = binds.table().get("", {}).get(bound)
    if b is None:
        raise P.AnchorMissing("binding %s not found" % bound)
    ns = [n for n, _ in b.args]
    ev = [e for e in r.events if e.kind == "call" and e.name.split(".")[-1].lstrip("_") == call.lstrip("_")]
    c.floor(len(ev), 1, "calls of %s" % call)
    first = ev[0]
    got = handed(first, ns)
    return r, first, got, ns


@rule("P24", "R4", "the options of a scenario reach the engine")
def r4(c):
    w = run("wrap", "CppWorld.__init__")
    c.used(w)
    me = mk("p", "self")
    p = lambda n: mk("p", n)

    def resolve(v):
        """in terms of the parameters of the constructor"""
        return V_.subst(v, lambda y: w.r.st.heap.get(y) if y.kind == "a" and y.a[0] is me and y in w.r.st.heap else None)
    r, first, got, ns = creation(c, "CppWorld._ensure_cpp_world", "_create_world", "create_world", None)
    want = {"world_name": p("name"), "delta_n": p("deltan"), "tau": p("reaction_time"), "duo_update_time": p("duo_update_time"), "duo_update_weight": p("duo_update_weight"),
            "route_choice_uncertainty": p("duo_noise"), "print_mode": p("print_mode"), "hard_deterministic_mode": p("hard_deterministic_mode"),
            "route_choice_update_gradual": p("route_choice_update_gradual"), "no_cyclic_routing": p("no_cyclic_routing"), "t_max": p("tmax"), "random_seed": p("random_seed"),
            "vehicle_log_mode": p("vehicle_logging_timestep_interval"), "adjust_node_capacity": p("adjust_node_capacity"), "num_threads": p("threads"),
            "instantaneous_TT_timestep_interval": p("instantaneous_TT_timestep_interval")}
    computed = {"vehicle_log_mode", "instantaneous_TT_timestep_interval", "random_seed", "t_max"}
    sets = {}
    for e in [e for e in r.events if e.kind == "set"]:
        l = e.loc
        if l.kind == "a" and l.a[0].kind != "p" and any(y.kind == "call" and "create_world" in str(y.a[0]) for y in V_.walk(l.a[0])) or V_.show(l).startswith("self._cpp_world."):
            sets.setdefault(l.a[1], []).append(e)
    for n, v in want.items():
        srcs = []
        if n in got:
            srcs.append((got[n], first))
        for e in sets.get(n, []):
            srcs.append((e.value, e))
        c.ob(bool(srcs), where(first), "%s reaches the C++ world" % n, key="world|%s|given" % n)
        for g, e in srcs[-1:]:
            x = plain(resolve(g))
            if n in computed:
                ok = any(y is v for y in V_.walk(x))
            else:
                ok = decide(x, v)
            c.ob(ok, where(e), "%s of the C++ world is the option of the World" % n + ("" if ok else ", found %s" % inl(x)), key="world|%s|value" % n)
    # the tables of nodes and links
    for qual, call, bound, want in (
            ("CppNode.__init__", "_add_node", "add_node", {"node_name": "name", "x": "x", "y": "y", "flow_capacity": "flow_capacity", "number_of_lanes": "number_of_lanes"}),
            ("CppLink.__init__", "_add_link", "add_link", {"vmax": "free_flow_speed", "length": "length", "number_of_lanes": "number_of_lanes", "merge_priority": "merge_priority",
                                                           "capacity_out": "capacity_out", "capacity_in": "capacity_in"})):
        r, first, got, ns = creation(c, qual, call, bound, want)
        for n, pn in want.items():
            v = got.get(n)
            if v is None:
                c.ob(False, where(first), "%s reaches the engine" % n, key="%s|%s" % (call, n))
                continue
            pv = mk("p", pn)
            x = plain(v)
            cases = [([V_.eq(pv, NONE)], const(-1)), ([V_.not_(V_.eq(pv, NONE))], pv)] if n in ("flow_capacity", "capacity_out", "capacity_in") or (n == "number_of_lanes" and call == "_add_node") else [([], pv)]
            for gs, w_ in cases:
                g = under(x, gs)
                if w_ is not pv:     # any negative number says "not given"
                    ok = g.kind == "c" and isinstance(g.a[0], (int, float)) and g.a[0] < 0 or decide(g, w_, gs)
                    try:
                        ok = ok or V_.lt(g) is TRUE
                    except Exception:
                        pass
                    if ok is False and n == "number_of_lanes" and g is ZERO:
                        ok = True
                else:
                    ok = decide(g, w_, gs)
                c.ob(ok, where(first), "%s reaches the engine as given" % n + ("" if ok else ", found %s" % inl(g)), key="%s|%s|%d" % (call, n, len(gs) and (1 if w_ is pv else 2)))
        if call == "_add_link":
            for n, nd in (("start_node_name", "start_node"), ("end_node_name", "end_node")):
                v = got.get(n)
                other = "end_node" if nd == "start_node" else "start_node"
                ps = {y.a[0] for y in V_.walk(v) if y.kind == "p"} if v is not None else set()
                c.ob(nd in ps and other not in ps, where(first), "%s is the name of the %s" % (n, nd.replace("_", " ")), key="%s|%s" % (call, n))


def under(v, gs):
    gset = list(gs)

    def f(y):
        if y.kind == "ite":
            if implied(gset, y.a[0]):
                return under(y.a[1], gset)
            if contradict(gset + [y.a[0]]):
                return under(y.a[2], gset)
        return None
    return V_.subst(v, f)


@rule("P24", "R5", "the functions of the extension create what they are asked for")
def r5(c):
    pr = P.cpp_dta()
    tab = binds.table().get("", {})
    for fn, cls in (("create_world", "World"), ("add_node", "Node"), ("add_link", "Link")):
        b = tab.get(fn)
        if b is None:
            raise P.AnchorMissing("binding %s not found" % fn)
        r = run("cpp", b.target or fn, project=pr)
        c.used(r)
        ps = [p.name if hasattr(p, "name") else p for p in r.func.params]
        ps = [p[0] if isinstance(p, tuple) else p for p in ps]
        ns = [n for n, _ in b.args]
        c.ob(len(ps) == len(ns) and [squash(x) for x in ps] == [squash(x) for x in ns], head(r), "the names of the parameters are those of the binding" + ("" if ps == ns else ": %s, %s" % (ps, ns)), key="%s|names" % fn)
        ctor = run("cpp", "%s.%s" % (cls, cls), project=pr)
        c.used(ctor)
        cps = [p[0] if isinstance(p, tuple) else getattr(p, "name", p) for p in ctor.func.params]
        mkev = [e for e in r.events if (e.kind == "new" and e.name.split("<")[0] == cls) or (e.kind == "call" and e.name.split(".")[-1] in ("make_unique", cls, "make_shared"))]
        c.floor(len(mkev), 1, "creation of a %s" % cls)
        for e in mkev:
            for i, p_ in enumerate(cps):
                if i >= len(e.args):
                    break
                v = stripc(e.args[i])
                if p_ in ("w", "world"):
                    continue
                if v.kind != "p":
                    c.ob(False if v.kind == "c" else None, where(e), "%s is handed to the constructor" % p_, key="%s|%s" % (fn, p_))
                    continue
                c.ob(squash(v.a[0]) == squash(p_), where(e), "parameter %s of the constructor is %s of the caller" % (p_, v.a[0]), key="%s|%s" % (fn, p_))
            c.ob(len(e.args) >= len(cps), where(e), "all options are handed to the constructor", key="%s|all" % fn)
    w = run("cpp", "World.World", project=pr)
    for f in ("t_max", "delta_n", "tau", "duo_update_time", "duo_update_weight", "print_mode", "random_seed", "vehicle_log_mode", "hard_deterministic_mode", "route_choice_update_gradual", "no_cyclic_routing", "route_choice_uncertainty"):
        v = w.r.st.heap.get(mk("a", mk("p", "self"), f))
        if v is None:
            c.ob(False, head(w), "World keeps %s" % f, key="World|%s" % f)
            continue
        ok = decide(stripc(v), mk("p", f))
        c.ob(ok, head(w), "World keeps %s as given" % f + ("" if ok else ", found %s" % inl(v)), key="World|%s" % f)
    for f, t in (("delta_t", "tau*delta_n"), ("total_timesteps", "int(t_max/(tau*delta_n))")):
        v = w.r.st.heap.get(mk("a", mk("p", "self"), f))
        x = w.spec(t, **{n: mk("p", n) for n in ("tau", "delta_n", "t_max")})
        c.ob(decide(v, x) if v is not None else False, head(w), "%s is %s" % (f, t), key="World|%s" % f)
    # engine attributes under their own names
    al = {"World": {"DELTAT": "delta_t", "TMAX": "t_max", "deltan": "delta_n", "DELTAN": "delta_n", "VEHICLES": "vehicles", "LINKS": "links", "NODES": "nodes", "VEHICLES_LIVING": "vehicles_living", "VEHICLES_RUNNING": "vehicles_running", "TSIZE": "total_timesteps", "T": "timestep"},
          "Node": {"W": "w"}, "Link": {"W": "w", "u": "vmax", "w": "backward_wave_speed", "free_flow_speed": "vmax", "cum_arrival": "arrival_curve", "cum_departure": "departure_curve", "jam_density": "kappa", "toll": "toll"},
          "Vehicle": {"W": "w"}}
    k = 0
    for cls, d in binds.table().items():
        if cls not in al:
            continue
        for n, b in d.items():
            if not b.target or b.kind not in ("def_ro", "def_rw", "def_readonly", "def_readwrite"):
                continue
            k += 1
            ok = b.target == al[cls].get(n, n)
            c.ob(ok if ok or n in fields(pr, cls) or n in al[cls] else None, "uxsim/trafficpp/bindings.cpp:%s (%s.%s)" % (b.line, cls, n), "%s.%s is the engine's %s" % (cls, n, al[cls].get(n, n)) + ("" if ok else ", found %s" % b.target), key="bind|%s.%s" % (cls, n))
    c.floor(k, 60, "attributes bound")


def fields(pr, cls):
    cl = pr.classes.get(cls)
    return set(getattr(cl, "fields", ()) or ())


def squash(n):
    n = n.lower().replace("_", "")
    for a, b in (("worldname", "name"), ("nodename", "name"), ("linkname", "name")):
        n = b if n == a else n
    return n


# what the C++ mode does not support: it must say so
SAY = (("CppWorld.__init__", "route_choice_principle", "heterogeneous_DUO"), ("CppWorld.__init__", "user_function", "f"), ("CppWorld.addNode", "user_function", "f"), ("CppWorld.addLink", "user_function", "f"),
       ("CppWorld.addVehicle", "user_function", "f"), ("CppWorld.addVehicle", "mode", "taxi"), ("CppWorld.addVehicle", "route_pref", "r"), ("CppWorld.addVehicle", "route_choice_principle", "heterogeneous_DUO"),
       ("CppWorld.__init__", "vehicle_logging_timestep_interval", 7))
MUST_RAISE = ("CppWorld.save_scenario", "CppWorld.load_scenario", "CppWorld.copy", "CppWorld.save", "CppVehicle.add_dest")


@rule("P24", "R6", "what the C++ mode does not support is reported")
def r6(c):
    for qual, pn, bad in SAY:
        r = run("wrap", qual, all=True, inline=("CppWorld._warn_user_function",))
        c.used(r)
        pv = mk("p", pn)
        val = const(bad)
        said = []
        for e in r.events:
            if not (e.kind == "raise" or e.kind == "call" and e.name.split(".")[-1] in ("warn", "error", "warning")):
                continue
            gs = [V_.subst(g, lambda y: val if y is pv else None) for g in e.g]
            gs = [fold(g) for g in gs if not dead_exit(r, e, g)]
            if all(g is TRUE for g in gs) and any(y is pv for g in e.g for y in V_.walk(g)):
                said.append(e)
        c.ob(bool(said), head(r), "%s=%r is reported by an error or a warning" % (pn, bad), key="%s|%s" % (qual, pn))
    mw = pyraw.mod(WRF)
    for qual in MUST_RAISE:
        cls, m = qual.split(".")
        f = meths(mw.classes[cls]).get(m)
        if f is None:
            raise P.AnchorMissing("%s not found" % qual)
        r = run("wrap", qual)
        c.used(r)
        # either it raises always or it does something with its arguments
        ok = bool([e for e in r.raises() if not e.g])
        if not ok:
            used = {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
            ok = None if all(p.arg in used for p in f.args.args[1:]) and any(isinstance(y, ast.Call) for y in ast.walk(f)) else False
        c.ob(ok, head(r), "%s is not supported and says so" % m, key="%s|raises" % qual)


def fold(g):
    """truth of a condition whose parameter was replaced by a constant other than None"""
    def f(y):
        if y.kind == "truthy" and y.a[0].kind == "c":
            return TRUE if y.a[0].a[0] else FALSE
        return None
    g = V_.subst(g, f)
    return g


def dead_exit(r, e, g):
    """the condition only says that an earlier error was not raised"""
    return any(x.kind == "raise" and x is not e and implied([V_.not_(V_.and_(list(x.g)))], g) for x in r.events)


@rule("P24", "R7", "what is assigned to the engine can be assigned, and errors of the engine are not hidden")
def r7(c):
    mw = pyraw.mod(WRF)
    tab = binds.table()
    n = k = 0
    for x in ast.walk(mw.tree):
        if not isinstance(x, ast.Attribute):
            continue
        cls = engine_class(mw, x.value)
        if cls is None:
            continue
        b = tab[cls].get(x.attr)
        fn = mw.owner(x)
        wh = "%s:%s (%s)" % (mw.rel, x.lineno, fn.qual if fn else "module")
        n += 1
        c.ob(b is not None, wh, "the engine's %s has %s" % (cls, x.attr), key="%s|%s|%s" % (fn.qual if fn else "", cls, x.attr))
        if b is not None and isinstance(x.ctx, ast.Store):
            k += 1
            ok = "rw" in b.kind or "readwrite" in b.kind or b.kind == "def_property"
            c.ob(ok, wh, "%s.%s of the engine can be assigned" % (cls, x.attr), key="%s|%s|store %s" % (fn.qual if fn else "", cls, x.attr))
    c.floor(n, 80, "uses of the engine")
    c.floor(k, 15, "assignments to the engine")


def engine_class(m, e):
    if isinstance(e, ast.Attribute):
        return HANDLE.get(e.attr)
    if isinstance(e, ast.Name):
        f = m.owner(e)
        if f is None:
            return None
        found = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                found.add(HANDLE.get(n.value.attr) if isinstance(n.value, ast.Attribute) else None)
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(n.target)):
                found.add(None)
        if any(a.arg == e.id for a in f.node.args.args):
            found.add(None)
        return found.pop() if len(found) == 1 else None
    return None


# assignments a user of the Python mode makes: they must reach the engine in C++ mode
FORWARD = (("CppNode", "signal", "_cpp_node", "signal_intervals"), ("CppNode", "signal_phase", "_cpp_node", "signal_phase"), ("CppNode", "signal_t", "_cpp_node", "signal_t"),
           ("CppLink", "capacity_out", "_cpp_link", "capacity_out"), ("CppLink", "capacity_in", "_cpp_link", "capacity_in"), ("CppLink", "capacity_out_remain", "_cpp_link", "capacity_out_remain"),
           ("CppLink", "capacity_in_remain", "_cpp_link", "capacity_in_remain"), ("CppLink", "merge_priority", "_cpp_link", "merge_priority"), ("CppLink", "signal_group", "_cpp_link", "signal_group"),
           ("CppVehicle", "trip_abort", "_cpp_vehicle", "trip_abort"), ("CppVehicle", "state", "_cpp_vehicle", "state"), ("CppVehicle", "distance_traveled", "_cpp_vehicle", "distance_traveled"))
METHODS = (("CppVehicle.enforce_route", "enforce_route", "route"), ("CppVehicle.set_links_prefer", "links_preferred", "links"), ("CppVehicle.set_links_avoid", "links_avoid", "links"))


@rule("P24", "R8", "assignments and calls of the user take effect in the engine")
def r8(c):
    pr = proj("wrap")
    for cls, attr, h, member in FORWARD:
        if pr.setter(cls, attr) is None:
            if pr.property(cls, attr) is not None or pr.method(cls, "__setattr__") is None:
                c.ob(False, "%s (%s)" % (WRF, cls), "assigning %s of a %s reaches the engine" % (attr, cls), key="%s|%s" % (cls, attr))
            else:
                c.ob(None, "%s (%s)" % (WRF, cls), "assigning %s of a %s reaches the engine" % (attr, cls), key="%s|%s" % (cls, attr))
            continue
        r = run("wrap", "%s.%s=" % (cls, attr))
        c.used(r)
        fw = [e for e in [e for e in r.events if e.kind == "set"] if e.loc.kind == "a" and e.loc.a[0].kind == "a" and e.loc.a[0].a[1] == h]
        pn = [p[0] if isinstance(p, tuple) else getattr(p, "name", p) for p in r.func.params][-1]
        mine = [e for e in fw if e.loc.a[1] == member]
        c.ob(bool(mine), head(r), "assigning %s sets %s of the engine" % (attr, member), key="%s|%s" % (cls, attr))
        for e in mine:
            ps = [y for y in V_.walk(e.value) if y.kind == "p" and y.a[0] == pn]
            pv = mk("p", pn)
            okv = bool(ps) and (e.value.kind in ("dictget", "i", "comp", "elem", "map", "ite", "mcall") or plain(e.value) is pv or stripc(e.value) is pv or V_.show(e.value).startswith("map") or None)
            if okv is None and not opaque(e.value):
                okv = False
            guards_ok = all(any(y.kind == "p" and y.a[0] == pn for y in V_.walk(x)) for x in e.g)
            c.ob(okv, where(e), "the engine gets the assigned value" + ("" if okv else ", found %s" % inl(e.value)), key="%s|%s|value" % (cls, attr))
            c.ob(guards_ok, where(e), "every assignment reaches the engine", key="%s|%s|always" % (cls, attr))
    for qual, member, pn in METHODS:
        r = run("wrap", qual)
        c.used(r)
        evs = [e for e in r.events if (e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == member and "_cpp_vehicle" in V_.show(e.loc)) or
               (e.kind == "call" and e.name.split(".")[-1] == member and e.recv is not None and "_cpp_vehicle" in V_.show(e.recv))]
        c.ob(bool(evs), head(r), "%s reaches the engine" % qual.split(".")[1], key="%s|fw" % qual)
        for e in evs[:1]:
            v = e.value if e.kind == "set" else (e.args[0] if e.args else None)
            ok = v is not None and any(y.kind == "p" and y.a[0] == pn for y in V_.walk(v))
            c.ob(ok, where(e), "the engine gets the given links", key="%s|links" % qual)
            c.ob(not [g for g in e.g if not (g.kind == "exc" or "exc(" in V_.show(g))], where(e), "in every case", key="%s|always" % qual)
    # avoidance of all other links on request
    r = run("wrap", "CppVehicle.enforce_route")
    av = [e for e in r.events if any(y.kind == "p" and y.a[0] == "set_avoid" for g in e.g for y in V_.walk(g))
          and (e.kind == "call" and e.name.split(".")[-1] == "set_links_avoid" or e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "links_avoid")]
    c.ob(bool(av), head(r), "set_avoid makes the vehicle avoid all other links", key="enforce_route|set_avoid")


def opaque(v):
    return opaque_in(v, ()) is not None


# elements of the world that the wrapper hands out are those of the World
REFS = (("CppVehicle.link", "LINKS", "link"), ("CppVehicle.route_next_link", "LINKS", "route_next_link"), ("CppVehicle.leader", "VEH", "leader"), ("CppVehicle.follower", "VEH", "follower"))


@rule("P24", "R9", "elements of the engine are handed out as elements of the World")
def r9(c):
    pr = proj("wrap")
    for qual, reg, member in REFS:
        cls, m = qual.split(".")
        if pr.property(cls, m) is None:
            c.ob(False, "%s (%s)" % (WRF, cls), "%s of a vehicle is an element of the World" % m, key=qual)
            continue
        r = run("wrap", qual)
        c.used(r)
        v = r.r.ret
        raw = [y for y in leaves(v) if y.kind == "a" and y.a[0].kind == "a" and y.a[0].a[1] == "_cpp_vehicle"]
        c.ob(not raw, head(r), "%s of a vehicle is an element of the World, not of the engine" % m, key=qual)
        src = [y for y in V_.walk(v) if y.kind == "a" and y.a[0].kind == "a" and y.a[0].a[1] == "_cpp_vehicle"]
        c.ob({y.a[1] for y in src} == {member} if src else None, head(r), "%s comes from %s of the engine" % (m, member), key=qual + "|member")


def leaves(v):
    if v is None:
        return []
    if v.kind == "ite":
        return leaves(v.a[1]) + leaves(v.a[2])
    return [v]


@rule("P24", "R10", "cpp=True creates the C++ world with the arguments given")
def r10(c):
    mp = pyraw.mod(PYF)
    f = meths(mp.classes["World"]).get("__new__")
    if f is None:
        raise P.AnchorMissing("World.__new__ not found")
    wh = "%s:%s (World.__new__)" % (mp.rel, f.lineno)
    calls = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (getattr(x.func, "id", None) or getattr(x.func, "attr", "")) == "CppWorld"]
    c.floor(len(calls), 1, "creation of the C++ world")
    va, ka = f.args.vararg and f.args.vararg.arg, f.args.kwarg and f.args.kwarg.arg
    for x in calls:
        a = [y for y in x.args if isinstance(y, ast.Starred) and isinstance(y.value, ast.Name) and y.value.id == va]
        k = [y for y in x.keywords if y.arg is None and isinstance(y.value, ast.Name) and y.value.id == ka]
        c.ob(len(x.args) == 1 and bool(a) if all(isinstance(y, ast.Starred) for y in x.args) else False, wh, "all positional arguments are handed on", key="new|args")
        c.ob(bool(k), wh, "all keyword arguments are handed on", key="new|kwargs")
        for y in x.keywords:
            if y.arg is not None:
                c.ob(False, wh, "%s is not overridden" % y.arg, key="new|%s" % y.arg)
    for x in ast.walk(f):
        bad = isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == ka and x.func.attr in ("pop", "clear", "update", "popitem", "setdefault") \
            or isinstance(x, (ast.Delete, ast.Assign)) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == ka for t in x.targets)
        if bad:
            arg = x.args[0].value if isinstance(x, ast.Call) and x.args and isinstance(x.args[0], ast.Constant) else None
            c.ob(arg == "cpp" and f.args.kwonlyargs == [], wh, "no argument is taken out", key="new|taken")


@rule("P24", "R11", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P24"), 1, "properties of the elements of the C++ mode")


@rule("P24", "R12", "a new World, Node or Link has the same values in both modes")
def constructed(c):
    from .. import bridge
    for cls, least in (("World", 15), ("Node", 3), ("Link", 8)):
        c.floor(bridge.constructors(c, cls), least, "values compared between the modes")
