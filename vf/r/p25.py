"""P25: looking at a simulation does not change it (effects of queries, analyses and output)."""
import ast
from .common import *
from .. import pyraw, pyeff
from .p22 import shown

MAIN, ANA, SRW, WRAP = "uxsim/uxsim.py", "uxsim/analyzer.py", "uxsim/scenario_reader_writer.py", "uxsim/uxsim_cpp_wrapper.py"
QUERIES = {
    "World": ("check_simulation_ongoing", "get_node", "get_link", "get_nearest_node", "get_nodes_in_area", "print_scenario_stats", "on_time", "show_network", "save_scenario", "copy", "save"),
    "Link": ("arrival_count", "departure_count", "inflow_between", "average_travel_time_between", "num_vehicles_t", "average_density", "instant_travel_time", "actual_travel_time", "average_speed", "average_flow", "get_toll"),
    "Node": (), "Vehicle": ("traveled_route", "get_xy_coords"), "Route": ("actual_travel_time",), "RouteChoice": (),
}
CPP = {"World": "CppWorld", "Link": "CppLink", "Node": "CppNode", "Vehicle": "CppVehicle", "Route": "CppRoute", "RouteChoice": "CppRouteChoice"}
_cache = {}


def effects(rels):
    if rels not in _cache:
        _cache[rels] = pyeff.Effects(rels)
    return _cache[rels]


def idents(E):
    return {id(f): f for f in E.fns}


def closure(E, roots, skip=lambda f: f.cls and "Analyzer" in f.cls):
    by = idents(E)
    st, seen = [id(r) for r in roots], set()
    while st:
        i = st.pop()
        if i in seen or skip(by[i]):
            continue
        seen.add(i)
        st.extend(E.calls[i])
    return [by[i] for i in seen]


def loop_callees(E, f):
    """functions of the run that are called inside a loop of the driver"""
    names = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)):
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    names.add(x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", ""))
    by = idents(E)
    return [by[i] for i in E.calls[id(f)] if by[i].node.name in names]


def state(E, driver, extra=()):
    """attributes that make up the state the simulation continues from"""
    cl = closure(E, [driver] + list(extra))
    step = closure(E, loop_callees(E, driver))
    read, written = set(), set()
    sid = {id(f) for f in step}
    for f in cl:
        here = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} if id(f) not in sid and f is not driver else set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                par = n._parent
                if n.attr in here:
                    continue        # set up and used in the same preparation
                if isinstance(par, ast.Call) and par.func is n:
                    continue        # a method
                read.add(n.attr)
    ids = {id(f) for f in step} | {id(driver)}
    for f in step + [driver]:
        for t, (g, n) in E.sum[id(f)].mut.items():
            if id(g) in ids and t[2]:
                written.add(t[2])
    ctor = set()
    for c in list(QUERIES) + list(CPP.values()):
        init = E.fn(c, "__init__")
        if init is not None:
            ctor |= {p.arg for p in init.node.args.args[1:]} & {t[2] for t in E.sum[id(init)].mut}
    return read | written | ctor | {"rng", "T", "TIME"}, cl


def is_prop(f):
    return any(getattr(d, "id", getattr(d, "attr", "")) in ("property", "cached_property") for d in f.node.decorator_list)


def check(c, E, f, st, own=False):
    """obligation: f changes nothing of the state"""
    bad = {}
    for t, (g, n) in E.sum[id(f)].mut.items():
        if own and t[0] == 0 and not t[3]:
            if t[2] == "W":
                bad["W"] = (g, n)
            continue
        a = t[2]
        if a is not None and a in st:
            bad.setdefault(a, (g, n))
    if bad:
        a, (g, n) = sorted(bad.items(), key=lambda x: x[0])[0]
        c.ob(False, g.where(n), "%s changes %s, which the simulation continues from" % (f.qual, ", ".join(sorted(bad))), f.qual)
    else:
        c.ob(True, f.where(), "%s changes nothing that the simulation continues from" % f.qual, f.qual)


PYR = (MAIN, ANA, SRW, "uxsim/utils.py")


@rule("P25", "R1", "statistics, tables and drawings do not change the simulation")
def r1(c):
    E = effects(PYR)
    drv = E.fn("World", "exec_simulation")
    if drv is None:
        raise Floor("World.exec_simulation not found")
    st, cl = state(E, drv)
    c.floor(len(cl), 15, "functions of a simulation run")
    c.floor(len(st), 60, "state attributes")
    k = 0
    for f in E.fns:
        if f.cls == "Analyzer" and f.node.name not in ("__init__",) and f.qual.count(".") == 1:
            k += 1
            c.analysed.add(f.qual)
            check(c, E, f, st, own=True)
    c.floor(k, 25, "analysis methods")


@rule("P25", "R2", "queries of worlds, nodes, links, vehicles and routes do not change the simulation")
def r2(c):
    E = effects(PYR)
    drv = E.fn("World", "exec_simulation")
    st, cl = state(E, drv)
    k = 0
    for cls, names in QUERIES.items():
        for nm in names:
            f = E.fn(cls, nm)
            if f is None:
                continue
            k += 1
            c.analysed.add(f.qual)
            check(c, E, f, st)
        for f in E.fns:
            if f.cls == cls and f.qual.count(".") == 1 and (is_prop(f) or f.node.name in ("__repr__", "__iter__", "__len__", "__getitem__", "__eq__", "__hash__", "__str__", "__contains__", "__getattr__")):
                k += 1
                c.analysed.add(f.qual)
                check(c, E, f, st)
    c.floor(k, 20, "query methods")


def wrap_state():
    E = effects((WRAP, ANA, SRW, "uxsim/utils.py"))
    drv = E.fn("CppWorld", "exec_simulation")
    if drv is None:
        raise Floor("CppWorld.exec_simulation not found")
    return E, drv


def cpp_state():
    """fields of the engine that a simulation run reads or changes, without those declared mutable (filled on reading)"""
    from .. import cpppure, cppraw as X
    eff = cpppure.effects("World.main_loop")
    if eff is None:
        raise Floor("World::main_loop not found")
    st = {f for f, _ in eff}
    mut = set()
    for u in X.units():
        seen, todo = set(), [u.funcs["World.main_loop"]] if "World.main_loop" in u.funcs else []
        while todo:
            g = todo.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            for rt in X.roots(g):
                for x in X.walk(rt):
                    if x.get("kind") == "MemberExpr":
                        st.add(x.get("name"))
            todo.extend(cpppure.own(u, g)[1])
        for d in u.byid.values():
            if d.get("kind") == "FieldDecl" and d.get("mutable"):
                mut.add(d.get("name"))
    return st - mut


def bind_effects(cls, nm):
    """[(field, where)] changed by what bindings.cpp binds to this name (of any class with it); None: not bound"""
    from .. import binds, cpppure
    out, found = [], False
    for bc, tab in binds.table().items():
        b = tab.get(nm)
        if b is None:
            continue
        found = True
        names = set()
        if b.target:
            names.add(b.target)
        g = b.getter or []
        for k, t in enumerate(g):
            if k + 1 < len(g) and g[k + 1] == "(" and k and g[k - 1] in (".", "->", "::"):
                names.add(t)
            if t == "=" and g[k - 1] not in ("=", "<", ">", "!", "+", "-", "*", "/") and g[k + 1:k + 2] != ["="] and k > 1 and g[k - 2] in (".", "->"):
                out.append((g[k - 1], "uxsim/trafficpp/bindings.cpp:%s" % b.line))
            if t in ("+", "-", "*", "/") and g[k + 1:k + 2] == ["="] and k > 1 and g[k - 2] in (".", "->"):
                out.append((g[k - 1], "uxsim/trafficpp/bindings.cpp:%s" % b.line))
            if t in cpppure.NONCONST and g[k + 1:k + 2] == ["("] and k > 2 and g[k - 1] in (".", "->") and g[k - 3] in (".", "->"):
                out.append((g[k - 2], "uxsim/trafficpp/bindings.cpp:%s" % b.line))
        for t in names:
            for c_ in (bc, "World", "Link", "Node", "Vehicle"):
                e = cpppure.effects("%s.%s" % (c_, t))
                if e is not None:
                    out += [x for x in e]
                    break
    return out if found else None


@rule("P25", "R3", "queries in C++ mode do not change the simulation")
def r3(c):
    E = effects((WRAP, ANA, SRW, "uxsim/utils.py"))
    drv = E.fn("CppWorld", "exec_simulation")
    if drv is None:
        raise Floor("CppWorld.exec_simulation not found")
    st, cl = state(E, drv)
    cst = cpp_state()
    c.floor(len(cst), 60, "state fields of the engine")
    by = idents(E)
    # attributes of the wrapper that only remember what was read from the engine: emptied by the run or kept in __dict__
    refill = {t[2] for f in cl for t, (g, n) in E.sum[id(f)].mut.items() if t[2] and isinstance(n, ast.Attribute) and isinstance(n._parent, ast.Assign) and isinstance(n._parent.value, ast.Constant) and n._parent.value.value is None and t[2].startswith("_")}
    st = st - refill
    k = 0
    for cls, names in QUERIES.items():
        cc = CPP[cls]
        for f in E.fns:
            if f.cls == cc and f.qual.count(".") == 1 and (is_prop(f) or f.node.name in names or f.node.name in ("__repr__", "__iter__", "__len__", "__getitem__", "__eq__", "__hash__", "__getattr__")):
                k += 1
                c.analysed.add(f.qual)
                check(c, E, f, st)
                for g in closure(E, [f], skip=lambda f: False):
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Attribute) and "_cpp_" in shown(x.value):
                            if isinstance(x.ctx, ast.Store) and g.cls in CPP.values():
                                c.ob(False, g.where(x), "%s sets %s of the C++ world" % (f.qual, x.attr), f.qual + "|" + x.attr)
                                continue
                            e = bind_effects(cls, x.attr)
                            bad = sorted({fl for fl, _ in e or () if fl in cst})
                            if bad:
                                w = next(wh for fl, wh in e if fl in cst)
                                c.ob(False, w, "%s is used by the query %s and changes %s" % (x.attr, f.qual, ", ".join(bad[:5])), f.qual + "|" + x.attr)
                            elif e is not None:
                                c.ob(True, g.where(x), "%s, used by %s, changes nothing of the C++ world" % (x.attr, f.qual), f.qual + "|" + x.attr)
    c.floor(k, 40, "query methods of the C++ mode")
