"""Assignment solvers: fresh simulations with the chosen routes, logs of that simulation, the solution that is named."""
import ast
import copy
import os
from .common import *
from ..project import AnchorMissing, Project
from .. import binds, pyfront
from fractions import Fraction as F
from ..setmodel import Model, Undecided, Raises
from .p33 import agree, scenario, reference, cpp_step, py_step, paths, tail, callname, cargs, loopvar, is_travelled, specified, changing, swap, SWAPS, compared, costvar, split, NI

FILES = {"py": "DTAsolvers/DTAsolvers.py", "ad": "DTAsolvers/DTAsolvers_cpp_adapter.py"}
_pr = {}


def prepared(which):
    """the solver module with nested functions lifted to module level and loop-local names defined (as nothing) on entry"""
    k = (P.REPO, which)
    if k not in _pr:
        path = os.path.join(P.REPO, "uxsim", FILES[which])
        if not os.path.exists(path):
            raise AnchorMissing("file uxsim/%s not found" % FILES[which])
        tree = ast.parse(open(path, encoding="utf-8").read())
        lifted = []
        appends = {}
        for cl in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
            for f in [n for n in cl.body if isinstance(n, ast.FunctionDef)]:
                me = f.args.args[0].arg if f.args.args else "self"
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == me:
                        appends.setdefault(n.lineno, []).append(n.func.value.attr)
                nested = [n for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f]
                for g in nested:
                    h = copy.deepcopy(g)
                    h.name = "%s__%s" % (cl.name, g.name)
                    h.args.args.insert(0, ast.arg(arg=me, lineno=h.lineno, col_offset=h.col_offset, end_lineno=h.lineno, end_col_offset=h.col_offset))
                    lifted.append(h)
                # names first assigned inside a loop
                inner = {n.id for g in nested for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                pre = set()
                for lp in [n for n in ast.walk(f) if isinstance(n, (ast.For, ast.While))]:
                    for n in ast.walk(lp):
                        if isinstance(n, ast.Assign):
                            pre.update(t.id for t in n.targets if isinstance(t, ast.Name))
                pre -= {a.arg for a in f.args.args}
                pre -= inner
                if pre and f.name == "solve":
                    i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                    at = f.body[i]
                    new = []
                    for nm in sorted(pre):
                        a = ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.Constant(value=None))
                        for z in ast.walk(a):
                            ast.copy_location(z, at)
                        new.append(a)
                    f.body[i:i] = new
        tree.body.extend(lifted)
        ms = [pyfront.Builder(FILES[which][:-3].replace("/", "."), path).build(tree)]
        pr = Project(ms, "py")
        pr.world_field = None
        pr.fresh_names = ("func_World",)
        _pr[k] = (pr, appends, [h.name for h in lifted])
    P.configure("py")
    return _pr[k]


def R32(c, which, q):
    r = run("py", q, project=prepared(which)[0])
    c.used(r)
    return r


# (project, function, kind of choice of the solution)
ITERS = (("py", "SolverDUE.solve", "last"), ("py", "SolverDSO_D2D.solve", "best"), ("py", "SolverDSO_GA.solve", "ga"), ("py", "SolverDSO_ALNS__objective_function_by_UXsim", "alns"), ("ad", "CppSolverDUE.solve", "last"), ("ad", "CppSolverDSO_D2D.solve", "best"))


def execs(r):
    return [e for e in r.events if e.kind == "call" and tail(e.name) == "exec_simulation"]


def fresh(v):
    return v is not None and v.kind == "rnd" and tail(v.a[0]) == "func_World"


def simulated(c, r, floor=True):
    """the run of the iteration: [(exec event, world)]"""
    ex = execs(r)
    if any(x.loops for x in ex):
        ex = [x for x in ex if x.loops]      # an initial solution may be simulated before the iterations
    if floor:
        c.floor(len(ex), 1, "simulations in %s" % r.qual)
    return [(e, e.recv) for e in ex]


@rule("P32", "R1", "every iteration simulates a newly created world")
def r1(c):
    for which, q, kind in ITERS:
        r = R32(c, which, q)
        for e, w in simulated(c, r):
            if not fresh(w):
                bad = w is not None and (w.kind in ("p", "a", "ite", "rec", "c", "lv", "call") or w.kind == "mcall" and "copy" in str(w.a[1]))
                c.ob(False if bad else None, where(e), "the world simulated is newly created by func_World" + (": %s" % V_.show(w)[:80] if bad else ""), key="%s|fresh" % q)
                continue
            mk_ = [x for x in r.events if x.kind == "call" and x.ret is w]
            ok = bool(mk_) and mk_[0].loops == e.loops
            c.ob(True if ok else (False if mk_ else None), where(e), "the world simulated is created in the same iteration" + ("" if ok or not mk_ else ": created outside of the loop"), key="%s|iteration" % q)
            ok = not [g for g in e.g if not any(g is z for z in mk_[0].g)] if mk_ else None
            c.ob(ok, where(e), "every iteration runs its simulation" + ("" if ok is not False else ": only under %s" % [V_.show(g)[:60] for g in e.g]), key="%s|runs" % q)
            # run to the end: no partial execution
            ok = not e.args and not e.kw
            c.ob(True if ok else False, where(e), "the simulation of an iteration runs to its end" + ("" if ok else ": %s" % [V_.show(a)[:40] for a in e.args]), key="%s|complete" % q)


def pos(r, e):
    return [i for i, x in enumerate(r.events) if x is e][0]


def of_world(v, w):
    return any(x is w for x in V_.walk(v))


def root(v):
    """the object a vehicle is reached from"""
    while True:
        if v.kind in ("a", "i"):
            v = v.a[0]
        elif v.kind == "elem":
            v = v.a[0]
        elif v.kind in ("values", "items", "keys") and v.a:
            v = v.a[0]
        elif v.kind == "call" and callname(v) in ("list", "values", "items") and cargs(v):
            v = cargs(v)[0]
        else:
            return v


@rule("P32", "R2", "the simulation uses exactly the routes chosen for the iteration")
def r2(c):
    # Python user equilibrium / system optimum: enforce_route for every vehicle that has a route
    for q in ("SolverDUE.solve", "SolverDSO_D2D.solve"):
        r = R32(c, "py", q)
        sims = simulated(c, r)
        en = [e for e in r.events if e.kind == "call" and tail(e.name) == "enforce_route"]
        c.floor(len(en), 1, "enforced routes in %s" % q)
        for e in en:
            ex = [x for x, w in sims if e.recv is not None and root(e.recv) is w]
            c.ob(True if ex else (False if fresh(root(e.recv)) else None), where(e), "routes are enforced in the world that is simulated", key="%s|world" % q)
            if ex:
                c.ob(pos(r, e) < pos(r, ex[0]), where(e), "routes are enforced before the simulation", key="%s|before" % q)
            a = e.args[0] if e.args else None
            if a is None:
                c.ob(None, where(e), "enforced route", key="%s|route" % q)
                continue
            key = a.a[1] if a.kind == "i" else None
            veh = e.recv
            src = [x for x in V_.walk(a) if (x.kind in ("lv", "local", "rec") and "routes_specified" in V_.show(x)[:60])]
            ok = None
            if a.kind == "i" and src:
                vk = veh.a[1] if veh.kind == "i" else None
                if vk is not None:
                    ok = vk is key
                elif veh.kind == "elem" and (veh.a[0].kind == "values" or callname(veh.a[0]) == "values") and key.kind == "elem" and any(key.a[0] is z for z in veh.a[0].a):
                    ok = True
            elif a.kind in ("c", "list"):
                ok = False
            c.ob(ok, where(e), "the route enforced is the one chosen for the vehicle in the last iteration" + ("" if ok is not False else ": %s gets %s" % (V_.show(veh)[-60:], V_.show(a)[-60:])), key="%s|route" % q)
            if e.args[1:] or e.kw:
                sa = e.args[1] if len(e.args) > 1 else dict(e.kw).get("set_avoid")
                c.ob(None, where(e), "options of enforce_route", key="%s|options" % q)
            extra = []
            for g in [y for x in e.g for y in V_.conj(x)]:
                if g.kind == "in" and src and any(z in set(V_.walk(g)) for z in src):
                    continue
                if g.kind == "not" and g.a[0].kind in ("eq", "eqz") and zero_iter(g.a[0]):
                    continue
                if g.kind == "lt" and iter_positive(g):
                    continue
                if g.kind == "truthy" and g.a[0].kind == "elem" and g.a[0].a[0].kind == "range":
                    continue
                extra.append(g)
            bad = [g for g in extra if not any(x.kind in ("call", "mcall") and callname(x) not in ("range", "len", "keys", "values", "items") and not fresh(x) for x in V_.walk(g))]
            c.ob(False if bad else (None if extra else True), where(e), "the chosen routes are enforced for all vehicles in all iterations but the first" + (": only under %s" % [V_.show(g)[:80] for g in bad] if bad else ""), key="%s|all" % q)
        # nothing else changes the routes of the iteration
    for q in ("CppSolverDUE.solve", "CppSolverDSO_D2D.solve"):
        r = R32(c, "ad", q)
        sims = simulated(c, r)
        en = [e for e in r.events if e.kind == "call" and tail(e.name) in ("batch_enforce_routes_csr", "batch_enforce_routes")]
        c.floor(len(en), 1, "enforced routes in %s" % q)
        for e in en:
            ex = [x for x, w in sims if of_world(e.recv, w)]
            c.ob(True if ex else False, where(e), "routes are enforced in the world that is simulated", key="%s|world" % q)
            if ex:
                c.ob(pos(r, e) < pos(r, ex[0]), where(e), "routes are enforced before the simulation", key="%s|before" % q)
                fin = [x for x in r.events if x.kind == "call" and tail(x.name) == "_lightweight_finalize" and x.loops == e.loops]
                for x in fin:
                    c.ob(pos(r, x) < pos(r, e), where(e), "the world is finalised before the routes are enforced", key="%s|finalised" % q)
            want = ["rs_link_ids", "rs_offsets"]
            for i, a in enumerate(e.args[:2]):
                w = None
                if a.kind == "lv":
                    lp = loopvar(r, a)
                    w = lp[1] if lp else None
                got = [x for x in V_.walk(w) if x.kind == "i" and x.a[1].kind == "c" and isinstance(x.a[1].a[0], str)] if w is not None else []
                ok = None
                if got:
                    ok = got[0].a[1].a[0] == want[i]
                    res = got[0].a[0]
                    okw = callname(res) in ("route_swap_due", "route_swap_dso")
                    c.ob(True if okw else None, where(e), "the routes come from the swap step of the last iteration", key="%s|swap %d" % (q, i))
                elif a.kind in ("c",):
                    ok = False
                c.ob(ok, where(e), "the routes enforced are those specified by the last swap step" + ("" if ok is not False else ": %s" % (V_.show(got[0].a[1]) if got else V_.show(a))), key="%s|route %d" % (q, i))
            extra = [g for x in e.g for g in V_.conj(x) if not (g.kind == "not" and g.a[0].kind in ("eq", "eqz") and (zero_iter(g.a[0]) or any(y is NONE for y in g.a[0].a))) and not (g.kind == "lt" and iter_positive(g))]
            bad = [g for g in extra if not any(x.kind in ("mcall", "call") and callname(x) not in ("range", "len") for x in V_.walk(g))]
            c.ob(False if bad else (None if extra else True), where(e), "the chosen routes are enforced in all iterations but the first" + (": only under %s" % [V_.show(g)[:80] for g in bad] if bad else ""), key="%s|all" % q)
        # the swap step reads the world simulated in this iteration
        for e in [x for x in r.events if x.kind == "call" and tail(x.name) in ("route_swap_due", "route_swap_dso")]:
            ok = any(of_world(e.recv, w) for _, w in sims)
            c.ob(ok, where(e), "the swap step reads the world simulated in the iteration" + ("" if ok else ": " + V_.show(e.recv)[:80]), key="%s|swap world" % q)
            c.ob(all(pos(r, x) < pos(r, e) for x, w in sims), where(e), "the swap step follows the simulation", key="%s|swap after" % q)
            nm = "route_swap_due" if "DUE" in q else "route_swap_dso"
            c.ob(tail(e.name) == nm, where(e), "%s swaps by %s" % (q, nm), key="%s|swap kind" % q)
    # genetic algorithm, neighbourhood search
    r = R32(c, "py", "SolverDSO_GA.solve")
    ok = None
    sims = simulated(c, r)
    for e, w in sims:
        pre = [x for x in r.events if x.kind == "call" and tail(x.name) in ("specify_routes", "set_links_prefer", "enforce_route") and x.loops[:len(e.loops)] == e.loops and (any(of_world(a, w) for a in x.args) or (x.recv is not None and of_world(x.recv, w)))]
        ok = bool(pre) and pos(r, pre[0]) < pos(r, e)
        c.ob(True if ok else False, where(e), "the routes of an individual are set before its simulation", key="ga|before")
        for x in pre[:1]:
            if tail(x.name) == "specify_routes" and len(x.args) == 2:
                g = x.args[1]
                okg = g.kind == "elem" and g.a[0] is e.loops[-1]
                c.ob(True if okg else (False if g.kind in ("i", "c") else None), where(x), "the routes are those of the individual evaluated" + ("" if okg else ": " + V_.show(g)[:80]), key="ga|individual")
                c.ob(True if not x.g else None, where(x), "the routes of every individual are set", key="ga|always")
    r = R32(c, "py", "SolverDSO_ALNS__objective_function_by_UXsim")
    xx = [p[0] for p in r.func.params][-1]
    for e, w in simulated(c, r):
        pre = [x for x in r.events if x.kind == "call" and tail(x.name) == "specify_routes"]
        if not pre:
            pre2 = [x for x in r.events if x.kind == "call" and tail(x.name) in ("set_links_prefer", "enforce_route")]
            c.ob(None if pre2 else False, where(e), "the routes of a candidate are set before its simulation", key="alns|before")
        for x in pre:
            ok = pos(r, x) < pos(r, e) and any(a is w for a in x.args)
            c.ob(True if ok else False, where(x), "the routes of a candidate are set in its world before its simulation", key="alns|before")
            okx = any(a.kind == "p" and a.a[0] == xx for a in x.args)
            c.ob(True if okx else (False if not any(a.kind in ("call", "mcall", "lv") for a in x.args if a is not w) else None), where(x), "the routes are those of the candidate evaluated", key="alns|candidate")
    for nm in ("SolverDSO_GA__specify_routes", "SolverDSO_ALNS__specify_routes"):
        if nm not in prepared("py")[2]:
            c.ob(None, "uxsim/" + FILES["py"], "routes of a vector of choices", key=nm)
            continue
        r = R32(c, "py", nm)
        pn = [p[0] for p in r.func.params]
        en = [e for e in r.events if e.kind == "call" and tail(e.name) in ("set_links_prefer", "enforce_route")]
        c.floor(len(en), 1, "routes set in %s" % nm)
        for e in en:
            lp = e.loops[-1] if e.loops else None
            a = e.args[0]
            val = [x for x in V_.walk(a) if x.kind == "elem" and x.a[0].kind == "p" and x.a[0].a[0] == pn[-1]]
            veh = e.recv
            idx = veh.a[1] if veh.kind == "i" else None
            okv = None
            if idx is not None:
                okv = idx.kind == "elem" and "len(%s)" % pn[-1] in V_.show(idx) or (idx.kind == "elem" and idx.a[0].kind == "range")
                if not okv and idx.kind not in ("poly", "c", "elem"):
                    okv = None
            elif veh.kind == "elem":
                okv = None
            c.ob(okv, where(e), "the n-th choice belongs to the n-th vehicle" + ("" if okv is not False else ": " + V_.show(idx)[:80]), key="%s|vehicle" % nm)
            ks = [x for x in V_.walk(a) if x.kind == "tuple" and len(x.a[0]) == 2]
            okk = None
            for kk in ks:
                f = [[z.a[1] for z in V_.walk(y) if z.kind == "a" and z.a[1] in ("orig", "dest")] for y in kk.a[0]]
                if f == [["orig"], ["dest"]]:
                    okk = all(z.a[0] is veh for y in kk.a[0] for z in V_.walk(y) if z.kind == "a" and z.a[1] in ("orig", "dest"))
                elif all(f):
                    okk = False
            c.ob(okk, where(e), "the route of a vehicle is one of its origin and destination", key="%s|od" % nm)
            if a.kind == "i" and a.a[1].kind in ("elem", "c", "poly"):
                j = a.a[1]
                inr = [g for x in e.g for g in V_.conj(x) if g.kind == "lt"]
                ok = (j in val) if j.kind == "elem" else (True if e.g and j.kind == "c" and any(x in val and y.a[0].a[0] and dict((m[0][0], co) for m, co in y.a[0].a[0] if len(m) == 1).get(x, 0) < 0 for y in inr if y.a[0].kind == "poly" for x in V_.walk(y)) or e.g and j.kind == "c" and not inr and any(x.kind in ("le", "not") for g in e.g for x in V_.conj(g)) else False)
                c.ob(True if ok else False, where(e), "the choice of a vehicle selects its route" + ("" if ok else ": " + V_.show(j)[:60]), key="%s|choice" % nm)


def zero_iter(q):
    """condition iteration number == 0"""
    if q.kind == "eqz":
        return q.a[0].kind == "elem" and q.a[0].a[0].kind == "range"
    for x in q.a:
        if x.kind == "elem" and x.a[0].kind == "range" and any(y is ZERO for y in q.a):
            return True
    return q.a[0].kind == "elem" and q.a[0].a[0].kind == "range" and len(q.a) > 1 and q.a[1] is ZERO


def iter_positive(g):
    """0 < iteration number"""
    p = g.a[0]
    return p.kind == "poly" and len(p.a[0]) == 1 and p.a[0][0][1] < 0 and p.a[0][0][0][0][0].kind == "elem"


def appended(which, r):
    """{attribute: [(event, value)]} of the lists of the solver"""
    ap = prepared(which)[1]
    out = {}
    for e in r.events:
        if e.kind == "mut" and e.name == "append" and e.args and e.func.split(".")[-1] == r.qual.split(".")[-1]:
            names = ap.get(e.line, [])
            if len(names) == 1:
                out.setdefault(names[0], []).append((e, e.args[0]))
    return out


def dict_items(v):
    """key/value terms put into a dictionary built in a loop: rec(dict, ... keyset(rho, k, v))"""
    return [(x.a[1], x.a[2]) for x in V_.walk(v) if x.kind == "keyset"]


LOGS = ("ttts", "dfs_link", "route_log", "cost_log")
IND = ("n_swaps", "potential_swaps", "t_gaps")


@rule("P32", "R3", "travel times, link data, routes and indicators recorded belong to the simulation of the iteration")
def r3(c):
    for which, q, kind in ITERS:
        r = R32(c, which, q)
        sims = simulated(c, r)
        w = sims[0][1]
        itl = sims[0][0].loops[:1]
        if kind == "ga":
            w = ga_best(r)
        ap = appended(which, r)
        need = LOGS + (IND if kind in ("last", "best") else ())
        for nm in need:
            es = [x for x in ap.get(nm, [])]
            c.ob(True if len(es) == 1 else (False if not es or all(x[0].loops == itl and same_guard(x[0], es[0][0]) for x in es) else None), head(r), "%s is recorded once per iteration" % nm + ("" if len(es) == 1 else ": %d times" % len(es)), key="%s|%s once" % (q, nm))
            for e, v in es:
                okl = e.loops == itl
                gx = [g for x in e.g for g in V_.conj(x)]
                c.ob(True if okl and not gx else (False if (not okl and len(e.loops) != len(itl)) or gx else None), where(e), "%s is recorded in every iteration" % nm + ("" if okl and not gx else ": under %s" % [V_.show(g)[:60] for g in gx]), key="%s|%s every" % (q, nm))
                c.ob(all(pos(r, x) < pos(r, e) for x, _ in sims), where(e), "%s is recorded after the simulation" % nm, key="%s|%s after" % (q, nm))
                check_log(c, r, which, q, kind, nm, e, v, w)


def ga_best(r):
    """world of the best individual: the term the generation is recorded from"""
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "W_intermid_solution" and e.loops:
            return e.value
    return None


def swap_result(v):
    """(field, result term) of converted results of the C++ swap step"""
    if v.kind == "i" and v.a[0].kind == "call" or v.kind == "i" and v.a[0].kind == "mcall":
        return v.a[1], v.a[0]
    return None


CONV = {"route_log": 0, "cost_log": 1, "n_swaps": 2, "potential_swaps": 3, "t_gaps": 4}


def check_log(c, r, which, q, kind, nm, e, v, w):
    if w is None:
        c.ob(None, where(e), "%s of the iteration" % nm, key="%s|%s" % (q, nm))
        return
    what = "%s of the iteration is that of its simulation" % nm
    k = "%s|%s" % (q, nm)
    wrong = not of_world(v, w)
    if nm == "ttts":
        at = [x for x in V_.walk(v) if x.kind == "a" and x.a[1] in ("total_travel_time", "average_travel_time", "analyzer")]
        ok = None
        if at:
            core = v
            while core.kind == "call" and callname(core) in ("int", "float", "round") and cargs(core):
                core = cargs(core)[0]
            ok = all(x.kind == "a" and x.a[1] == "total_travel_time" and analyzer_of(x.a[0], w) for _, x in paths(core))
        c.ob(ok if ok is not None else (False if v.kind in ("c",) else None), where(e), what + ("" if ok is not False else ": %s" % V_.show(v)[:120]), key=k)
        return
    if nm == "dfs_link":
        ok = None
        if callname(v) and v.kind == "mcall":
            an = v.a[0]
            ok = callname(v) == "link_to_pandas" and analyzer_of(an, w)
            if callname(v) != "link_to_pandas" and "pandas" not in callname(v):
                ok = None
        c.ob(ok, where(e), what + ("" if ok is not False else ": %s" % V_.show(v)[:120]), key=k)
        return
    sr = swap_result(v)
    if which == "ad":
        ok = None
        if sr and callname(sr[1]) == "_convert_flat_result_to_names":
            a = cargs(sr[1])
            ok = nm != "t_gaps" and sr[0].kind == "c" and sr[0].a[0] == CONV[nm] and a and callname(a[0]) in ("route_swap_due", "route_swap_dso") and of_world(a[0], w)
            okn = len(a) > 1 and of_world(a[1], w) and "VEHICLES" in V_.show(a[1])
            c.ob(True if okn else None, where(e), "vehicle names are those of the world simulated", key=k + " names")
        elif nm == "t_gaps":
            xs = [x for x in V_.walk(v) if swap_result(x) and callname(swap_result(x)[1]) == "_convert_flat_result_to_names"]
            want = None
            if xs:
                s2 = swap_result(xs[0])
                ok = s2[0].kind == "c" and s2[0].a[0] == CONV[nm] and of_world(s2[1], w)
                if ok:
                    nveh = [x for x in V_.walk(v) if callname(x) == "len" and x not in set(V_.walk(xs[0]))]
                    ok = bool(nveh) and same(v, V_.mul(xs[0], V_.inv(nveh[0]))) and "VEHICLES" in V_.show(nveh[0])
        c.ob(ok, where(e), what + ("" if ok is not False else ": %s" % V_.show(v)[:160]), key=k)
        return
    if nm in ("route_log", "cost_log"):
        it = dict_items(v)
        ok = None
        for key, val in it:
            okk = key.kind == "elem" and of_world(key, w) and "VEHICLES" in V_.show(key)
            tr = [x for x in V_.walk(val) if x.kind == "mcall" and tail(x.a[1]) == "traveled_route"]
            okw = bool(tr) and all(of_world(x, w) for x in tr)
            if nm == "route_log":
                okc = val.kind == "comp" and val.a[1].kind == "a" and val.a[1].a[1] == "name" and len(val.a) > 2 and is_travelled(val.a[2]) and (len(val.a) < 4 or val.a[3] is TRUE)
            else:
                okc = False
                if tr:
                    t = tr[0]
                    ts = mk("i", t, ONE)
                    okc = same(val, V_.sub(mk("i", ts, const(-1)), mk("i", ts, ZERO)))
                    if not okc and any(x.kind in ("rec", "lv") for x in V_.walk(val)):
                        okc = None
            one = okk and okw and okc
            ok = one if ok is None else (ok and one)
            if not tr:
                ok = None if val.kind not in ("c",) else False
            c.ob(ok, where(e), what + ("" if ok is not False else ": %s -> %s" % (V_.show(key)[-40:], V_.show(val)[:160])), key=k)
        if not it:
            c.ob(False if wrong and not any(x.kind in ("lv", "rec", "call", "mcall") for x in V_.walk(v)) else None, where(e), what, key=k)
        return
    if nm == "t_gaps":
        nveh = [x for x in V_.walk(v) if callname(x) == "len" and "VEHICLES" in V_.show(x) and of_world(x, w) and not any(y.kind == "rec" for y in V_.walk(x))]
        ok = None
        if v.kind == "poly" and len(v.a[0]) == 1:
            (m, co), = v.a[0]
            tot = [x for x, ex in m if x.kind in ("rec", "sum") and ex == 1]
            if len(tot) == 1 and tot[0].kind == "rec" and any(y.kind in ("rec", "c", "poly") and not (y.kind == "poly" and any(x.kind in ("rho", "lv") for m, co in y.a[0] for x, ex in m)) for _, y in paths(tot[0].a[1])):
                ok = False
            else:
              ok = len(tot) == 1 and any(same(v, V_.mul(tot[0], V_.inv(n))) for n in nveh)
            if not ok and not tot:
                ok = None
        elif v.kind in ("rec", "sum"):
            ok = False
        c.ob(ok, where(e), "the time gap recorded is the mean over the vehicles of the simulation", key=k)
        return
    other = [x for n2 in ("n_swaps", "potential_swaps") if n2 != nm for x in appended(which, r).get(n2, [])]
    if any(x[1] is v for x in other):
        c.ob(False, where(e), what + ": the same value as the other count", key=k)
        return
    src = [l for l in changes_of(r, v)]
    c.ob((nm == "n_swaps") == src[0] if src else None if wrong and v.kind != "c" else (v.kind != "c"), where(e), what, key=k)


def changes_of(r, v):
    """whether a count recorded is guarded by a chosen change (known only for the two accumulators of the swap step)"""
    for lv, nm in ((k[1], k[1].a[0]) for k, x in r.ev.looprec.items() if x[1] is v or v.kind == "rec" and x[1] is v.a[1]):
        if nm == "n_swap":
            return [True]
        if nm == "potential_n_swap":
            return [False]
    return []


def analyzer_of(an, w):
    """the term is the analyzer of the world (or a copy of it)"""
    if an.kind == "ite":
        return all(analyzer_of(x, w) for _, x in paths(an))
    if an.kind == "a" and an.a[1] == "analyzer":
        return an.a[0] is w
    if an.kind in ("call", "mcall") and callname(an) in ("copy",):
        x = cargs(an)[-1] if cargs(an) else an.a[0]
        return analyzer_of(x, w)
    if an.kind in ("call", "mcall") and callname(an) == "_lightweight_finalize":
        return any(x is w for x in cargs(an))
    return False


def avg(v, w):
    """average travel time of a world"""
    return v.kind == "a" and v.a[1] == "average_travel_time" and analyzer_of(v.a[0], w)


def final(r, f):
    v = r.heap("s." + f)
    return v


@rule("P32", "R4", "the solution returned is the last iterate or the best found, as documented")
def r4(c):
    for which, q, kind in ITERS:
        if kind == "alns":
            continue
        r = R32(c, which, q)
        sims = simulated(c, r)
        w = sims[0][1]
        sol, mid, ret = final(r, "W_sol"), final(r, "W_intermid_solution"), r.r.ret
        ok = ret is sol or same(ret, sol)
        c.ob(True if ok else (False if not any(x.kind in ("call", "mcall") and not fresh(x) for x in V_.walk(ret)) else None), head(r), "the solution stored is the one returned" + ("" if ok else ": %s / %s" % (V_.show(ret)[:80], V_.show(sol)[:80])), key="%s|returned" % q)
        if kind == "last":
            def last(v):
                if v is w:
                    return True
                if v.kind == "rec":
                    return v.a[1] is w
                if v.kind in ("rnd", "p", "c", "ite", "a"):
                    return False
                return None
            okl = last(sol)
            c.ob(okl, head(r), "the solution is the world of the last iteration" + ("" if okl is not False else ": %s" % V_.show(sol)[:160]), key="%s|last" % q)
            okl = last(mid)
            c.ob(okl, head(r), "the intermediate solution is the world of the latest iteration" + ("" if okl is not False else ": %s" % V_.show(mid)[:160]), key="%s|intermediate" % q)
        elif kind == "best":
            rec = sol if sol.kind == "rec" else mid
            okm = same(sol, mid)
            c.ob(True if okm else (False if sol is w or sol.kind in ("rnd", "c", "p") else None), head(r), "the solution is the best world found" + ("" if okm else ": %s" % V_.show(sol)[:120]), key="%s|best" % q)
            best(c, r, q, rec, w)
        elif kind == "ga":
            okm = same(sol, mid)
            c.ob(True if okm else (False if sol.kind in ("rnd", "c", "p") or not any(x is y for x in V_.walk(sol) for y in V_.walk(mid)) else None), head(r), "the solution is the intermediate solution of the last generation" + ("" if okm else ": %s" % V_.show(sol)[:120]), key="ga|final")
            ga(c, r, w)
    alns(c)


def best(c, r, q, rec, w):
    """best-so-far recurrence over the average travel times"""
    if rec.kind != "rec":
        c.ob(False if rec is w or rec.kind in ("rnd", "c", "p") else None, head(r), "the best world is kept over the iterations", key="%s|kept" % q)
        return
    adopted = 0
    for g, v in paths(rec.a[1]):
        if v.kind in ("rho", "lv"):
            continue
        adopted += 1
        c.ob(True if v is w else (False if v.kind in ("rnd", "c", "p") else None), head(r), "the world kept is the one simulated in the iteration" + ("" if v is w else ": " + V_.show(v)[:80]), key="%s|world" % q)
        cmp_ = []
        none = False
        comp = False
        todo = list(g)
        while todo:
            x = todo.pop()
            if x.kind in ("and", "or"):
                todo.extend(x.a[0])
                continue
            if x.kind == "eq" and any(y is NONE for y in x.a):
                none = True
            if x.kind in ("eq", "eqz", "le", "lt") and any(y.kind == "a" and y.a[1] in ("trip_all", "trip_completed") for y in V_.walk(x)):
                comp = True
            if x.kind in ("lt", "le") and x.a[0].kind == "poly":
                for m, co in x.a[0].a[0]:
                    for y, ex in m:
                        if avg(y, w):
                            cmp_.append((x, co))
        if not comp:
            alien = any(z.kind in ("call", "mcall", "lv") and not fresh(z) for x in g for z in V_.walk(x))
            c.ob(None if alien else False, head(r), "only a world whose trips are all completed is adopted as the best one", key="%s|complete" % q)
        else:
            c.ob(True, head(r), "only a world whose trips are all completed is adopted as the best one", key="%s|complete" % q)
        okc = [co > 0 for x, co in cmp_]
        odd = [y for x in flat(g) if x.kind in ("lt", "le") and x.a[0].kind == "poly" for m, co in x.a[0].a[0] for y, ex in m if y.kind == "a" and y.a[1] not in ("average_travel_time", "trip_all", "trip_completed") and analyzer_of(y.a[0], w)]
        if odd:
            c.ob(False, head(r), "the worlds are compared by their average travel time: %s" % V_.show(odd[0])[-60:], key="%s|measure" % q)
        if cmp_:
            c.ob(all(okc), head(r), "a world replaces the best one only if its average travel time is lower" + ("" if all(okc) else ": %s" % V_.show(cmp_[0][0])[:160]), key="%s|lower" % q)
        elif not none:
            alien = any(x.kind in ("lt", "le") for x in g)
            c.ob(None if alien else False, head(r), "a world replaces the best one only if its average travel time is lower" + ("" if alien else ": replaced under %s" % [V_.show(x)[:60] for x in g]), key="%s|lower" % q)
    c.ob(True if adopted else False, head(r), "a world is kept as the best one", key="%s|adopt" % q)
    # a value remembered for the comparison moves together with the world
    for x in V_.walk(rec.a[1]):
        if x.kind == "lv" and x.a[0] not in ("self",):
            lp = loopvar2(r, x)
            if lp is None:
                continue
            for g, v in paths(lp[1]):
                if v is x or v.kind in ("rho", "lv"):
                    continue
                ok = avg(v, w)
                c.ob(True if ok else (False if v.kind in ("c", "a", "poly") else None), head(r), "the value compared with is the average travel time of the best world" + ("" if ok else ": " + V_.show(v)[:80]), key="%s|value" % q)


def flat(g):
    out, todo = [], list(g)
    while todo:
        x = todo.pop()
        if x.kind in ("and", "or"):
            todo.extend(x.a[0])
        else:
            out.append(x)
    return out


def loopvar2(r, x):
    cand = [w for k, w in r.ev.looprec.items() if k[1] is x]
    return (cand[-1][0], cand[-1][1]) if cand else None


def objective(v, w, sign):
    """v == sign * (total travel time + simulation length * unfinished trips) of world w"""
    an = mk("a", w, "analyzer")
    t = mk("a", an, "total_travel_time")
    pen = V_.mul(V_.sub(mk("a", an, "trip_all"), mk("a", an, "trip_completed")), mk("a", w, "TMAX"))
    want = V_.add(t, pen)
    return same(v, want if sign > 0 else V_.sub(ZERO, want))


def ga(c, r, w):
    # the best individual of a generation
    recs = [(k, x) for k, x in r.ev.looprec.items() if k[1].a[0] not in ("routes",) and any(y is k[1] or y.kind == "rho" for y in V_.walk(x[1])) and any(v is not k[1] and v.kind == "poly" and any(y.kind == "a" and y.a[1] == "total_travel_time" for m, co in v.a[0] for y, ex in m) for g, v in paths(x[1]))]
    seen = 0
    # an individual is judged by its own fitness, not by that of one evaluated before
    obj = {k[1].a[0] for k, x in r.ev.looprec.items() for g, v in paths(x[1]) if v.kind in ("comp", "mutated", "appended") and any(y.kind == "a" and y.a[1] == "total_travel_time" for y in V_.walk(v))}
    for k, x in r.ev.looprec.items():
        if k[1].a[0] in obj:
            continue
        for y in V_.walk(x[1]):
            if y.kind in ("le", "lt") and any(z.kind == "rho" or z is k[1] or z.kind == "lv" and z.a[0] not in obj for z in V_.walk(y)):
                st = [z for z in V_.walk(y) if z.kind == "i" and z.a[0].kind == "lv" and z.a[0].a[0] in obj and (V_.num(z.a[1]) or 0) < 0]
                if st and not any(z.kind == "a" and z.a[1] == "total_travel_time" for z in V_.walk(y)):
                    seen += 1
                    c.ob(False, head(r), "an individual is compared by its own fitness; found %s" % V_.show(y)[:160], key="ga|own")
    for k, x in recs[-1:]:
        ww = [y for y in V_.walk(x[1]) if fresh(y)]
        for g, v in paths(x[1]):
            if v is k[1] or v.kind in ("rho", "lv"):
                continue
            seen += 1
            ok = objective(v, ww[0], -1)
            okp = objective(v, ww[0], 1)
            c.ob(True if ok or okp else (False if v.kind == "poly" else None), head(r), "the fitness is total travel time plus a penalty for unfinished trips" + ("" if ok or okp else ": " + V_.show(v)[:160]), key="ga|fitness")
        direction(c, r, x, k[1], "ga", maximise=lambda v: objective(v, ww[0], -1))
        # per generation
        init = x[0]
        okr = init is NONE
        c.ob(True if okr else (False if init.kind in ("lv", "rec") else None), head(r), "the best individual is determined anew in every generation", key="ga|reset")
        # the world is remembered under the same conditions
        wa = [z for kk, z in r.ev.looprec.items() if kk[0] == k[0] and any(fresh(v) for g, v in paths(z[1]))]
        wb = [z for z in wa if not all(fresh(v) for g, v in paths(z[1]))]
        if not wb and len(wa) > 1:
            wb = wa
        for z in wb:
            g1 = [frozenset(map(str, map(V_.show, g))) for g, v in paths(x[1]) if v is not k[1] and v.kind not in ("lv", "rho")]
            g2 = [frozenset(map(str, map(V_.show, g))) for g, v in paths(z[1]) if fresh(v)]
            ok = sorted(map(sorted, g1)) == sorted(map(sorted, g2))
            c.ob(True if ok else False, head(r), "the best world and its fitness are remembered together" + ("" if ok else ": %s / %s" % ([sorted(a)[:2] for a in g2], [sorted(a)[:2] for a in g1])), key="ga|together")
        if not wb:
            c.ob(None, head(r), "the best world of a generation", key="ga|world")
    if not seen:
        c.ob(None, head(r), "the fitness of an individual", key="ga|fitness")
    # the fitness list used for selection is the one compared
    for e in r.events:
        if e.kind == "mut" and e.name == "append" and e.args and "fitnesses" in V_.show(e.loc)[:40]:
            v = e.args[0]
            ww = [y for y in V_.walk(v) if fresh(y)]
            ok = bool(ww) and objective(v, ww[0], -1)
            c.ob(True if ok else (False if v.kind == "poly" else None), where(e), "the fitness of an individual is minus its total travel time and penalty", key="ga|fitness list")


def direction(c, r, x, lv, q, maximise=None):
    for g, v in paths(x[1]):
        if v is lv or v.kind in ("lv", "rho"):
            continue
        todo = list(g)
        cmp_ = []
        none = False
        while todo:
            y = todo.pop()
            if y.kind in ("and", "or"):
                todo.extend(y.a[0])
            elif y.kind in ("lt", "le") and y.a[0].kind == "poly":
                co = [cf for m, cf in y.a[0].a[0] if len(m) == 1 and m[0][0] is lv]
                if co:
                    cmp_.append((y, co[0]))
            elif y.kind == "eq" and any(z is NONE for z in y.a):
                none = True
        up = maximise is None or maximise(v)
        for y, co in cmp_:
            ok = (co > 0) == up       # lv - v < 0: larger values replace the best
            c.ob(ok, head(r), "the best value is replaced only by a better one" + ("" if ok else ": %s" % V_.show(y)[:160]), key="%s|better" % q)
        if not cmp_ and not none:
            c.ob(False if not g else None, head(r), "the best value is replaced only by a better one", key="%s|better" % q)


def alns(c):
    r = R32(c, "py", "SolverDSO_ALNS__objective_function_by_UXsim")
    sims = simulated(c, r)
    w = sims[0][1]
    v = r.r.ret
    ok = objective(v, w, 1)
    c.ob(True if ok else (False if v.kind in ("poly", "a", "c") else None), head(r), "the objective is total travel time plus a penalty for unfinished trips" + ("" if ok else ": " + V_.show(v)[:160]), key="alns|objective")
    ws = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "W_intermid_solution"]
    bs = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "best_obj_value"]
    c.floor(len(ws), 1, "best solution of the neighbourhood search")
    for e in ws:
        c.ob(True if e.value is w else (False if e.value.kind in ("rnd", "a", "c", "p") else None), where(e), "the world kept is the one of the candidate", key="alns|world")
        c.ob(iff(e, bs) if bs else None, where(e), "the best world and its objective are remembered together", key="alns|together")
        cm = [(x, y) for g in e.g for x in [g] + (list(g.a[0]) if g.kind in ("or", "and") else []) for y in [x] if x.kind in ("lt", "le")]
        for x, _ in cm:
            co = [cf for m, cf in x.a[0].a[0] if len(m) == 1 and m[0][0].kind == "a" and m[0][0].a[1] == "best_obj_value"] if x.a[0].kind == "poly" else []
            if co:
                # new - best < 0
                c.ob(co[0] < 0, where(e), "a candidate replaces the best solution only if its objective is lower" + ("" if co[0] < 0 else ": %s" % V_.show(x)[:120]), key="alns|lower")
                okv = same(V_.add(x.a[0], V_.mul(const(-co[0]), mk("a", [z for m, cf in x.a[0].a[0] for z, _ in m if z.kind == "a" and z.a[1] == "best_obj_value"][0].a[0], "best_obj_value"))), v)
                c.ob(True if okv else None, where(e), "the objective compared is the one returned", key="alns|compared")
        if not cm:
            c.ob(False if not e.g else None, where(e), "a candidate replaces the best solution only if its objective is lower", key="alns|lower")
    for e in bs:
        ok = same(e.value, v)
        c.ob(True if ok else (False if e.value.kind in ("poly", "c", "a") else None), where(e), "the best objective is that of the candidate", key="alns|value")
    r = R32(c, "py", "SolverDSO_ALNS.solve")
    calls = [e for e in r.events if e.kind in ("call", "new") and tail(e.name) == "init_alns"]
    c.floor(len(calls), 1, "start of the neighbourhood search")
    fs = [f for f in P.py_mod("DTAsolvers/ALNS.py").allf if f.qual == "init_alns"]
    if fs:
        pn = [p[0] for p in fs[0].params]
        for e in calls:
            b = dict(zip(pn, e.args))
            b.update(dict(e.kw or {}))
            for n in ("k_max", "k_min", "p0", "trials", "always_accept", "destroy_set", "repair_set"):
                if n in b and isinstance(b[n], V):
                    v = b[n]
                    ok = any(x.kind == "p" and x.a[0] == n for x in V_.walk(v))
                    c.ob(True if ok else (False if v.kind in ("p", "c") else None), where(e), "the option %s reaches the neighbourhood search" % n, key="alns|%s" % n)
            v = b.get("total_iters")
            if isinstance(v, V):
                c.ob(True if any(x.kind == "p" and x.a[0] == "max_iter" for x in V_.walk(v)) else (False if v.kind in ("p", "c") else None), where(e), "the number of iterations reaches the neighbourhood search", key="alns|iters")
    sol = final(r, "W_sol")
    c.ob(True if sol is final(r, "W_intermid_solution") or same(sol, final(r, "W_intermid_solution")) else None, head(r), "the solution is the best world found", key="alns|solution")


@rule("P32", "R5", "a solver starts without the results of an earlier call")
def r5(c):
    for which, q, kind in ITERS:
        qq = "SolverDSO_ALNS.solve" if kind == "alns" else q
        r = R32(c, which, qq)
        first = min([pos(r, e) for e, w in simulated(c, r, False)] or [10 ** 9]) if kind != "alns" else 10 ** 9
        nm = LOGS + (IND if kind in ("last", "best") else ())
        for n in nm:
            es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == n and e.loc.a[0].kind == "p"]
            ok = any(e.value.kind in ("list",) or (e.value.kind == "c" and e.value.a[0] == ()) or V_.show(e.value) in ("list(())", "[]") for e in es if not e.loops and pos(r, e) < first and not e.g)
            inloop = [e for e in es if e.loops]
            c.ob(False if inloop else (True if ok else (False if not es else None)), head(r), "%s starts empty in every call" % n + ("" if ok else ""), key="%s|%s" % (qq, n))
        if kind in ("best",):
            es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "W_intermid_solution" and not e.loops and pos(r, e) < first]
            ok = any(e.value is NONE and not e.g for e in es)
            c.ob(True if ok else (False if not es else None), head(r), "the best world of an earlier call is forgotten", key="%s|W_intermid_solution" % qq)
        if kind == "alns":
            es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "best_obj_value" and not e.loops]
            ok = any(e.value is NONE and not e.g for e in es)
            c.ob(True if ok else (False if not es else None), head(r), "the best objective of an earlier call is forgotten", key="alns|best")


@rule("P32", "R6", "the worlds of the C++ solvers are set up as by finalize_scenario and keep their own results")
def r6(c):
    pr = prepared("ad")[0]
    r = run("py", "_lightweight_finalize", project=pr)
    c.used(r)
    wp = r.func.params[0][0]
    OUT = ("init_after_tmax_fix", "adjust_node_capacity", "_ensure_cpp_world", "_compute_auto_tmax", "print_scenario_stats", "print", "_get_or_create_cpp_world")
    r = run("py", "_lightweight_finalize", project=pr, noinline=OUT)
    ref = run("wrap", "World.finalize_scenario", all=True, noinline=OUT)
    c.used(ref)

    def effects(x, who):
        out = {}
        for e in x.events:
            if e.kind == "set" and e.loc.kind == "a":
                ch = chain(e.loc, who)
                if ch:
                    out.setdefault(("set", ch), e)
            elif e.kind == "call" and e.recv is not None:
                ch = chain(e.recv, who)
                if ch is not None:
                    out.setdefault(("call", ch, tail(e.name)), e)
            elif e.kind == "mut":
                pass
        return out

    got = effects(r, mk("p", wp))
    for k in [k for k in got if k[0] == "call" and k[1] == () and proj("wrap").has("World." + k[2]) and k[2] not in OUT]:
        sub = run("wrap", "World." + k[2], all=True, noinline=OUT)
        c.used(sub)
        for kk, e in effects(sub, sub.ev.world if sub.ev.world is not None else mk("p", "self")).items():
            got.setdefault(kk, e)
    want = effects(ref, ref.ev.world if ref.ev.world is not None else mk("p", "self"))
    skip = {"print_scenario_stats", "print", "reset_sim_start_time", "_compute_auto_tmax", "congestion_pricing", "values", "keys", "items", "integers", "_setup_analyzer"}
    n = 0
    for k, e in sorted(want.items(), key=str):
        if k[0] == "call" and (k[2] in skip or k[2].startswith("print")):
            continue
        n += 1
        ok = k in got
        if not ok:
            # set through another name
            ok = True if any(kk[0] == k[0] and kk[-1] == k[-1] for kk in got) else False
        c.ob(ok, head(r), "%s is set up for the worlds of the solvers" % (k[-1] if k[0] == "call" else ".".join(k[1])), key="finalize|%s" % str(k))
        if ok and k in got and e.kind == "set":
            g = got[k]
            a, b = V_.show(e.value), V_.show(g.value)
    c.floor(n, 6, "steps of finalize_scenario")
    for f in ("T", "TIME", "TSIZE"):
        a = [e for e in r.events if e.kind == "set" and e.loc is mk("a", mk("p", wp), f)]
        for e in a:
            if f == "TSIZE":
                w = mk("p", wp)
                wants = [mk("call", "int", (V_.mul(t, V_.inv(mk("a", w, "DELTAT"))),), ()) for t in [r.r.st.heap.get(mk("a", w, "TMAX"), mk("a", w, "TMAX")), mk("a", w, "TMAX")]]
                ok = any(same(e.value, z) for z in wants)
                c.ob(True if ok else None, where(e), "the number of time steps is that of the simulation length", key="finalize|TSIZE value")
            else:
                c.ob(e.value is ZERO or (None if e.value.kind not in ("c", "poly") else False), where(e), "%s starts at zero" % f, key="finalize|%s value" % f)
    # the analyzer of a world is its own
    an = [e for e in r.events if e.kind == "set" and e.loc is mk("a", mk("p", wp), "analyzer")]
    c.floor(len(an), 1, "analyzer of a world")
    for e in an:
        for g, v in paths(e.value):
            own = v.kind == "new" or (v.kind in ("call", "mcall") and callname(v) in ("copy", "deepcopy", "Analyzer"))
            shared = v.kind == "p" or v.kind == "a"
            c.ob(True if own else (False if shared else None), where(e), "every world has its own analyzer" + (": %s is shared with the world of another iteration" % V_.show(v) if shared else ""), key="finalize|analyzer")
    # statistics of an earlier world are reset on the copy
    init = run("wrap", "Analyzer.__init__") if False else None
    copies = [e for e in r.events if e.kind in ("call", "new") and tail(e.name) in ("copy", "deepcopy")]
    if copies:
        stats = analyzer_stats()
        setn = {e.loc.a[1] for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[0].kind not in ("p",)}
        for s in sorted(stats):
            c.ob(s in setn, head(r), "%s of a copied analyzer starts anew" % s, key="finalize|stat %s" % s)
        c.ob("W" in setn, head(r), "a copied analyzer belongs to its new world", key="finalize|stat W")
        c.floor(len(stats), 4, "statistics of the analyzer")


def analyzer_stats():
    """attributes the analyzer starts with zero or nothing"""
    path = os.path.join(P.REPO, "uxsim/analyzer.py")
    t = ast.parse(open(path, encoding="utf-8").read())
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef) and n.name == "Analyzer":
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                    for a in ast.walk(f):
                        if isinstance(a, ast.Assign) and isinstance(a.value, ast.Constant) and a.value.value in (0, 0.0) and not isinstance(a.value.value, str):
                            for x in a.targets:
                                if isinstance(x, ast.Attribute):
                                    out.add(x.attr)
    return out


def chain(v, who):
    """attribute path below the world, elements of containers as *"""
    out = []
    while v is not who:
        if v.kind == "a":
            out.append(v.a[1])
            v = v.a[0]
        elif v.kind in ("i", "elem"):
            v = v.a[0]
            if v.kind == "call" and callname(v) in ("values", "items", "keys") and v.a[1]:
                v = v.a[1][0]
            out.append("*")
        else:
            return None
    return tuple(reversed(out))


@rule("P32", "R7", "route swaps and gaps are counted for the vehicles concerned")
def r7(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        delta = "DELTAN" if lang == "py" else "delta_n"
        if lang == "cpp":
            inc = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "n_swap" and e.loops]
            ch = [e for e, _ in changing(r)]
            c.floor(len(inc), 1, "counted route changes in %s" % q)
            for e in inc:
                d = delta_of(e)
                ok = d.kind == "a" and d.a[1] == delta
                c.ob(True if ok else (False if d.kind in ("c", "poly", "a") else None), where(e), "a route change counts the vehicles of the platoon" + ("" if ok else ": " + V_.show(d)[:60]), key="%s|n_swap" % q)
                c.ob(iff(e, ch), where(e), "route changes are counted exactly for the vehicles that change" + ("" if iff(e, ch) else ": counted under %s" % [V_.show(g)[:80] for g in e.g][-2:]), key="%s|n_swap when" % q)
            for f in ("potential_n_swap", "total_t_gap"):
                es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == f and e.loops]
                c.ob(True if es else False, head(r), "%s is accumulated over the vehicles" % f, key="%s|%s" % (q, f))
                for e in es:
                    gap_step(c, r, q, f, e, delta_of(e), delta)
            acts = {"route_actual": None, "cost_actual": None}
            for f in acts:
                es = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.loops and any(x.kind == "a" and x.a[1] == f for x in V_.walk(e.loc.a[0]))]
                c.ob(True if es else False, head(r), "%s is recorded for every vehicle" % f, key="%s|%s" % (q, f))
                for e in es:
                    if f == "route_actual":
                        ok = is_travelled(e.value)
                        c.ob(True if ok else (False if e.value.kind in ("a", "i", "c") else None), where(e), "the route recorded is the one travelled" + ("" if ok else ": " + V_.show(e.value)[:80]), key="%s|%s value" % (q, f))
                        c.ob(True if not e.g else None, where(e), "the route of every vehicle is recorded", key="%s|%s every" % (q, f))
                    else:
                        oks = []
                        for g, v in paths(e.value):
                            if v is ZERO:
                                oks.append(bool(g) or bool(e.g))
                                continue
                            m = {}
                            for mm, co in (v.a[0] if v.kind == "poly" else ()):
                                if len(mm) == 1:
                                    m[mm[0][0]] = co
                            pos_ = [x for x, co in m.items() if co == 1]
                            neg_ = [x for x, co in m.items() if co == -1]
                            good = len(pos_) == 1 and len(neg_) == 1 and pos_[0].kind == "a" and pos_[0].a[1] == "arrival_time" and neg_[0].kind == "i" and neg_[0].a[1] is ZERO and neg_[0].a[0].kind == "a" and neg_[0].a[0].a[1] == "entry_times"
                            oks.append(True if good else (False if v.kind in ("poly", "c", "a") else None))
                        ok = False if False in oks else (None if None in oks else True)
                        c.ob(ok, where(e), "the cost recorded is the time from entering the first link to the arrival" + ("" if ok is not False else ": " + V_.show(e.value)[:120]), key="%s|%s value" % (q, f))
            continue
        # Python: counters are local variables of the loop over the vehicles
        for f in ("n_swap", "potential_n_swap", "total_t_gap"):
            cand = [(k, x) for k, x in r.ev.looprec.items() if k[1].a[0] == f and "VEHICLES" in V_.show(loop_of(r, k))]
            cand = [(k, x) for k, x in cand if x[0] is ZERO or x[0].kind == "c"]
            if not cand:
                c.ob(None, head(r), "%s is accumulated over the vehicles" % f, key="%s|%s" % (q, f))
                continue
            k, x = cand[-1]
            c.ob(x[0] is ZERO, head(r), "%s starts at zero in every iteration" % f, key="%s|%s zero" % (q, f))
            nz = 0
            for g, v in paths(x[1]):
                d = V_.sub(v, k[1])
                if d is ZERO:
                    continue
                nz += 1
                if f == "n_swap":
                    ok = d.kind == "a" and d.a[1] == delta
                    c.ob(True if ok else (False if d.kind in ("c", "poly", "a") else None), head(r), "a route change counts the vehicles of the platoon" + ("" if ok else ": " + V_.show(d)[:60]), key="%s|n_swap" % q)
                    ch = [e for e, _ in changing(r)]
                    fl = [y for y in g if any(z.kind == "rec" for z in V_.walk(y))]
                    okf = bool(fl) and not any(y.kind == "not" for y in fl)
                    c.ob(True if okf else (False if not fl or any(y.kind == "not" for y in fl) else None), head(r), "route changes are counted exactly for the vehicles that change", key="%s|n_swap when" % q)
            c.ob(True if nz else False, head(r), "%s is accumulated over the vehicles" % f, key="%s|%s" % (q, f))


def loop_of(r, k):
    for e in r.events:
        if e.lids and k[0] in e.lids:
            i = list(e.lids).index(k[0])
            if i < len(e.loops):
                return e.loops[i]
    for e in r.events:
        for l in e.loops:
            if "VEHICLES" in V_.show(l):
                return l
    return NONE


def gap_step(c, r, q, f, e, d, delta):
    recs = [x for x in V_.walk(d) if x.kind == "rec"]
    if not recs:
        c.ob(False if d.kind in ("c", "a") else None, where(e), "%s grows by the gap of the vehicle" % f, key="%s|%s step" % (q, f))
        return
    for g, v in paths(recs[0].a[1]):
        if v.kind in ("rho", "lv"):
            continue
        cm = [x for x in compared(g) if costvar(r, x[1])]
        if not cm:
            continue
        x, lv, other, co, strict = cm[0]
        if f == "total_t_gap":
            ok = same(v, V_.sub(lv, other))
            c.ob(True if ok else (False if same(v, V_.sub(other, lv)) or v.kind in ("c", "lv") else None), where(e), "the gap of a vehicle is the cost saved by the alternative" + ("" if ok else ": " + V_.show(v)[:100]), key="%s|gap" % q)
        else:
            ok = v.kind == "a" and v.a[1] == delta
            c.ob(True if ok else (False if v.kind in ("c", "a") else None), where(e), "a possible change counts the vehicles of the platoon", key="%s|potential" % q)


@rule("P32", "R8", "routes and results cross the C++ boundary unchanged")
def r8(c):
    # dta_batch_enforce_routes: the i-th route belongs to the i-th vehicle
    r = run("cpp", "dta_batch_enforce_routes", project=P.cpp_dta(), noinline=("enforce_route",))
    c.used(r)
    pn = [p[0] for p in r.func.params]
    en = [e for e in r.events if e.kind == "call" and tail(e.name) == "enforce_route"]
    c.floor(len(en), 1, "enforced routes in dta_batch_enforce_routes")
    for e in en:
        veh = e.recv
        vi = veh.a[1] if veh.kind == "i" else (veh if veh.kind == "elem" else None)
        ix = [x for x in V_.walk(e.args[0]) if (x.kind == "i" and x.a[0].kind == "p" and x.a[0].a[0] == pn[1]) or (x.kind == "elem" and x.a[0].kind == "p" and x.a[0].a[0] == pn[1])]
        ok = None
        if vi is not None and ix:
            ok = all((x.a[1] is vi) if x.kind == "i" else (vi.kind == "elem") for x in ix)
        c.ob(ok, where(e), "the route of a vehicle is enforced on that vehicle" + ("" if ok is not False else ": %s on %s" % (V_.show(ix[0]), V_.show(veh))), key="batch|index")
        full = [x for x in e.loops if x.kind == "range"]
        if full:
            okf = full[0].a[0] is ZERO and "len(" in V_.show(full[0])
            c.ob(True if okf else (False if full[0].a[0] is not ZERO or full[0].a[1].kind == "poly" else None), where(e), "routes are enforced for all vehicles" + ("" if okf else ": %s" % V_.show(full[0])), key="batch|all")
        bad = []
        for g in [y for x in e.g for y in V_.conj(x)]:
            s = V_.show(g)
            if "len(" in s or "empty" in s:
                continue
            bad.append(g)
        c.ob(True if not bad else None, where(e), "only vehicles without a route are skipped", key="batch|skip")
        # links in order, none dropped: the route is the sequence of links of the ids
        a = e.args[0]
        comps = [x for x in V_.walk(a) if x.kind in ("comp", "rec")]
        oko = None
        for x in comps:
            body = [y for y in V_.walk(x) if y.kind == "i" and "links" in V_.show(y.a[0])[-12:]]
            if body:
                oko = body[0].a[1].kind == "elem"
        c.ob(oko if oko is not None else None, where(e), "the links enforced are those of the route", key="batch|links")
    csr(c)
    convert(c)


def stmts(ts):
    """token statements of a lambda body"""
    out, cur, d = [], [], 0
    for t in ts:
        if t == ";" and d == 0:
            out.append(cur)
            cur = []
            continue
        if t == "(":
            d += 1
        elif t == ")":
            d -= 1
        cur.append(t)
        if t in ("{", "}") and d <= 0:
            out.append(cur)
            cur = []
            d = 0
    return out


FIELDS = {"rs_link_ids": ("routes_specified", 0), "rs_offsets": ("routes_specified", 1), "ra_link_ids": ("route_actual", 0), "ra_offsets": ("route_actual", 1), "cost_actual": ("cost_actual", None), "n_swap": ("n_swap", None), "potential_n_swap": ("potential_n_swap", None), "total_t_gap": ("total_t_gap", None)}


def csr(c):
    for fn in ("route_swap_due", "route_swap_dso"):
        b = binds.table().get("World", {}).get(fn)
        if b is None:
            raise AnchorMissing("binding World.%s" % fn)
        loc = "uxsim/trafficpp/bindings.cpp:%s (World.%s)" % (b.line, fn)
        ts = b.getter
        flat = {}
        for i, t in enumerate(ts):
            if t == "routes_to_csr" and ts[i + 1] == "(":
                a = split(ts, i + 1)
                src = [x for x in a[0] if x in ("routes_specified", "route_actual")]
                for j in (1, 2):
                    if len(a) > j and a[j]:
                        flat[a[j][-1]] = (src[0] if src else None, j - 1)
        n = 0
        for i, t in enumerate(ts):
            if t.startswith('"') and ts[i - 1] == "[" and ts[i + 1] == "]" and ts[i + 2] == "=":
                key = t.strip('"')
                rhs = []
                for u in ts[i + 3:]:
                    if u == ";":
                        break
                    rhs.append(u)
                if key not in FIELDS:
                    continue
                n += 1
                want = FIELDS[key]
                got = None
                for u in rhs:
                    if u in flat:
                        got = flat[u]
                    elif u in {v[0] for v in FIELDS.values()} and "result" in rhs:
                        got = (u, None)
                c.ob(None if got is None else got == want, loc, "the result %s of the swap step is %s" % (key, want[0]) + ("" if got is None or got == want else ": %s" % (got,)), key="%s|%s" % (fn, key))
        c.floor(n, 6, "results of World.%s" % fn)
    # offsets of flat routes
    free = [f for f in P.cpp_dta().allf if f.qual == "routes_to_csr"]
    try:
        r = run("cpp", "bind_World_batch_enforce_routes_csr", project=P.cpp_dta(), noinline=("dta_batch_enforce_routes",))
    except AnchorMissing:
        r = None
    b = binds.table().get("World", {}).get("batch_enforce_routes_csr")
    if b is None:
        raise AnchorMissing("binding World.batch_enforce_routes_csr")
    loc = "uxsim/trafficpp/bindings.cpp:%s (World.batch_enforce_routes_csr)" % b.line
    ts = b.getter
    # s = off[i], e = off[i + 1]; route i = ids[s .. e)
    idx = {}
    for i, t in enumerate(ts):
        if t == "=" and i + 4 < len(ts) and ts[i + 2] == "[":
            j = i + 3
            e = []
            while ts[j] != "]":
                e.append(ts[j])
                j += 1
            idx[ts[i - 1]] = (ts[i + 1], tuple(e))
    asg = [i for i, t in enumerate(ts) if t == "assign"]
    if asg:
        a = split(ts, asg[0] + 1)
        tgt = []
        j = asg[0] - 2
        if ts[j] == "]":
            k = j
            while ts[k] != "[":
                k -= 1
            tgt = ts[k + 1:j]
        lo = [u for u in a[0] if u in idx]
        hi = [u for u in a[1] if u in idx] if len(a) > 1 else []
        ok = None
        if lo and hi and len(tgt) == 1:
            ok = idx[lo[0]][1] == (tgt[0],) and idx[hi[0]][1] == (tgt[0], "+", "1") and a[0][0] == a[1][0]
        c.ob(ok, loc, "the flat routes are split at their offsets" + ("" if ok is not False else ": %s" % idx), key="csr|split")
    names = [x[0] for x in b.args]
    lam = [p[-1] for p in split(ts, ts.index("("))][1:] if "(" in ts else []
    for x, y in zip(lam, names):
        c.ob(x == y, loc, "the binding names its parameter %s" % x + ("" if x == y else ": called %s" % y), key="csr|%s" % x)


def convert(c):
    pr = prepared("ad")[0]
    r = run("py", "_convert_flat_result_to_names", project=pr)
    c.used(r)
    ret = r.r.ret
    parts = list(ret.a[0]) if ret.kind == "tuple" else []
    if len(parts) == 5:
        for i, key in ((2, "n_swap"), (3, "potential_n_swap"), (4, "total_t_gap")):
            ks = [x.a[1].a[0] for x in V_.walk(parts[i]) if x.kind == "i" and x.a[1].kind == "c" and isinstance(x.a[1].a[0], str)]
            c.ob(None if not ks else ks[0] == key, head(r), "the %s of the swap step is reported" % key + ("" if not ks or ks[0] == key else ": %s" % ks[0]), key="convert|%s" % key)
        # routes
        for x in [parts[0]]:
            it = dict_items(x) or [(y.a[1], y.a[2]) for y in V_.walk(x) if y.kind == "dictcomp"]
            ok = None
            for k, v in it:
                sl = [y for y in V_.walk(v) if y.kind == "slice"]
                if sl:
                    lo, hi = sl[0].a[0], sl[0].a[1]
                    a = [z for z in V_.walk(lo) if z.kind == "i"]
                    b = [z for z in V_.walk(hi) if z.kind == "i"]
                    if a and b:
                        ok = plain(lo).kind == "i" and plain(hi).kind == "i" and plain(lo).a[1].kind == "elem" and same(V_.sub(b[0].a[1], a[0].a[1]), ONE) and "ra_offsets" in V_.show(a[0]) and "ra_offsets" in V_.show(b[0]) and "ra_link_ids" in V_.show(v)
            c.ob(ok, head(r), "the route of a vehicle is cut out of the flat routes at its offsets", key="convert|routes")
        s = V_.show(parts[1])
        c.ob(True if "'cost_actual'" in s else (False if "'" in s else None), head(r), "the costs are those of the swap step", key="convert|costs")
        for y in V_.walk(parts[1]):
            if y.kind == "i" and y.a[0].kind == "i" and y.a[0].a[1].kind == "c" and y.a[0].a[1].a[0] == "cost_actual":
                j = y.a[1]
                c.ob(True if j.kind == "elem" else (False if j.kind in ("poly", "c") else None), head(r), "the n-th cost belongs to the n-th vehicle" + ("" if j.kind == "elem" else ": index " + V_.show(j)), key="convert|cost index")
    else:
        c.ob(None, head(r), "conversion of the results", key="convert")
    lookups(c, pr)


def plain(v):
    while v.kind == "call" and callname(v) in ("int", "float") and len(cargs(v)) == 1:
        v = cargs(v)[0]
    return v


def lookups(c, pr):
    """names and ids of links and nodes are those of the same object"""
    if pr.has("_build_id_lookup_arrays"):
        r = run("py", "_build_id_lookup_arrays", project=pr)
        c.used(r)
        for x in V_.walk(r.r.ret):
            if x.kind == "comp" and x.a[0] == "dict" and x.a[1].kind == "tuple" and len(x.a[1].a[0]) == 2:
                k, v = x.a[1].a[0]
                ok = k.kind == v.kind == "a" and k.a[0] is v.a[0] and {k.a[1], v.a[1]} == {"name", "id"}
                bad = {y.kind for y in (k, v)} & {"poly", "c"} or (k.kind == v.kind == "a" and not ok) or any(y.kind == "elem" and y.a[0].kind == "range" for y in (k, v)) and not any(callname(z) == "enumerate" for z in V_.walk(x))
                c.ob(True if ok else (False if bad else None), head(r), "names and ids of links and nodes are looked up for the same object" + ("" if ok else ": %s -> %s" % (V_.show(k)[:60], V_.show(v)[:60])), key="lookup")
    if pr.has("_convert_od_routes_to_ids"):
        r = run("py", "_convert_od_routes_to_ids", project=pr)
        c.used(r)
        n = 0
        for k, v in dict_items(r.r.ret):
            if k.kind != "tuple" or len(k.a[0]) != 2:
                continue
            n += 1
            at = []
            for x in k.a[0]:
                at.append([z.a[1].a[0] for z in V_.walk(x) if z.kind == "i" and z.a[1].kind == "c"])
            if all(len(a) == 1 for a in at):
                c.ob([a[0] for a in at] == [0, 1], head(r), "route sets keep their origin and destination" + ("" if [a[0] for a in at] == [0, 1] else ": %s" % at), key="ids|od")
            els = [z for z in V_.walk(v) if z.kind == "slice" or z.kind in ("call", "mcall") and callname(z) in ("reversed", "sorted", "set")]
            c.ob(False if els else (True if v.kind == "comp" else None), head(r), "all routes and links of a set are kept in order" + ("" if not els else ": " + V_.show(els[0])[:60]), key="ids|routes")
        c.ob(True if n else None, head(r), "route sets are converted", key="ids")
    # a given route set is announced to the swap step as such
    for q in ("CppSolverDUE.solve", "CppSolverDSO_D2D.solve"):
        r = R32(c, "ad", q)
        for e in [x for x in r.events if x.kind == "call" and tail(x.name) in ("route_swap_due", "route_swap_dso")]:
            b = binds.table().get("World", {}).get(tail(e.name))
            if b is None:
                continue
            names = [a[0] for a in b.args]
            for want, arg, neg in (("swap_prob", "swap_prob", None), ("swap_num", "swap_num", None), ("has_external_route_sets", "route_sets", True)):
                if want not in names:
                    continue
                i = names.index(want)
                a = e.args[i] if i < len(e.args) else dict(e.kw).get(want)
                if a is None:
                    c.ob(False, where(e), "%s reaches the swap step" % want, key="%s|arg %s" % (q, want))
                    continue
                ok = any(x.kind == "p" and x.a[0] == arg for x in V_.walk(a))
                c.ob(ok if ok or a.kind in ("c", "p") else None, where(e), "%s reaches the swap step" % want + ("" if ok else ": %s" % V_.show(a)[:60]), key="%s|arg %s" % (q, want))


@rule("P32", "R9", "every vehicle is given exactly the links of its route, on models of networks and route lists")
def r9(c):
    r = run("cpp", "dta_batch_enforce_routes", project=P.cpp_dta())
    c.used(r)
    ps = [x[0] for x in r.func.params]
    ev = [e for e in r.events if e.kind == "call" and tail(e.name) == "enforce_route" and e.recv is not None and e.args]
    c.floor(len(ev), 1, "calls of enforce_route in dta_batch_enforce_routes")
    cases = []
    for k, (nv, rts) in enumerate(((3, [[0, 2], [1], [3, 0, 1]]), (3, [[], [1, 0], [2]]), (4, [[0], [], [], [3, 2]]), (2, [[2], [0, 1], [3]]), (3, [[1, 2]]), (2, [[], []]))):
        links = [{"id": F(i)} for i in range(4)]
        W = {"links": links, "vehicles": [{"id": F(i), "route": None} for i in range(nv)]}
        m = Model({}, [], {mk("p", "W"): W, mk("p", ps[0]): W, mk("p", ps[1]): [[F(x) for x in rt] for rt in rts]}, attrs=True, recs=r.ev.looprec, wrap=False)
        want = [(i, tuple(rt)) for i, rt in enumerate(rts[:nv]) if rt]

        def got(m=m):
            out = []
            for e, en in m.play(ev, brks=r.ev.loopbrk):
                out.append((int(m.ev(e.recv, en)["id"]), tuple(int(l["id"]) for l in m.ev(e.args[0], en))))
            return out
        cases.append((got, want, "%d vehicles and routes %s" % (nv, rts)))
    agree(c, r, "batch", "the route of a vehicle is enforced on this vehicle", cases)


@rule("P32", "R10", "the convergence indicators are, on models of vehicles and route sets, those of the vehicles simulated")
def r10(c):
    for lang, q, kind in SWAPS:
        step = cpp_step if lang == "cpp" else py_step
        r = swap(c, lang, q)
        for f, at in (("n_swap", 1), ("potential_n_swap", 2), ("total_t_gap", 3)):
            cases = []
            for k in range(30):
                for prob, external in ((F(1, 2), False), (F(0), True)):
                    _, _, vehs, sets, cost = scenario(k + 1, kind)
                    want = reference(vehs, sets, cost, [F(1, 4) < prob] * len(vehs), external)[at]
                    if want is None:
                        continue
                    cases.append((lambda k=k, prob=prob, external=external: value(step(r, kind, k, prob, external)[1], f), want, "model %d, probability %s" % (k, prob)))
            agree(c, r, "%s|%s" % (q, f), "%s of the iteration" % f, cases)


def value(d, f):
    v = d.get(f)
    if v is None or isinstance(v, Undecided):
        raise Undecided(str(v))
    return v
