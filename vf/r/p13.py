from .common import *


def draws(x, lo, hi):
    """random factors between lo and hi replaced by one symbol; None if another draw occurs"""
    nm = mk("p", "$noise")
    bad = []

    def f(y):
        if y.kind == "rnd":
            vals = [z for a in y.a for z in (a if isinstance(a, tuple) else (a,)) if isinstance(z, V)]
            if any(same(z, lo) for z in vals) and any(same(z, hi) for z in vals):
                return nm
            bad.append(y)
        return None
    x = V_.subst(x, f)
    return None if bad else x


@rule("P13", "R1", "the cost of a connection is the average over its links of current travel time (with route choice noise) plus toll, infinite if closed")
def r1(c):
    for lang, qual, mat in (("py", "RouteChoice.route_search_all", "adj_mat_time"), ("cpp", "World.update_adj_time_matrix", "adj_mat_time")):
        r = run(lang, qual)
        c.used(r)
        es = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.lids and ".".join(sorted(set(idfields(e.loc)))) == "end_node.start_node"]
        links = {x for e in es for x in V_.walk(e.loc) if x.kind == "elem"}
        c.floor(len(links), 1, "loops over the links")
        noise = mk("p", "noise") if lang == "py" else r.spec("s.route_choice_uncertainty")
        avg = 0
        for e in es:
            L = [x for x in V_.walk(e.loc) if x.kind == "elem"]
            if not L:
                continue
            L = L[0]
            c.ob(each_element(r, L), where(e), "all links are considered", key="%s|all" % r.qual)
            if V_.num(e.value) is not None or "inf" in V_.show(e.value)[:14]:
                continue
            if lang == "py":
                tt = r.spec("L.traveltime_instant[-1]", L=L)
                toll = [x for x in V_.walk(e.value) if x.kind == "mcall" and x.a[1] == "get_toll"]
                tl = toll[0] if toll else ZERO
                if toll:
                    c.ob(tl.a[0] is L and tl.a[2] == (mk("p", "t"),), where(e), "the toll is the one of the link at the time of the search", key="%s|tollargs" % r.qual)
            else:
                tt = r.spec("L.length/L.u if L.traveltime_instant[W.T] <= 0 else L.traveltime_instant[W.T]", L=L, W=r.self)
                tl = [r.spec("L.toll_timeseries[W.T] if len(L.toll_timeseries) > 0 and W.T < len(L.toll_timeseries) else L.route_choice_penalty", L=L, W=r.self),
                      r.spec("L.toll_timeseries[W.T] if W.T < len(L.toll_timeseries) else L.route_choice_penalty", L=L, W=r.self)]
            det = V_.truthy(r.spec("W.hard_deterministic_mode", W=r.ev.world if lang == "py" else r.self))
            val = draws(e.value, ONE, V_.add(ONE, noise))
            c.ob(val is not None, where(e), "the route choice noise scales the travel time by a factor between 1 and 1 plus the uncertainty", key="%s|noise" % r.qual)
            if val is None:
                continue
            if same(e.value, V_.add(base_count(e), ONE)):
                continue
            olds = [x for x in V_.walk(val) if x.kind in ("i", "ite", "lv") and x is not e.loc]
            ok = False
            counts = [x for x in olds if x.kind in ("i", "ite")] + [e.loc]
            for t in (tl if isinstance(tl, list) else [tl]):
                tot = V_.ite(det, V_.add(tt, t), V_.add(V_.mul(tt, mk("p", "$noise")), t))
                for n in counts:
                    if idfields(n) and set(idfields(n)) == {"end_node", "start_node"}:
                        prevs = [e.loc] + [x for x in olds if x is not n and set(idfields(x)) == {"end_node", "start_node"}]
                        if any(same(val, V_.div(V_.add(V_.mul(o, n), tot), V_.add(n, ONE))) for o in prevs):
                            ok = True
                            break
                if ok:
                    break
            isavg = V_.contains_v(val, lambda y: y is tt or (y.kind == "a" and y.a[1] == "traveltime_instant"))
            if isavg:
                avg += 1
                c.ob(ok, where(e), "parallel links are averaged: (old*n + travel time*noise + toll)/(n+1)" + ("" if ok else ", found %s" % V_.show(val)[:500]), key="%s|avg" % r.qual)
                drop = [g for g in rel_guards(e) if "ADJ_MAT" not in V_.show(g)]
                c.ob(not drop, where(e), "every link contributes to its connection" + ("" if not drop else ", only if %s" % inl(V_.and_(drop))), key="%s|every" % r.qual)
                inc = [x for x in es if x is not e and same_guard(x, e) and x.lids == e.lids and idfields(x.loc) and same(V_.sub(x.value, prior(x)), ONE)]
                c.ob(len(inc) == 1, where(e), "the number of links of the connection is counted", key="%s|count" % r.qual)
                inf = [x for x in es if x.loc is e.loc and "inf" in V_.show(x.value)[:14] and x.seq > e.seq]
                cl = r.spec("L.capacity_in == 0", L=L)
                okc = bool(inf) and any(implied(list(e.g) + [V_.truthy(cl)], guard(x)) and implied(list(x.g), V_.truthy(cl)) for x in inf)
                c.ob(okc, where(e), "a link without inflow capacity closes the connection (infinite cost)", key="%s|closed" % r.qual)
        if not avg and not any(e.kind in ("set", "mut") and e.loc is not None and "adj_mat" in V_.show(e.loc) and "adj_mat_time" in V_.show(e.loc) and any(V_.num(e.value) is None and "inf" not in V_.show(e.value)[:14] for _ in (0,) if isinstance(e.value, V_.V)) for e in r.events):
            c.ob(False, head(r), "the travel times of the links enter the costs of their connections", key="%s|avg" % r.qual)
        else:
            c.floor(avg, 1, "cost updates in %s" % r.qual)
        if lang == "cpp":
            z = [e for e in es if V_.is_zero(e.value)]
            flds = {f for e in z for f in [x.a[1] for x in V_.walk(e.loc) if x.kind == "a" and x.a[1].startswith("adj_mat")]}
            ok = {"adj_mat_time", "adj_mat_link_count"} <= flds and all(not rel_guards(e) and e.seq < min(x.seq for x in es if x not in z) for e in z)
            c.ob(ok, head(r), "the costs and link counts of the last search are cleared first", key="cpp|reset")
        else:
            z = [e for e in r.fsets("adj_mat_time") if not e.lids]
            ok = len(z) == 1 and V_.show(z[0].value).startswith("np.zeros") and not z[0].g and all(z[0].seq < e.seq for e in es)
            c.ob(ok, head(r), "the costs of the last search are cleared first", key="py|reset")


def idfields(loc):
    return [x.a[0].a[1] for x in V_.walk(loc) if x.kind == "a" and x.a[1] == "id" and x.a[0].kind == "a"]


def prior(e):
    if e.old is not None and isinstance(e.old, V):
        return e.old
    return base_count(e)


def base_count(e):
    """the term read as previous value in an increment"""
    v = e.value
    for x in V_.walk(v):
        if x.kind in ("i", "ite") and same(v, V_.add(x, ONE)):
            return x
    return e.loc


@rule("P13", "R2", "the next nodes and distances come from one shortest-path search over the current costs")
def r2(c):
    r = run("py", "RouteChoice.route_search_all")
    c.used(r)
    A = r.heap("s.adj_mat_time")
    d = [e for e in r.events if e.kind == "call" and e.name == "dijkstra"]
    for e in d:
        a = e.args[0]
        want = [x for x in V_.walk(a) if x.kind in ("call", "mcall", "a")]
        ok = a.kind == "a" and a.a[1] == "T" and a.a[0].kind in ("call", "mcall") and "csr_matrix" in V_.show(a.a[0])[:12]
        c.ob(ok, where(e), "the search runs over the transposed cost matrix (paths to each destination)", key="py|input")
        c.ob(any(n == "return_predecessors" and V_.truthy(v) is TRUE for n, v in e.kw) and "directed" not in dict(e.kw), where(e), "the search is directed and returns predecessors", key="py|pred")
        c.ob(not e.g, where(e), "the search is always carried out", key="py|always")
        lim = {"limit": lambda v: V_.show(v) in ("np.inf", "inf", "float('inf')", "math.inf"), "unweighted": lambda v: V_.truthy(v) is FALSE, "min_only": lambda v: V_.truthy(v) is FALSE, "indices": lambda v: v is NONE}
        for n, v in e.kw:
            if n in lim:
                ok = lim[n](v)
                c.ob(ok, where(e), "the search covers all nodes with the given costs" + ("" if ok else ", found %s=%s" % (n, inl(v))), key="py|search-" + n)
    if not d:
        c.ob(None, head(r), "shortest-path search (not by dijkstra)", key="py|input")
    for f, i in (("dist", 0), ("next", 1)):
        v = r.heap("s." + f)
        ok = None
        if d:
            ok = v.kind == "a" and v.a[1] == "T" and v.a[0].kind == "i" and V_.num(v.a[0].a[1]) == i and "dijkstra" in V_.show(v.a[0].a[0])[:9]
        c.ob(ok, head(r), "%s is taken from the search" % f, key="py|" + f)
    rec = [e for e in r.isets("dist_record")]
    c.ob(bool(rec) and all(e.loc.a[1] is r.spec("W.T") and same(e.value, r.heap("s.dist")) for e in rec), head(r), "the distances are recorded under the current step", key="py|record")
    r = run("cpp", "World.route_search_all")
    c.used(r)
    ds = [e for e in r.events if e.kind == "set" and "rsa_dist" in V_.show(e.loc)[:40] and e.loc.kind == "i"]
    ns = [e for e in r.events if e.kind == "set" and "rsa_next" in V_.show(e.loc)[:40] and e.loc.kind == "i"]
    pu = [e for e in r.events if e.kind == "mut" and e.name == "append" and e.args and e.args[0].kind == "tuple" and e.lids and "pq" in V_.show(e.loc)[:12]]
    c.floor(min(len(ds), len(ns), len(pu)), 2, "updates of the search state")
    for e in ds:
        start = e.loc.a[0].a[1] if e.loc.a[0].kind == "i" else None
        if len(e.lids) == 1:
            c.ob(V_.is_zero(e.value) and e.loc.a[1] is start, where(e), "the search starts at distance zero at its own node", key="cpp|start")
            continue
        gl = rel_guards(e)
        better = V_.lt(V_.sub(e.value, e.loc))
        c.ob(any(implied(gl, better) for _ in (1,)) and implied([better] + list(e.lg[-1]), V_.and_(gl)), where(e), "a node is improved exactly when the new distance is shorter", key="cpp|relax")
        nxt = e.loc.a[1]
        edge = nxt.a[0] if nxt.kind == "i" else None
        w = mk("i", edge, ONE) if edge is not None else None
        cur = [x for x in V_.walk(e.value) if x.kind == "i" and x.a[0] is e.loc.a[0]]
        ok = None
        if w is not None and cur:
            ok = any(same(e.value, V_.add(x, w)) for x in cur)
        c.ob(ok, where(e), "the new distance is the distance of the current node plus the cost of the edge", key="cpp|dist")
        m = [x for x in ns if x.lids == e.lids and x.loc.a[1] is nxt]
        okn = False
        for x in m:
            cu = cur[0].a[1] if cur else None
            okn = cu is not None and same_guard(x, e) and same(x.value, V_.ite(V_.eq(cu, start), nxt, mk("i", x.loc.a[0], cu)))
        c.ob(okn, where(e), "the first node of the path is inherited from the current node", key="cpp|next")
        p = [x for x in pu if x.lids == e.lids and same_guard(x, e)]
        c.ob(any(same(x.args[0].a[0][0], e.value) and x.args[0].a[0][1] is nxt for x in p), where(e), "an improved node is queued with its new distance", key="cpp|queue")
    ed = [e for e in r.events if e.kind == "mut" and e.name == "append" and "rsa_adj_list" in V_.show(e.loc)[:60]]
    for e in ed:
        g = rel_guards(e)
        t = e.args[0]
        ok = t.kind == "tuple" and len(g) == 1 and same_cond(g[0], V_.lt(V_.sub(ZERO, t.a[0][1])))
        c.ob(ok, where(e), "the edges are the connections with positive cost", key="cpp|edges")
    m = run("cpp", "World.main_loop")
    c.used(m)
    srch = [e for e in m.calls("route_search_all") if e.lids]
    c.floor(len(srch), 1, "route searches in the main loop")
    for e in srch:
        c.ob(e.args and field_of(e.args[0]) == "adj_mat_time", where(e), "the search uses the current costs", key="cpp|costs")
        up = [x for x in m.calls("update_adj_time_matrix") if x.seq < e.seq and covers(e, [x])]
        c.ob(bool(up), where(e), "the costs are updated before the search", key="cpp|fresh")
        for f, src in (("route_dist", "rsa_dist"), ("route_next", "rsa_next")):
            s = [x for x in m.events if x.kind == "set" and field_of(x.loc) == f and x.loc.kind == "a" and x.seq > e.seq and field_of(x.value) == src and covers(e, [x])]
            c.ob(bool(s), where(e), "%s is taken from the search" % f, key="cpp|" + f)
        rec = [x for x in m.events if x.kind == "set" and x.loc.kind == "i" and field_of(x.loc.a[0]) == "route_dist_record"]
        ok = [x for x in rec if x.seq > e.seq and covers(e, [x])]
        # the record is made with the search (if it is made in this function at all)
        c.ob(True if ok else (False if rec else None), where(e), "the distances of every search are recorded", key="cpp|record")
        for x in ok:
            good = field_of(x.value) in ("route_dist", "rsa_dist") and any(y.kind in ("a", "elem") and (y.kind == "elem" or y.a[1] in ("timestep", "T")) for y in V_.walk(x.loc.a[1]))
            c.ob(good, where(x), "the distances are recorded under the current step", key="cpp|record at")


def same_cond(a, b):
    return equiv(a, b)


@rule("P13", "R3", "the link shares of each destination move by the update weight towards the current shortest routes")
def r3(c):
    for q_, gradual in (("World.route_choice_duo", 0), ("World.route_choice_duo_gradual", 1)):
        r = run("cpp", q_)
        c.used(r)
        es = [e for e in r.events if e.kind == "set" and field_of(root(e.loc)) == "route_preference" or (e.kind == "set" and "route_preference" in V_.show(e.loc)[:24])]
        c.floor(len(es), 1, "updates of the shares")
        loc = es[0].loc
        L, dst = loc.a[1].a[0], loc.a[0].a[1].a[0]
        c.ob(each_element(r, L) and each_element(r, dst), where(es[0]), "all destinations and links are updated", key="%s|all" % r.qual)
        w0 = "s.duo_update_weight*(s.DELTAT/s.duo_update_time)" if gradual else "s.duo_update_weight"
        want = r.spec("(1-(X if s.route_pref_active[d.id] else 1))*old + ((X if s.route_pref_active[d.id] else 1) if s.route_next[L.start_node.id][d.id] == L.end_node.id else 0)", X=r.spec(w0), d=dst, L=L, old=loc)
        g = fold(r, loc, None, [e for e in es if e.loc is loc])
        base = list(es[0].lg[-1])
        ok = same(g, want, base)
        c.ob(ok, where(es[0]), "share = (1-weight)*share + weight*on shortest route" + ("" if ok else ", found %s" % V_.show(g)[:500]), key="%s|share" % r.qual)
        c.ob(all(e.loc is loc for e in es), where(es[0]), "each share is updated in its own cell", key="%s|cell" % r.qual)
        act = [e for e in r.events if e.kind == "set" and "route_pref_active" in V_.show(e.loc)[:24]]
        ok = bool(act) and all(V_.num(e.value) == 1 and V_.contains_v(guard(e), lambda y: y.kind == "a" and y.a[1] == "route_next") for e in act)
        c.ob(ok, head(r), "a destination counts as initialised once a link was on its routes", key="%s|active" % r.qual)
    r = run("py", "RouteChoice.homogeneous_DUO_update")
    c.used(r)
    v = r.heap("s.route_pref")
    old = r.spec("s.route_pref")
    wt = [x for x in V_.walk(v) if x.kind == "i" and "newaxis" in V_.show(x.a[1])]
    if not wt:
        c.ob(None, head(r), "share update (not recognised)", key="py|share")
    else:
        W = mk("p", "$w")
        M = mk("p", "$mask")
        g = V_.subst(v, lambda y: W if y in wt else None)
        masks = [x for x in V_.walk(g) if x.kind in ("rec", "keyset") or (x.kind == "call" and x.a[0] == "np.zeros")]
        if masks:
            top = masks[0]
            for x in masks:
                if x._n > top._n:
                    top = x
            g = V_.subst(g, lambda y: M if y is top else None)
        want = V_.add(V_.mul(V_.sub(ONE, W), old), V_.mul(W, M))
        ok = same(g, want)
        c.ob(ok, head(r), "share = (1-weight)*share + weight*on shortest route" + ("" if ok else ", found %s" % V_.show(g)[:300]), key="py|share")
        full = [e for e in r.calls("full")] + [e for e in r.events if e.kind == "call" and e.name == "np.full"]
        w0 = r.spec("W.DUO_UPDATE_WEIGHT*(W.DELTAT/W.DUO_UPDATE_TIME) if W.route_choice_update_gradual else W.DUO_UPDATE_WEIGHT")
        for e in full[:1]:
            ok = same(e.args[1], w0)
            c.ob(ok, where(e), "the weight is the update weight, scaled to the step in gradual mode" + ("" if ok else ", found %s" % inl(e.args[1])), key="py|weight")
        init = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and not e.lids and V_.num(e.value) is not None]
        ok = None
        for e in init:
            k = e.loc.a[1]
            ok = V_.num(e.value) == 1 and "sum(self.route_pref, axis=1)==0" == V_.show(k)
        c.ob(ok, head(r), "a destination without any share starts with the shortest routes only", key="py|init")
        mk_ = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.lids]
        for e in mk_:
            s = V_.show(e.value)
            k = e.loc.a[1]
            nx = [x for x in V_.walk(e.value) if x.kind == "i" and field_of(x.a[0]) == "next"]
            ok = bool(nx) and e.value.kind == "eq0" or "==0" in s
            okk = bool(nx) and nx[0].a[1].kind == "tuple" and nx[0].a[1].a[0][1] is k and "start_node.id" in V_.show(nx[0].a[1].a[0][0]) and "end_node" not in V_.show(nx[0].a[1].a[0][0])
            rest = V_.subst(e.value, lambda y: mk("p", "$n") if nx and y is nx[0] else None)
            okr = "end_node.id" in V_.show(rest) and "start_node" not in V_.show(rest)
            if e.value.kind == "or":
                ok = False
            c.ob(bool(ok and okk and okr), where(e), "a link is on the shortest route if the next node from its start is its end", key="py|mask")
            it = e.loops[-1]
            c.ob(it.kind == "range" and same(it.a[1], r.spec("len(W.NODES)")), where(e), "all destinations are updated", key="py|alldest")


@rule("P13", "R4", "a vehicle uses the shares of its destination; individual shares move by the weight towards the current shortest route")
def r4(c):
    r = R(c, "py", "Vehicle.route_pref_update")
    if proj("py").has("Vehicle.__init__"):
        r0 = R(c, "py", "Vehicle.__init__")
        formula(c, r0, "s.route_choice_principle", V_.ite(V_.eq(mk("p", "route_choice_principle"), NONE), r0.spec("W.route_choice_principle"), mk("p", "route_choice_principle")), "a vehicle follows the principle it is given, else that of the world", key="principle")
    homo = V_.eq(r.spec("s.route_choice_principle"), const("homogeneous_DUO"))
    ev = [e for e in r.fsets("route_pref") if e.value is r.spec("W.ROUTECHOICE.route_pref[s.dest.id]")]
    c.floor(len(ev), 1, "uses of the common shares")
    when(c, r, ev, V_.and_([homo, V_.not_(V_.eq(r.spec("s.dest"), NONE))]), "the common shares of the destination are used")
    fin = under(r.heap("s.route_pref"), [homo, V_.eq(r.spec("s.dest"), NONE)])
    c.ob(fin is not mk("a", r.self, "route_pref"), head(r), "a vehicle without a destination gets shares of its own as well; they are left as they were", key="nodest")
    es = [e for e in r.isets("route_pref")]
    for e in es:
        k = e.loc.a[1]
        w = V_.ite(V_.truthy(r.spec("sum(list(s.route_pref.values())) == 0")), ONE, mk("p", "weight"))
        olds = [x for x in V_.walk(e.value) if x is e.loc or (x.kind == "elem" and x.a[0].kind == "values")]
        news = [x for x in V_.walk(e.value) if x.kind == "i" and x.a[0].kind == "rec"]
        ok = None
        if olds and news:
            N, O = news[0], olds[0]
            ws = [x for x in V_.walk(e.value) if x.kind == "ite" and any(y is mk("p", "weight") for y in V_.walk(x))] + [mk("p", "weight")]
            ok = any(same(e.value, V_.add(V_.mul(V_.sub(ONE, x), O), V_.mul(x, N))) for x in ws)
            okw = [x for x in ws if x.kind == "ite" and V_.num(x.a[1]) == 1 and x.a[2] is mk("p", "weight") and x.a[0].kind in ("eq0", "eq", "cmp") or "==0" in V_.show(x)]
            c.ob(bool(okw), where(e), "a vehicle without shares starts with the shortest route only", key="init")
        c.ob(ok, where(e), "share = (1-weight)*share + weight*on shortest route" + ("" if ok else ", found %s" % V_.show(e.value)[:300]), key="share")
        c.ob(each_element(r, mk("elem", e.loops[-1])) if e.loops else None, where(e), "all links are updated", key="all")
    on = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.lids and V_.num(e.value) == 1]
    for e in on:
        L = base_of(e.loc.a[1]) if e.loc.a[1].kind == "a" else None
        want = V_.eq(r.spec("W.ROUTECHOICE.next[L.start_node.id, s.dest.id]", L=L), r.spec("L.end_node.id", L=L)) if L is not None else None
        ok = None if L is None else equiv(V_.and_(rel_guards(e)), want)
        c.ob(ok, where(e), "a link is on the shortest route if the next node from its start is its end", key="onroute")


@rule("P13", "R5", "the toll of a link at a time is its pricing function at this time, or its fixed penalty")
def r5(c):
    r = R(c, "py", "Link.get_toll")
    cp = V_.eq(r.spec("s.congestion_pricing"), NONE)
    v = r.r.ret
    call = [e for e in r.events if e.kind == "call" and e.name == "congestion_pricing"]
    c.floor(len(call), 1, "uses of the pricing function")
    for e in call:
        c.ob(e.args == [mk("p", "t")] and e.recv is r.self, where(e), "the pricing function is evaluated at the queried time", key="arg")
    when(c, r, call, V_.not_(cp), "a pricing function replaces the fixed penalty")
    rest = under(v, [cp])
    ok = decide(rest, r.spec("s.route_choice_penalty if s.route_choice_penalty != 0 else 0"), [cp]) or decide(rest, r.spec("s.route_choice_penalty"), [cp])
    c.ob(ok, head(r), "without pricing function the toll is the fixed penalty" + ("" if ok else ", found %s" % inl(rest)), key="penalty")
    r = run("wrap", "CppLink.get_toll")
    c.used(r)
    v = r.r.ret
    t = V_.truthy(r.spec("s.congestion_pricing"))
    n = V_.not_(V_.eq(r.spec("s.congestion_pricing"), NONE))
    rest = under(v, [V_.not_(t), V_.not_(n)])
    ok = decide(rest, r.spec("s.route_choice_penalty"))
    c.ob(ok, head(r), "without pricing function the toll is the fixed penalty (C++ mode)" + ("" if ok else ", found %s" % inl(rest)), key="wrap|penalty")
    r = run("wrap", "CppWorld.finalize_scenario")
    c.used(r)
    ts = r.calls("set_toll_timeseries")
    c.floor(len(ts), 1, "hand-over of the toll series")
    for e in ts:
        L = e.recv.a[0] if e.recv.kind == "a" else None
        v = e.args[0]
        ok = None
        if v.kind == "comp":
            _, el, it, cnd = v.a
            ok = cnd is TRUE and it.kind == "range" and V_.is_zero(it.a[0]) and same(it.a[1], r.spec("s.TSIZE"))
            cl = [x for x in V_.walk(el) if x.kind in ("mcall", "call", "ucall") and "congestion_pricing" in V_.show(x)[:200]]
            okv = any(any(isinstance(z, V) and same(z, V_.mul(mk("elem", it), r.spec("s.DELTAT"))) for a in x.a for z in (a if isinstance(a, tuple) else (a,))) for x in cl)
            c.ob(okv, where(e), "the toll of a step is the pricing function at the time of the step", key="wrap|time")
        c.ob(ok, where(e), "the toll series covers all steps", key="wrap|series")
        c.ob(L is not None and each_element(r, L), where(e), "the tolls of all links are handed over", key="wrap|all")
    st = run("wrap", "CppLink.route_choice_penalty")
    pr = proj("wrap")
    f = pr.setter("CppLink", "route_choice_penalty")
    okp = f is not None
    c.ob(okp, head(st), "changing the fixed penalty is possible in C++ mode", key="wrap|setter")


@rule("P13", "R6", "a vehicle that gets another destination takes over its shares before it chooses the next link")
def r6(c):
    n = 0
    fin = cond("py", "W.finalized")
    for q_ in sorted({w.qual for w, e in writers("py", "Vehicle", "dest")}):
        if q_.endswith("__init__"):
            continue
        r = R(c, "py", q_)
        for e in r.fsets("dest"):
            v = base_of(e.loc)
            n += 1
            cs = [x for x in r.calls("route_pref_update") if x.recv is v and x.seq > e.seq]
            gs = [g for g in e.g] + [V_.truthy(r.spec("W.finalized"))]
            hit = [x for x in cs if implied(gs, guard(x))]
            c.ob(bool(hit), where(e), "the shares of the new destination are taken over" + ("" if hit else ": route_pref_update is %s" % ("called only under %s" % inl(V_.and_([g for g in cs[0].g if g not in set(e.g)])) if cs else "not called")), key="%s|taken" % q_)
            for x in hit[:1]:
                kw = dict(x.kw) if x.kw else {}
                w = x.args[0] if x.args else kw.get("weight")
                ok = w is None or V_.num(w) == 1 or w is mk("p", "weight")
                c.ob(ok, where(x), "the shares of the new destination replace the old ones completely" + ("" if ok else ", found weight %s" % inl(w)), key="%s|weight" % q_)
                late = [y for y in r.calls("route_next_link_choice") if y.recv is v and e.seq < y.seq < x.seq]
                c.ob(not late, where(x), "the shares are taken over before the next link is chosen", key="%s|order" % q_)
    c.floor(n, 2, "changes of the destination")


@rule("P13", "R7", "the search uses tolls of the current time")
def r7(c):
    r = R(c, "py", "World.exec_simulation")
    n = 0
    for e in r.calls("route_search_all"):
        n += 1
        t = e.args[0] if e.args else dict(e.kw).get("t")
        T = mk("elem", e.loops[0]) if e.loops else r.spec("W.T")
        ok = t is not None and same(t, V_.mul(T, r.spec("W.DELTAT")))
        c.ob(ok, where(e), "the search gets the time of the current step" + ("" if ok else ", found %s" % (inl(t) if t is not None else "none")), key="py|time")
    c.floor(n, 1, "route searches")
    r = run("py", "RouteChoice.route_search_all")
    c.used(r)
    for e in r.calls("get_toll"):
        c.ob(bool(e.args) and e.args[0] is mk("p", "t"), where(e), "tolls are asked for the time of the search", key="py|toll")
    # when the shares move
    for lang, q_, search, duo, grad in (("py", "World.exec_simulation", "route_search_all", ("homogeneous_DUO_update",), ("homogeneous_DUO_update",)), ("cpp", "World.exec_simulation", "route_search_all", ("route_choice_duo",), ("route_choice_duo_gradual",))):
        r = R(c, lang, q_)
        flag = V_.truthy(r.spec("W.route_choice_update_gradual"))
        se = list(r.calls(search))
        up = []
        for e in r.calls(*(duo + grad)):
            on = [g for g in rel_guards(e)]
            if not contradict(on + [flag]) and e.name.split(".")[-1].split("::")[-1] in grad:
                rest = [x for x in on if not implied([flag], x)]
                c.ob(not rest, where(e), "with gradual updates the shares move in every step" + ("" if not rest else ", but only if %s" % inl(V_.and_(rest))), key="%s|every step" % lang)
            if not contradict(on + [V_.not_(flag)]) and e.name.split(".")[-1].split("::")[-1] in duo:
                ok = any(implied(on + [V_.not_(flag)], V_.and_(rel_guards(x))) for x in se)
                c.ob(ok, where(e), "without gradual updates the shares move with each search", key="%s|with search" % lang)
            up.append(e)
        c.ob(any(not contradict(rel_guards(e) + [flag]) for e in up) and any(not contradict(rel_guards(e) + [V_.not_(flag)]) for e in up), head(r), "the shares are updated in both modes", key="%s|both modes" % lang)
        for e in se:
            on = rel_guards(e)
            per = [r.spec("%s %% W.DELTAT_ROUTE == 0" % t, T=mk("elem", e.loops[0]) if e.loops else r.spec("W.T")) for t in ("T", "W.T")] if lang == "py" else [r.spec("T % W.timestep_for_route_update == 0", T=mk("elem", e.loops[0]) if e.loops else r.spec("W.T"))]
            rest = [x for x in on if not implied(per[:1], x) and not implied([flag], x) and not implied([V_.not_(flag)], x) and "timestep_for_route_update" not in V_.show(x)]
            c.ob(not rest, where(e), "a search takes place in every update step" + ("" if not rest else ", found the condition %s" % inl(V_.and_(rest))), key="%s|search" % lang)


@rule("P13", "R8", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P13"), 1, "properties of the elements of the C++ mode")
