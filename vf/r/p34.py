"""Route enumeration: network, search arguments, number of routes, distinctness, links of a path, cost of a route."""
from .common import *
from .p28 import route_queries
from ..project import AnchorMissing

U = ("enumerate_k_shortest_routes", "enumerate_k_shortest_routes_on_t")
NX_PATHS = ("shortest_simple_paths", "all_pairs_dijkstra_path", "all_pairs_shortest_path", "all_shortest_paths", "all_simple_paths")


def tail(n):
    return str(n).split(".")[-1].split("::")[-1]


def attr_of(v, names=("start_node", "end_node")):
    """[(attr, base)] of the first start_node/end_node in a chain"""
    while v.kind in ("a", "i"):
        if v.kind == "a" and v.a[1] in names:
            return v.a[1], v.a[0]
        v = v.a[0]
    return None


def pnames(v):
    return {x.a[0] for x in V_.walk(v) if x.kind == "p" and isinstance(x.a[0], str)}


def endpoints(c, e, a, b, what, key):
    """(a, b) are the start and the end of one link"""
    x, y = attr_of(a), attr_of(b)
    ok = None
    if x and y:
        ok = x[0] == "start_node" and y[0] == "end_node" and x[1] is y[1]
    c.ob(ok, where(e), what + ("" if ok is not False else ": (%s, %s)" % (V_.show(a)[:80], V_.show(b)[:80])), key=key)
    return x[1] if ok else None


def subterms(v, pred):
    return [x for x in V_.walk(v) if pred(x)]


def appends(r):
    return [e for e in r.events if e.kind == "mut" and e.name in ("append", "push_back", "emplace_back")]


def parents(v, t):
    """terms of v that have t as a direct argument"""
    out = []
    for x in V_.walk(v):
        for a in x.a:
            if a is t or (isinstance(a, tuple) and any(b is t or (isinstance(b, tuple) and any(z is t for z in b)) for b in a)):
                out.append(x)
                break
    return out


def all_terms(r):
    for e in r.events:
        for x in [e.value, e.loc] + list(e.args or []) + [b for _, b in (dict(e.kw).items() if e.kw else [])]:
            if isinstance(x, V):
                yield x
    if isinstance(r.r.ret, V):
        yield r.r.ret


def is_full(v):
    return v is NONE or v is None


def slice_of(v):
    """(container, lo, hi) of a slice term"""
    if v.kind == "i" and isinstance(v.a[1], V) and v.a[1].kind in ("slice",):
        s = v.a[1]
        return v.a[0], s.a[0], s.a[1]
    if v.kind == "i" and isinstance(v.a[1], V) and v.a[1].kind == "call" and v.a[1].a[0] == "slice":
        s = v.a[1].a[1]
        return v.a[0], s[0], s[1] if len(s) > 1 else NONE
    return None


def network(c, r, keyname, wantcost):
    """edges of the search network and the link each edge stands for"""
    edges = [e for e in r.events if e.kind == "call" and tail(e.name) in ("add_edge", "add_weighted_edges_from")]
    c.floor(len(edges), 1, "edges of the network in %s" % r.qual)
    wk = None
    link = None
    for e in edges:
        if len(e.args) < 2:
            c.ob(None, where(e), "edge of the network", key="%s|edge" % r.qual)
            continue
        link = endpoints(c, e, e.args[0], e.args[1], "an edge of the network runs from the start to the end of its link", "%s|edge" % r.qual)
        kw = dict(e.kw or {})
        if len(kw) == 1:
            wk, w = list(kw.items())[0]
            ok, msg = wantcost(r, w, link)
            c.ob(ok, where(e), msg + ("" if ok is not False else ": found " + V_.show(w)[:200]), key="%s|weight" % r.qual)
    calls = [e for e in r.events if e.kind == "call" and tail(e.name) in NX_PATHS]
    c.floor(len(calls), 1, "path searches in %s" % r.qual)
    # the link of an edge
    sets = []
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[1].kind == "tuple" and len(e.loc.a[1].a[0]) == 2:
            k = e.loc.a[1].a[0]
            if attr_of(k[0]) and attr_of(k[1]):
                sets.append(e)
    for e in sets:
        k = e.loc.a[1].a[0]
        ln = endpoints(c, e, k[0], k[1], "the link of an edge is found under the nodes it connects", "%s|map key" % r.qual)
        if ln is not None:
            ok = True if e.value in (mk("a", ln, "name"), ln) else (False if e.value.kind == "a" else None)
            c.ob(ok, where(e), "the entry of an edge is the name of its link", key="%s|map value" % r.qual)
            same_ = [x for x in edges if len(x.args) > 1 and same(x.args[0], k[0]) and same(x.args[1], k[1])]
            if same_:
                okg = any(same_guard(e, x) for x in same_)
                c.ob(okg, where(e), "the link of an edge is the link its weight was taken from" + ("" if okg else ": the edge and its link are set under different conditions"), key="%s|map guard" % r.qual)
                # parallel links: unguarded means the last link of the list replaces cheaper ones
                g = [x for x in e.g if any(y.kind == "in" or "in(" in V_.show(y)[:0] or y is e.loc.a[1] for y in V_.walk(x))]
                okp = bool(g)
                c.ob(okp, where(e), "of parallel links the cheapest one is used" + ("" if okp else ": every link replaces the previous one"), key="%s|parallel" % r.qual)
                if okp:
                    okp = cheaper(e, edges, k)
                    c.ob(okp, where(e), "a link replaces a parallel one only if it is cheaper", key="%s|cheaper" % r.qual)
    return wk, calls, sets


def cheaper(e, edges, k):
    """the guard is (no entry) or (cost < entry)"""
    kw = [dict(x.kw) for x in edges if x.kw]
    if not kw or len(kw[0]) != 1:
        return None
    w = list(kw[0].values())[0]
    gs = [x for x in e.g if any(y is e.loc.a[1] or y.kind == "in" for y in V_.walk(x)) or any(y is k[0] for y in V_.walk(x))]
    if not gs:
        return None
    g = V_.and_(gs)
    old = {x for x in V_.walk(g) if x.kind == "i" and any(y is k[1] for y in V_.walk(x)) and not any(y.kind == "call" and y.a[0] == "tuple" for y in [x]) and x.a[1].kind in ("s", "const", "c", "str")}
    if len(old) != 1:
        old = {x for x in V_.walk(g) if x.kind == "i" and V_.cval(x.a[1]) is not None and isinstance(V_.cval(x.a[1]), str)}
    if len(old) != 1:
        return None
    o = old.pop()
    W, O = mk("p", "__new"), mk("p", "__old")

    def at(present, x):
        def f(y):
            if y is o:
                return O
            if y is w:
                return W
            if y.kind == "in":
                return TRUE if present else FALSE
            return None
        y = V_.subst(g, f)
        return y
    # as the weight may be a polynomial, its difference to the old weight is replaced as a whole
    d = V_.sub(w, o)
    n = {}
    for present in (False, True):
        for sgn in (-1, 1):
            def f(y, present=present, sgn=sgn):
                if y.kind == "in":
                    return TRUE if present else FALSE
                if y.kind in ("le", "lt", "eq") or y.kind in ("le0", "lt0", "eq0"):
                    p = y.a[0]
                    if isinstance(p, V) and any(z is o for z in V_.walk(p)):
                        for s in (1, -1):
                            if V_.is_zero(V_.sub(p, V_.mul(const(s), d))):
                                val = s * sgn
                                if y.kind.startswith("lt") or y.kind.startswith("le"):
                                    return TRUE if val < 0 else FALSE
                                return FALSE
                return None
            n[present, sgn] = V_.subst(g, f)
    if any(v not in (TRUE, FALSE) for v in n.values()):
        return None
    return n[False, -1] is TRUE and n[False, 1] is TRUE and n[True, -1] is TRUE and n[True, 1] is FALSE


def first_pass(r, v):
    """value in the first pass of the loops"""
    for (_, lv), w in r.ev.looprec.items():
        if isinstance(w[0], V) and V_.is_const(w[0]):
            v = V_.subst(v, lambda x, lv=lv, i=w[0]: i if x is lv else None)
    return v


def sidx(v, hop):
    """offset of an index of a path: (path, offset from loop index) or from the zip of two slices"""
    if v.kind == "elem" and len(v.a) == 1:
        s = slice_of(v.a[0])
        if s:
            return s
    return None


def hops(c, r, reads, what):
    """every use of the link map is with consecutive nodes of the path, over the whole path"""
    for t, wh in reads:
        a, b = t.a[1].a[0]
        ok, msg = consecutive(a, b)
        c.ob(ok, wh, what + ("" if ok is not False else ": " + msg), key="%s|hops" % r.qual)


def full_range(rg, path):
    """range(0, len(path)-1)?"""
    if rg.kind == "range":
        a = list(rg.a)
    elif rg.kind == "call" and rg.a[0] == "range":
        a = list(rg.a[1])
    else:
        return None
    if len(a) == 1:
        lo, hi = ZERO, a[0]
    else:
        lo, hi = a[0], a[1]
    ln = subterms(hi, lambda x: x.kind == "len" or (x.kind == "call" and x.a[0] == "len"))
    if not ln:
        return None
    d = V_.sub(hi, ln[0])
    return lo, d


def consecutive(a, b):
    x, y = sidx(a, 0), sidx(b, 0)
    if x and y:
        (pa, la, ha), (pb, lb, hb) = x, y
        if pa is not pb:
            return None, ""
        la = ZERO if is_full(la) else la
        lb = ZERO if is_full(lb) else lb
        ok = V_.num(la) == 0 and V_.num(lb) == 1 and (is_full(hb)) and (is_full(ha) or V_.num(ha) == -1)
        return ok, "the nodes are taken from [%s:%s] and [%s:%s] of the path" % (V_.show(la), V_.show(ha) if ha else "", V_.show(lb), V_.show(hb) if hb else "")
    # one of them the whole path (zip stops at the shorter)
    if a.kind == "elem" and y and y[0] is a.a[0]:
        lb = ZERO if is_full(y[1]) else y[1]
        return V_.num(lb) == 1 and is_full(y[2]), "pairs of the path start at offset %s" % V_.show(lb)
    if x and b.kind == "elem" and x[0] is b.a[0]:
        return False, "the nodes of a hop are taken in reverse order or twice the same"
    if a.kind == "i" and b.kind == "i" and a.a[0] is b.a[0]:
        d = V_.sub(b.a[1], a.a[1])
        if V_.num(d) is None:
            return None, ""
        if V_.num(d) != 1:
            return False, "a hop connects node i of the path with node i%+d" % V_.num(d)
        es = subterms(a.a[1], lambda z: z.kind == "elem" and (z.a[0].kind == "range" or z.a[0].kind == "call" and z.a[0].a[0] == "range"))
        if len(es) == 1:
            fr = full_range(es[0].a[0], a.a[0])
            if fr:
                off = V_.sub(a.a[1], es[0])
                lo, d = V_.add(fr[0], off), V_.add(fr[1], off)
                if V_.num(lo) is None or V_.num(d) is None:
                    return None, ""
                return V_.num(lo) == 0 and V_.num(d) == -1, "hops run from node %s to node len(path)%+d" % (V_.show(lo), V_.num(d))
        return None, ""
    return None, ""


def map_reads(r, sets):
    """uses of a local dictionary keyed with pairs of nodes of a path"""
    keys = {e.loc.a[1] for e in sets}
    out = []
    seen = set()

    def scan(v, wh):
        for x in V_.walk(v):
            if x.kind == "i" and x.a[1].kind == "tuple" and len(x.a[1].a[0]) == 2 and x.a[1] not in keys and x not in seen:
                k = x.a[1].a[0]
                if x.a[0].kind in ("rec", "lv", "dict", "keyset", "comp", "call", "new"):
                    if all(not attr_of(y) for y in k):
                        seen.add(x)
                        out.append((x, wh))
    for e in r.events:
        for x in [e.value] + list(e.args or []):
            if isinstance(x, V):
                scan(x, where(e))
    if isinstance(r.r.ret, V):
        scan(r.r.ret, head(r))
    return out


# ------------------------------------------------------------- k shortest routes
@rule("P34", "R1", "k shortest routes: network of the costs, search from source to target, at most k, links between consecutive nodes")
def r1(c):
    for f in U:
        r = run("py", f)
        c.used(r)
        ps = [p[0] if isinstance(p, (tuple, list)) else p for p in r.func.params]
        if not {"source", "target", "k", "cost_function"} <= set(ps):
            raise AnchorMissing("parameters of %s" % f)

        def wantcost(r, w, link):
            cs = subterms(w, lambda x: x.kind == "call" or x.kind == "mcall")
            top = w if w in cs else None
            if link is None:
                return None, "weight of an edge"
            if top is None:
                return (None if cs or opaque_in(w) else False), "the weight of an edge is the cost of its link"
            args = [a for a in top.a if isinstance(a, tuple)]
            args = list(args[0]) if args else []
            # cost of this link (at the given time)
            has_l = any(a is link for a in args)
            if not args:
                return None, "the weight of an edge is the cost of its link"
            has_t = "t" not in ps or any(a.kind == "p" and a.a[0] == "t" for a in args)
            return has_l and has_t, "the weight of an edge is the cost of its link" + (" at the given time" if "t" in ps else "")
        wk, calls, sets = network(c, r, "weight", wantcost)
        for e in calls:
            args = list(e.args)
            if len(args) >= 3:
                ok = True
                for a, p in ((args[1], "source"), (args[2], "target")):
                    n = pnames(a) & {"source", "target"}
                    ok = (None if ok is not False else False) if not n else (ok if n == {p} else False)
                c.ob(ok, where(e), "the search runs from source to target" + ("" if ok is not False else ": from %s to %s" % (V_.show(args[1])[:60], V_.show(args[2])[:60])), key="%s|search" % f)
            if wk is not None:
                kw = dict(e.kw or {})
                g = kw.get("weight")
                g = args[3] if g is None and len(args) > 3 else g
                ok = False if g is None else (V_.cval(g) == wk if V_.is_const(g) else None)
                c.ob(ok, where(e), "the search uses the weights of the edges", key="%s|search weight" % f)
        # number of routes
        nb = 0
        done = set()
        for t in all_terms(r):
            for x in V_.walk(t):
                if x.kind == "call" and tail(x.a[0]) == "shortest_simple_paths" or x.kind == "mcall" and "shortest_simple_paths" in str(x.a[1:2]):
                    if x in done:
                        continue
                    done.add(x)
                    nb += 1
                    cur = x
                    ok, msg = None, ""
                    while True:
                        pp = list(dict.fromkeys(parents(t, cur)))
                        if not pp:
                            break
                        s = [slice_of(y) for y in pp if slice_of(y) and slice_of(y)[0] is cur]
                        if s:
                            lo, hi = s[0][1], s[0][2]
                            kk = mk("p", "k")
                            lo0 = is_full(lo) or V_.num(lo) == 0
                            hk = [z for z in V_.walk(hi) if z.kind == "p" and z.a[0] == "k"] if isinstance(hi, V) else []
                            if not lo0 and V_.num(lo) is not None:
                                ok, msg = False, "the shortest ones are skipped"
                            elif lo0 and len(s) == len(pp):
                                ok = bool(hk) and V_.is_zero(V_.sub(hi, hk[0]))
                                msg = "slice [%s:%s]" % ("" if is_full(lo) else V_.show(lo), "" if is_full(hi) else V_.show(hi))
                            break
                        isl = [y for y in pp if y.kind == "call" and tail(y.a[0]) == "islice"]
                        if isl:
                            a = isl[0].a[1]
                            ok = (len(a) == 2 and a[1].kind == "p" and a[1].a[0] == "k") or (len(a) == 3 and V_.num(a[1]) == 0 and a[2].kind == "p" and a[2].a[0] == "k")
                            msg = V_.show(isl[0])[:80]
                            break
                        if len(pp) == 1 and pp[0].kind == "call" and tail(pp[0].a[0]) in ("list", "tuple", "iter"):
                            cur = pp[0]
                            continue
                        # passed on unbounded to the result?
                        if all(y.kind in ("comp", "elem") for y in pp):
                            guards = [g for e in appends(r) for g in e.g if any(z.kind == "p" and z.a[0] == "k" for z in V_.walk(g))]
                            cut = any(slice_of(y) and isinstance(slice_of(y)[2], V) and "k" in pnames(slice_of(y)[2]) for y in V_.walk(r.r.ret) if y.kind == "i") or guards or any(w[2] is not FALSE and isinstance(w[2], V) and any(z.kind == "p" and z.a[0] == "k" for z in V_.walk(w[2])) for w in r.ev.looprec.values())
                            ok = None if cut else False
                            msg = "all simple paths are taken"
                        break
                    c.ob(ok, head(r), "at most k routes are taken" + ("" if ok is not False else ": " + msg), key="%s|at most k" % f)
        c.floor(nb, 1, "uses of the simple paths in %s" % f)
        reads = map_reads(r, sets)
        hops(c, r, reads, "a route has the link of every hop of the path")
        if not reads and sets:
            c.ob(None, head(r), "links of a path", key="%s|hops" % r.qual)
        if not sets:
            nomap(c, r)
        # costs over the same path
        for t in all_terms(r):
            for x in V_.walk(t):
                if x.kind == "sum" or (x.kind == "call" and x.a[0] == "sum"):
                    for y in V_.walk(x):
                        if y.kind == "i" and y.a[0].kind == "i" and y.a[0].a[0].kind == "i" and wk is not None and V_.is_const(y.a[1]) and V_.cval(y.a[1]) == wk:
                            a, b = y.a[0].a[0].a[1], y.a[0].a[1]
                            if attr_of(a) or attr_of(b):
                                continue
                            ok, msg = consecutive(a, b)
                            c.ob(ok, head(r), "the cost of a route adds up the hops of its path" + ("" if ok is not False else ": " + msg), key="%s|cost hops" % f)
        # routes first, costs second
        rets = [x for x in leaves_(r.r.ret) if x.kind == "tuple" and len(x.a[0]) == 2]
        for x in rets:
            a, b = x.a[0]
            num = [has_sum(y) for y in (a, b)]
            ok = None if num[0] == num[1] else (num[1] and not num[0])
            c.ob(ok, head(r), "the routes are returned with their costs", key="%s|return" % f)


def has_sum(v):
    """the elements of the collection are sums"""
    if v.kind == "comp":
        e = v.a[1]
        return e.kind == "sum" or (e.kind == "call" and e.a[0] == "sum") or (e.kind not in ("comp", "list") and any(x.kind == "sum" for x in V_.walk(e)))
    return False


def leaves_(v):
    return leaves_(v.a[1]) + leaves_(v.a[2]) if isinstance(v, V) and v.kind == "ite" else [v]


def nomap(c, r):
    """links of a hop searched in the list of links: the search has to stop at the first match"""
    n = 0
    for e in appends(r):
        if not e.args:
            continue
        v = e.args[0]
        ls = subterms(v, lambda x: x.kind == "elem" and "LINKS" in V_.show(x)[:60])
        if v.kind == "a" and v.a[1] == "name" and ls:
            n += 1
            eqs = [x for g in e.g for x in V_.conj(g) if any(y is ls[0] for y in V_.walk(x))]
            sides = set()
            for x in eqs:
                for y in V_.walk(x):
                    z = attr_of(y) if y.kind == "a" else None
                    if z:
                        sides.add(z[0])
            c.ob(None if sides == {"start_node", "end_node"} else False, where(e), "a route has the link of every hop of the path", key="%s|hops" % r.qual)
            # all matching links are appended: parallel links would form an invalid route
            br = [w for k, w in r.ev.looprec.items() if w[2] is not FALSE]
            c.ob(False if not br else None, where(e), "a hop of a path contributes exactly one link" + ("" if br else ": every parallel link is appended"), key="%s|one link" % r.qual)
    if not n:
        c.ob(None, head(r), "links of a path", key="%s|hops" % r.qual)


# ------------------------------------------------------------- random routes, Python engine
@rule("P34", "R2", "random routes (Python): stored under their origin and destination, fewer than k, distinct, links of consecutive nodes")
def r2(c):
    f = "enumerate_k_random_routes"
    r = run("py", f)
    c.used(r)

    def wantcost(r, w, link):
        if link is None:
            return None, "weight of an edge"
        # first iteration: free flow travel time
        y = first_pass(r, w)
        want = V_.div(mk("a", link, "length"), mk("a", link, "u"))
        if any(x.kind == "lv" for x in V_.walk(y)):
            return None, "the first search uses the free flow travel times"
        if any(x.kind == "rnd" for x in V_.walk(y)):
            return False, "the first search uses the free flow travel times"
        ok = decide(y, want)
        return ok, "the first search uses the free flow travel times"
    wk, calls, sets = network(c, r, "weight", wantcost)
    for e in calls:
        kw = dict(e.kw or {})
        g = kw.get("weight")
        ok = (g is None and wk == "weight") or (g is not None and (V_.cval(g) == wk if V_.is_const(g) else None))
        if tail(e.name) == "all_pairs_shortest_path":
            ok = False
        c.ob(ok, where(e), "the search uses the weights of the edges", key="%s|search weight" % f)
    hops(c, r, map_reads(r, sets), "a route has the link of every hop of the path")
    if not sets:
        nomap(c, r)
    n = 0
    for e in appends(r):
        loc = e.loc
        base = e.loc if e.loc.kind == "i" else e.value
        cand = [x for x in (e.loc, e.value) if isinstance(x, V) and x.kind == "i" and x.a[1].kind == "tuple" and len(x.a[1].a[0]) == 2]
        if not cand or not e.args:
            continue
        n += 1
        store = cand[0]
        path = e.args[0]
        bound_and_distinct(c, r, e, store, path, mk("p", "k"))
        # key: origin and destination of the path
        o, d = store.a[1].a[0]
        ok = pair_of_search(o, d)
        c.ob(ok, where(e), "a route is stored under the origin and the destination it was searched for", key="%s|key" % f)
        ok = pair_of_path(path, o, d)
        c.ob(ok, where(e), "the stored route is the one found for this origin and destination", key="%s|path" % f)
    c.floor(n, 1, "stored routes in %s" % f)
    # C++ result handed on unchanged
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and any(x.kind == "call" and "enumerate_k_random_routes_cpp" in str(x.a[0]) or x.kind == "mcall" for x in V_.walk(e.loc.a[1])):
            ok = "enumerate_k_random_routes_cpp" in V_.show(e.value)
            c.ob(True if ok else None, where(e), "the routes of the C++ engine are handed on under their key", key="%s|cpp result" % f)
    for e in r.calls("enumerate_k_random_routes_cpp"):
        a = list(e.args) + [dict(e.kw or {}).get("k")]
        ok = bool(a) and isinstance(a[0], V) and a[0].kind == "p" and a[0].a[0] == "k" or (isinstance(a[-1], V) and a[-1].kind == "p" and a[-1].a[0] == "k")
        c.ob(ok, where(e), "the requested number is handed to the C++ engine", key="%s|cpp k" % f)


def is_search(v):
    while v.kind == "call" and v.a[0] in ("dict", "list", "sorted") and v.a[1]:
        v = v.a[1][0]
    return v.kind == "call" and tail(v.a[0]) in NX_PATHS or v.kind == "mcall" and any(n in V_.show(v)[:200] for n in NX_PATHS)


def src_of(o):
    """(paths) if o is a key of the search result"""
    return o.a[0] if o.kind == "elem" and is_search(o.a[0]) else None


def dst_of(d):
    """(paths, source or None) if d is a key of the paths from one source"""
    if d.kind != "elem":
        return None
    x = d.a[0]
    if x.kind == "elem" and x.a[0].kind == "values" and is_search(x.a[0].a[0]):
        return x.a[0].a[0], None
    if x.kind == "i" and is_search(x.a[0]):
        return x.a[0], x.a[1]
    return None


def pair_of_search(o, d):
    so, sd = src_of(o), dst_of(d)
    if so is not None and sd is not None:
        return so is sd[0]
    if src_of(d) is not None and dst_of(o) is not None:
        return False
    return None


def pair_of_path(path, o, d):
    """the path is paths[o][d]"""
    if src_of(o) is None or dst_of(d) is None:
        return None
    for x in V_.walk(path):
        if x.kind == "elem" and x.a[0].kind == "values" and x.a[0].a[0] is d.a[0]:
            return True
        if x.kind == "i" and x.a[1] is d and (x.a[0] is d.a[0] or x.a[0].kind == "i" and x.a[0].a[1] is o):
            return True
        if x.kind == "i" and x.a[1] is o and x.a[0].kind == "i" and x.a[0].a[1] is d:
            return False
    return None


def bound_and_distinct(c, r, e, store, path, k):
    """the append happens only while fewer than k routes are stored and only for a new route"""
    gs = list(e.g)
    ks = [x for g in gs for x in V_.conj(g) if any(y.kind == "p" and y.a[0] == "k" for y in V_.walk(x))]
    ok = None
    why = ""
    if not ks:
        ok = False
        why = ": the number of stored routes is not compared with k"
    else:
        for x in ks:
            lens = [y for y in V_.walk(x) if (y.kind == "len" or y.kind == "call" and y.a[0] in ("len", "size"))]
            if len(lens) != 1:
                continue
            kk = [y for y in V_.walk(x) if y.kind == "p" and y.a[0] == "k"][0]
            inner = lens[0].a[0] if lens[0].kind == "len" else lens[0].a[1][0]
            if not (inner is store or inner.kind == "i" and inner.a[1] is store.a[1]):
                why = ": compared with k is " + V_.show(inner)[:100]
                ok = False
                continue
            v = {}
            for m in (0, 1, 2, 3, 4):
                y = V_.subst(x, lambda z: const(m) if z is lens[0] else (const(2) if z is kk else None))
                v[m] = y
            if any(y not in (TRUE, FALSE) for y in v.values()):
                continue
            got = [m for m in v if v[m] is TRUE]
            ok = got == [0, 1]
            why = "" if ok else ": with k = 2 a route is added to %s stored ones" % got
            break
    c.ob(ok, where(e), "a route is added only while fewer than k are stored" + why, key="%s|bound" % r.qual)
    # distinct
    ok = None
    sure = False
    for g in gs:
        for x in V_.conj(g):
            y = x.a[0] if x.kind == "not" else None
            if y is None:
                continue
            z = V_.cval(y) if V_.is_const(y) else y
            if isinstance(y, V) and y.kind == "in" and same(y.a[0], path) and (y.a[1] is store or y.a[1].kind == "i" and y.a[1].a[1] is store.a[1]):
                ok = True
            elif isinstance(y, V) and y.kind == "in" and y.a[1].kind == "i" and y.a[1].a[1] is not store.a[1] and same(y.a[0], path):
                ok = False
    found = [dup_search(x, store, path) for g in gs for x in V_.conj(g)]
    if ok is None:
        if True in found:
            ok = True
        elif False in found:
            ok = False
        else:
            own = set(V_.walk(path))
            other = [y for g in gs for y in V_.walk(g) if y not in own and y.kind in ("in", "search", "any", "all", "exists", "mcall", "comp", "rec", "lv", "rnd") and any(z is store for z in V_.walk(y))]
            ok = None if other or None in found else False
    c.ob(ok, where(e), "only a route that is not yet stored is added", key="%s|distinct" % r.qual)


def only_len(v, el):
    """el occurs in v only as len(el)"""
    y = V_.subst(v, lambda x: ONE if (x.kind == "len" and x.a[0] is el or x.kind == "call" and x.a[0] in ("len", "size") and x.a[1] and x.a[1][0] is el) else None)
    return not any(z is el for z in V_.walk(y))


def dup_search(x, store, path):
    """the guard says: no stored route equals the path (True), the opposite (False), nothing about it ("")"""
    pos = x
    neg = False
    while pos.kind in ("not", "truthy"):
        neg = neg != (pos.kind == "not")
        pos = pos.a[0]
    if pos.kind != "search" or len(pos.a) < 4:
        return ""
    val, cnd, cont, dflt = pos.a[:4]
    el = [z for z in V_.walk(cnd) if z.kind == "elem" and (z.a[0] is store or z.a[0].kind == "i" and z.a[0].a[1] is store.a[1])]
    if not el:
        return ""
    if not (V_.is_const(val) and V_.is_const(dflt)):
        return None
    if cnd not in (V_.eq(path, el[0]), V_.eq(el[0], path)):
        if only_len(cnd, el[0]):
            return False
        return False if cnd.kind == "not" and cnd.a[0] in (V_.eq(path, el[0]), V_.eq(el[0], path)) else None
    v, d = bool(V_.cval(val)), bool(V_.cval(dflt))
    if v == d:
        return False
    # appended when nothing was found
    return (d if not neg else not d) and not (v if not neg else not v)


# ------------------------------------------------------------- random routes, C++ engine
def loopvar_records(r, lv):
    return [(k, w) for k, w in r.ev.looprec.items() if k[1] is lv]


@rule("P34", "R3", "random routes (C++): links along the next hops from origin to destination, fewer than k, distinct")
def r3(c):
    q = "World.enumerate_k_random_routes_cpp"
    r = run("cpp", q)
    c.used(r)
    stores = []
    hopap = []
    for e in appends(r):
        cand = [x for x in (e.loc, e.value) if isinstance(x, V) and x.kind == "i" and x.a[1].kind == "tuple" and len(x.a[1].a[0]) == 2]
        if cand and e.args:
            stores.append((e, cand[0]))
        elif e.args:
            hopap.append(e)
    c.floor(len(stores), 1, "stored routes in %s" % q)
    edge = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "i" and attr_of(e.loc.a[1]) and attr_of(e.loc.a[0].a[1])]
    c.floor(len(edge), 1, "network and link map of %s" % q)
    if len(edge) == 1:   # (a network built in another way would not set the map like this)
        isid = edge[0].value.kind == "a" and edge[0].value.a[1] == "id"
        c.ob(False if isid and not any(e.kind in ("set", "mut") and e is not edge[0] and e.loops and e.loops[:1] == edge[0].loops[:1] and e.loc is not None and "adj" in V_.show(e.loc)[:40] for e in r.events) else None, where(edge[0]), "the %s gets an entry for every link" % ("network" if isid else "link map"), key="%s|both" % q)
    adj, mp = [], []
    for e in edge:
        ln = endpoints(c, e, e.loc.a[0].a[1], e.loc.a[1], "an edge of the network runs from the start to the end of its link", "%s|edge" % q)
        if ln is None:
            continue
        if e.value is mk("a", ln, "id"):
            mp.append((e, ln))
        else:
            adj.append((e, ln))
            y = first_pass(r, e.value)
            want = V_.div(mk("a", ln, "length"), mk("a", ln, "vmax"))
            ok = None if any(x.kind == "lv" for x in V_.walk(y)) else (False if any("distribution" in V_.show(x)[:60] for x in V_.walk(y) if x.kind in ("call", "mcall", "rnd")) else decide(y, want))
            c.ob(ok, where(e), "the first search uses the free flow travel times" + ("" if ok is not False else ": " + V_.show(y)[:150]), key="%s|weight" % q)
    for e, ln in mp:
        ok = any(same_guard(e, x) for x, _ in adj) if adj else None
        c.ob(ok, where(e), "the link of an edge is the link its weight was taken from", key="%s|map guard" % q)
    # the map entry used for a hop
    for e in hopap:
        v = e.args[0]
        if not (v.kind == "i" and v.a[0].kind == "i"):
            c.ob(None, where(e), "links of a path", key="%s|hops" % q)
            continue
        cur, nxt = v.a[0].a[1], v.a[1]
        ismap = not mp or any(same(base2(v), base2(x.loc)) for x, _ in mp)
        c.ob(True if ismap else False, where(e), "a hop is translated with the link map", key="%s|hop map" % q)
        rec = loopvar_records(r, cur)
        if not rec:
            c.ob(None, where(e), "links of a path", key="%s|hops" % q)
            continue
        for _, w in rec[:1]:
            init, step = w[0], w[1]
            st = [x for x in leaves_(step) if x is not cur]
            ok = all(x is nxt for x in st) if st else False
            c.ob(ok, where(e), "the next hop starts where the previous one ends" + ("" if ok else ": continues at %s after a link to %s" % (V_.show(step)[:100], V_.show(nxt)[:100])), key="%s|hops" % q)
            for se, store in stores:
                o, d = store.a[1].a[0]
                c.ob(same(init, o), where(se), "a route starts at the origin it is stored under", key="%s|origin" % q)
                # next hop looked up for the destination
                okd = None
                if nxt.kind == "i" and nxt.a[0].kind == "i":
                    okd = nxt.a[1] is d and nxt.a[0].a[1] is cur
                c.ob(okd, where(se), "the next hop is the one towards the destination the route is stored under", key="%s|destination" % q)
                # the loop ends only at the destination
                g = [x for x in e.g if x in (V_.not_(V_.eq(cur, d)),) or (x.kind == "not" and same(x.a[0], V_.eq(cur, d)))]
                c.ob(True if g else None, where(e), "hops are added until the destination is reached", key="%s|until" % q)
    for e, store in stores:
        bound_and_distinct(c, r, e, store, e.args[0], mk("p", "k"))
        # the incomplete path is not stored
        path = e.args[0]
        brk = [w for k, w in r.ev.looprec.items() if k[1].a[0] == "path" and isinstance(w[2], V) and w[2] is not FALSE]
        if path.kind == "rec":
            own = set(V_.walk(path))
            about = [y for g in e.g for y in V_.walk(g) if y not in own and y.kind in ("search", "rec", "lv", "mcall", "rnd", "unk") and any(z.kind in ("while", "whileiter") for z in V_.walk(y))]
            dup = [y for g in e.g for y in V_.walk(g) if y.kind == "search" and any(z is store for z in V_.walk(y))]
            about = [y for y in about if y not in dup]
            ok = True if not brk or about else (None if any(y.kind in ("unk", "mcall") for g in e.g for y in V_.walk(g)) else False)
            for g in e.g:
                for y in V_.conj(g):
                    if y.kind in ("not",) and y.a[0].kind == "truthy" and y.a[0].a[0].kind == "search" and y.a[0].a[0] in about and y.a[0].a[0].a[0] is FALSE and y.a[0].a[0].a[3] is TRUE:
                        ok = False
            c.ob(ok, where(e), "a path that does not reach the destination is not stored", key="%s|valid" % q)


def base2(v):
    return v.a[0].a[0] if v.kind == "i" and v.a[0].kind == "i" else v


# ------------------------------------------------------------- conversions
def idx01(v):
    """which component of a key (0 origin, 1 destination) the term is made of"""
    out = set()
    for x in V_.walk(v):
        if x.kind == "i" and x.a[0].kind == "elem" and V_.num(x.a[1]) in (0, 1):
            out.add(int(V_.num(x.a[1])))
    return out


@rule("P34", "R4", "conversions between names and ids keep origin, destination and the links of every route in order")
def r4(c):
    m = P.py_mod("DTAsolvers/DTAsolvers_cpp_adapter.py")
    f = "_convert_od_routes_to_ids"
    r = run("py", f, project=m)
    c.used(r)
    ps = [p[0] for p in r.func.params]
    n = 0
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[1].kind == "tuple" and len(e.loc.a[1].a[0]) == 2:
            n += 1
            o, d = e.loc.a[1].a[0]
            a, b = idx01(o), idx01(d)
            ok = None if len(a) != 1 or len(b) != 1 else a == {0} and b == {1}
            c.ob(ok, where(e), "origin and destination keep their places", key=f + "|key")
            routes_kept(c, e, e.value, f, mk("p", ps[2]) if len(ps) > 2 else None)
            c.ob(not e.g or None, where(e), "every pair is converted", key=f + "|all")
    c.floor(n, 1, "converted pairs in " + f)
    f = "_build_od_name_dict_from_csr"
    r = run("py", f, project=m)
    c.used(r)
    n = 0
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[1].kind == "tuple" and len(e.loc.a[1].a[0]) == 2:
            n += 1
            ks = [[z for z in ("od_o", "od_d") if "'%s'" % z in V_.show(x)] for x in e.loc.a[1].a[0]]
            # the loop runs over the pairs: od_o may appear in the range
            first = [outer(x) for x in e.loc.a[1].a[0]]
            ok = None if None in first else first == ["od_o", "od_d"]
            c.ob(ok, where(e), "origin and destination keep their places", key=f + "|key")
            for want, lowhi in (("route_offsets", None), ("link_offsets", None)):
                bad = [x for x in V_.walk(e.value) if offsets_bad(x, want)]
                c.ob(not bad, where(e), "routes are cut at consecutive entries of %s" % want + ("" if not bad else ": " + V_.show(bad[0])[:200]), key=f + "|" + want)
    c.floor(n, 1, "converted pairs in " + f)
    r = run("cpp", "dta_enumerate_od_route_sets_ids", project=P.cpp_dta())
    c.used(r)
    n = 0
    for e in r.events:
        if e.kind == "call" and "enumerate_k_random_routes_cpp" in e.name:
            ok = len(e.args) == 2 and [a.a[0] if a.kind == "p" else None for a in e.args] == ["k", "seed"]
            c.ob(ok if all(a.kind == "p" for a in e.args) else None, where(e), "the requested number of routes is enumerated", key="od_route_sets|k")
        if e.kind == "call" and e.name in ("emplace", "insert", "insert_or_assign") and len(e.args) == 2:
            n += 1
            a, b = [V_.show(x) for x in e.args]
            ok = None
            x, y = e.args[0], e.args[1]
            while y.kind == "call" and y.a[0] in ("move", "std::move"):
                y = y.a[1][0]
            if x.kind == "i" and y.kind == "i" and x.a[0] is y.a[0]:
                ok = (V_.num(x.a[1]), V_.num(y.a[1])) == (0, 1)
            c.ob(ok, where(e), "the routes of a pair are stored under the pair", key="od_route_sets|key")
            c.ob(not e.g or None, where(e), "every pair is stored", key="od_route_sets|all")
    bindings(c)


def outer(v):
    """name of the array the entry is taken from: name[int(arr[..])] / elem(arr)"""
    while True:
        if v.kind == "call" and v.a[0] in ("int", "str") and v.a[1]:
            v = v.a[1][0]
        elif v.kind == "i" and v.a[0].kind == "p" and not V_.is_const(v.a[1]):
            v = v.a[1]
        elif v.kind == "elem":
            v = v.a[0]
        elif v.kind == "i" and V_.is_const(v.a[1]) and isinstance(V_.cval(v.a[1]), str):
            return V_.cval(v.a[1])
        elif v.kind == "i":
            v = v.a[0]
        else:
            return None


def offsets_bad(x, name):
    """a range / slice over two entries of the offset array that are not consecutive"""
    if x.kind == "range":
        a, b = x.a[0], x.a[1]
    elif x.kind == "slice":
        a, b = x.a[0], x.a[1]
    else:
        return False
    if not isinstance(a, V) or not isinstance(b, V):
        return False

    def entry(v):
        while v.kind == "call" and v.a[0] == "int" and v.a[1]:
            v = v.a[1][0]
        if v.kind == "i" and outer(v) == name:
            return v.a[1]
        return None
    i, j = entry(a), entry(b)
    if i is None and j is None:
        return False
    if i is None or j is None:
        return False
    return V_.num(V_.sub(j, i)) != 1


def routes_kept(c, e, v, f, table):
    """value = [[table[l] for l in route] for route in routes] without filter, slice or reversal"""
    bad = None
    for x in V_.walk(v):
        if x.kind == "comp" and x.a[3] is not TRUE:
            bad = "a condition skips elements"
        if x.kind == "call" and tail(x.a[0]) in ("reversed", "sorted", "set"):
            bad = "%s changes the order" % x.a[0]
        if slice_of(x):
            s = slice_of(x)
            if not (is_full(s[1]) or V_.num(s[1]) == 0) or not is_full(s[2]):
                bad = "only a part is converted"
    c.ob(bad is None, where(e), "every link of every route is converted in order" + ("" if bad is None else ": " + bad), key=f + "|routes")
    if table is not None:
        es = [x for x in V_.walk(v) if x.kind == "i" and x.a[0].kind == "p"]
        ok = None if not es else all(x.a[0] is table for x in es)
        c.ob(ok, where(e), "links are converted with the table of links", key=f + "|table")


def bindings(c):
    """the wrapper code between C++ and Python: first / second of the key keep their places"""
    from .. import binds
    from ..binds import tokens
    import os
    t = binds.table()
    path = os.path.join(P.REPO, "uxsim/trafficpp/bindings.cpp")
    n = 0
    for cls, name, make in (("World", "enumerate_k_random_routes_cpp", "make_tuple"), ("World", "make_od_route_set_store", "make_pair")):
        b = t.get(cls, {}).get(name)
        if b is None:
            raise AnchorMissing("binding %s.%s" % (cls, name))
        text = open(path, encoding="utf-8").read()
        src = text[b.src[0]:b.src[1]] if isinstance(b.src, tuple) else str(b.src)
        toks = [str(x[0]) for x in tokens(src)]
        where_ = "uxsim/trafficpp/bindings.cpp:%s (%s.%s)" % (b.line, cls, name)
        if make == "make_tuple" and "make_tuple" in toks:
            i = toks.index("make_tuple")
            j, d = i + 1, 0
            while j < len(toks):
                d += toks[j] == "("
                d -= toks[j] == ")"
                if d == 0:
                    break
                j += 1
            sel = [x for x in toks[i:j] if x in ("first", "second")]
            ok = sel == ["first", "second"] if len(sel) == 2 else None
            if len(sel) != 2:
                # structured binding of the key: names o, d
                ok = None
            n += 1
            c.ob(ok, where_, "origin and destination keep their places", key="bind|%s|key" % name)
        elif make == "make_pair":
            # variables cast from k[0], k[1]
            var = {}
            for i in range(len(toks) - 2):
                if toks[i] == "[" and toks[i + 1] in ("0", "1") and toks[i + 2] == "]":
                    k = i
                    while k > 0 and toks[k] != "=":
                        k -= 1
                    if k > 0:
                        var[toks[k - 1]] = int(toks[i + 1])
            if "make_pair" in toks and len(var) == 2:
                i = toks.index("make_pair")
                got = [var[x] for x in toks[i:i + 8] if x in var]
                n += 1
                c.ob(got == [0, 1] if len(got) == 2 else None, where_, "origin and destination keep their places", key="bind|%s|key" % name)
    if not n:
        c.ob(None, "uxsim/trafficpp/bindings.cpp", "keys of the route sets", key="bind|key")


# ------------------------------------------------------------- cost of a route
@rule("P34", "R5", "the cost of a route asks each link at the time of entering it")
def r5(c):
    route_queries(c, "P34")


@rule("P34", "R6", "a route consists of the given links in order, each starting where the previous one ends, and equals exactly the routes of the same links in this order")
def r6(c):
    for lang, cls in (("py", "Route"), ("wrap", "CppRoute")):
        q_ = cls + ".__init__"
        r = run(lang, q_)
        c.used(r)
        S, Lk = mk("p", "self"), mk("p", "links")
        n_links = mk("call", "len", (Lk,), ())
        trust = V_.truthy(mk("p", "trust_input"))
        rs = [e for e in r.raises() if e.loops]
        if not rs:
            c.ob(None if r.raises() else False, head(r), "a sequence of links that are not consecutive is refused", key="%s|consecutive" % cls)
        for e in rs:
            g = [x for x in e.g if not implied([V_.not_(trust)], x)]
            c.ob(consecutive6(g, e, Lk, n_links), where(e), "a sequence is refused exactly if a link does not start where the previous one ends; found condition %s" % inl(V_.and_(g)), key="%s|consecutive" % cls)
            c.ob(not implied(list(e.g), trust), where(e), "sequences that are not trusted are checked", key="%s|untrusted" % cls)
        # the links of the route
        f = mk("a", S, "links")
        app = [e for e in r.events if e.kind == "mut" and e.name in ("append",)]
        if app:
            for n in range(0, 5):
                got = seq_of(r, app, n, n_links, trust, rs)
                if got is None:
                    c.ob(None, head(r), "links of a route of %d links" % n, key="%s|links %d" % (cls, n))
                else:
                    c.ob(got == list(range(n)), head(r), "a route of %d links has these links in order%s" % (n, "" if got == list(range(n)) else ", found positions %s" % got), key="%s|links %d" % (cls, n))
        for e in r.fsets("links"):
            v = e.value
            if v.kind == "comp":
                ok = v.a[0] == "list" and v.a[2] is Lk and implied([], v.a[3] if len(v.a) > 3 else TRUE)
                c.ob(ok, where(e), "the route keeps the given links in order; found %s" % inl(v), key="%s|links" % cls)
        r = run(lang, cls + ".__eq__")
        c.used(r)
        o = mk("p", [x if isinstance(x, str) else x[0] for x in r.func.params][-1])
        vals = [y for st, v in r.r.returns for y in leaf_vals(v)]
        n = 0
        for v in vals:
            if V_.show(v) == "NotImplemented" or v in (TRUE, FALSE):
                continue
            n += 1
            if any(x.kind == "call" and x.a[0] == "len" for st, y in r.r.returns for z in [y] + list(st.g) for x in V_.walk(z)):
                c.ob(None, head(r), "two routes are equal exactly if they have the same links in the same order; found %s" % inl(v), key="%s|eq" % cls)
                continue
            c.ob(same_links(v, S, o), head(r), "two routes are equal exactly if they have the same links in the same order; found %s" % inl(v), key="%s|eq" % cls)
        c.floor(n, 1, "comparisons in %s.__eq__" % cls)


def leaf_vals(v):
    return leaf_vals(v.a[1]) + leaf_vals(v.a[2]) if v.kind == "ite" else [v]


def same_links(v, S, o):
    sides = None
    for x in [v] + list(V_.walk(v)):
        if x.kind == "eq" and len(x.a) == 2:
            sides = x.a
            break
    txt = V_.show(v)
    if sides is None:
        d = [x for x in V_.walk(v) if x.kind == "a" and x.a[1] in ("links_name", "links") and x.a[0] in (S, o)]
        if len({x.a[1] for x in d}) == 1 and len({id(x.a[0]) for x in d}) == 2 and V_.same(v, V_.eq(*[x for x in dict.fromkeys(d)][:2])) if hasattr(V_, "same") else len(d) >= 2 and same(v, V_.eq(*list(dict.fromkeys(d))[:2])):
            return True
        return None if any(x.kind == "and" for x in V_.walk(v)) else False
    a, b = sides
    sw = V_.subst(a, lambda y: o if y is S else (S if y is o else None))
    if not (sw is b or same(sw, b)):
        return None
    for x in V_.walk(a):
        if x.kind == "comp" and x.a[0] == "set" or x.kind == "call" and str(x.a[0]) in ("set", "frozenset", "sorted", "len", "Counter", "sum"):
            return False
    if "sorted" in txt or "frozenset" in txt:
        return False
    if not any(x.kind == "a" and x.a[1] in ("links", "links_name") for x in V_.walk(a)):
        return False
    return True if a.kind == "a" or a.kind == "comp" and a.a[0] in ("list", "tuple", "gen") and implied([], a.a[3] if len(a.a) > 3 else TRUE) else None


def index_terms(vs, Lk):
    """terms of the i-th and (i+1)-th link of the sequence: {term: index}"""
    out = {}
    for v in vs:
        for x in V_.walk(v):
            if x.kind == "i" and isinstance(x.a[1], V) and any(y.kind == "elem" for y in V_.walk(x.a[1])) and V_.contains_v(x.a[0], lambda y: y is Lk):
                out[x] = x.a[1]
    return out


def outer6(v, t):
    """the largest link term around an element of the sequence: the element itself or the lookup of it"""
    for x in V_.walk(v):
        if x.kind == "mcall" and x.a[1] == "get_link" and x.a[2] and x.a[2][0] is t:
            return x
    return t


def at_index(x, k, n, n_links):
    def f(y):
        if y.kind == "elem" and isinstance(y.a[0], V) and y.a[0].kind == "range":
            return V_.const(k)
        if y is n_links:
            return V_.const(n)
        return None
    return V_.num(V_.subst(x, f))


def rng_of(loops_v, n, n_links):
    """the values of the loop variable"""
    a = [V_.num(V_.subst(x, lambda y: V_.const(n) if y is n_links else None)) for x in loops_v.a]
    if any(x is None for x in a):
        return None
    return list(range(*[int(x) for x in a]))


def the_range(vs):
    rs = {y.a[0] for v in vs for y in V_.walk(v) if y.kind == "elem" and isinstance(y.a[0], V) and y.a[0].kind == "range"}
    return rs.pop() if len(rs) == 1 else None


def consecutive6(g, e, Lk, n_links):
    it = index_terms(g, Lk)
    R = the_range(g)
    if R is None or not it:
        return None
    for n in range(2, 6):
        ks = rng_of(R, n, n_links)
        if ks is None:
            return None
        pairs = set()
        for k in ks:
            ix = sorted({at_index(t, k, n, n_links) for t in it.values()}, key=str)
            if None in ix:
                return None
            pairs.add(tuple(int(x) for x in ix))
        if pairs != {(i, i + 1) for i in range(n - 1)}:
            return False
    order = sorted(it, key=lambda t: at_index(it[t], 0, 9, n_links))
    G = V_.and_(g)
    A, B = outer6(G, order[0]), outer6(G, order[-1])
    if A is B:
        return None
    for m in range(16):
        as_, ae, bs, be = [1 + ((m >> i) & 1) for i in range(4)]
        val = {(A, "start_node"): as_, (A, "end_node"): ae, (B, "start_node"): bs, (B, "end_node"): be}

        def f(y):
            if y.kind == "in":
                x, s = y.a
                a = [z for z in V_.walk(s) if z.kind == "a" and z.a[1] in ("outlinks", "inlinks")]
                if len(a) == 1 and a[0].a[0].kind == "a" and (a[0].a[0].a[0], a[0].a[0].a[1]) in val and (x in (A, B) or x.kind == "a" and x.a[1] == "name" and x.a[0] in (A, B)):
                    me = x if x in (A, B) else x.a[0]
                    return TRUE if val[(a[0].a[0].a[0], a[0].a[0].a[1])] == val[(me, "start_node" if a[0].a[1] == "outlinks" else "end_node")] else FALSE
            if y.kind == "a" and (y.a[0], y.a[1]) in val:
                return V_.const(val[(y.a[0], y.a[1])])
            return None
        t = V_.subst(G, f)
        if t not in (TRUE, FALSE):
            return None
        if (t is TRUE) != (ae != bs):
            return False
    return True


def seq_of(r, app, n, n_links, trust, rs):
    """positions of the appended links for a connected sequence of n links"""
    bad = {}
    for e in rs:
        for x in e.g:
            for y in V_.conj(x):
                bad[y] = FALSE
                bad[V_.not_(y)] = TRUE
    out = []

    def holds(e, k):
        for x in e.g:
            for y in V_.conj(x):
                if implied([V_.not_(trust)], y):
                    continue
                t = V_.subst(y, lambda z: V_.const(n) if z is n_links else None)
                if t is TRUE:
                    continue
                if t is FALSE:
                    return False
                if y in bad and e.loops:
                    if bad[y] is FALSE:
                        return False
                    continue
                if V_.contains_v(y, lambda z: z.kind == "in" or z.kind == "a" and z.a[1] in ("start_node", "end_node")):
                    continue
                return None
        return True

    def pos(e, k):
        v = e.args[0]
        ix = [x for x in V_.walk(v) if x.kind == "i"]
        if len(ix) != 1:
            return None
        return at_index(ix[0].a[1], k, n, n_links)
    i = 0
    app = sorted(app, key=lambda e: e.seq)
    while i < len(app):
        e = app[i]
        grp = [e]
        while e.loops and i + 1 < len(app) and app[i + 1].lids == e.lids:
            i += 1
            grp.append(app[i])
        i += 1
        if e.loops:
            R = the_range([x.args[0] for x in grp])
            ks = rng_of(R, n, n_links) if R is not None else None
            if ks is None:
                return None
        else:
            ks = [max(n - 2, 0)]
        for k in ks:
            for x in grp:
                h = holds(x, k)
                if h is None:
                    return None
                if h:
                    p = pos(x, k)
                    if p is None:
                        return None
                    out.append(int(p))
    return out
