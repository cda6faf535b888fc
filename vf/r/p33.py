"""Route swapping of the assignment solvers: cheaper alternatives only, with the swapping probability; otherwise the travelled route."""
import copy
from .common import *
from .. import bridge
from fractions import Fraction as F
from ..setmodel import Model, Undecided, Raises
from .p28 import route_queries
from ..project import AnchorMissing
from .. import binds

NI = ("dta_compute_route_cost_due", "dta_compute_route_cost_dso", "dta_get_traveled_route", "dta_get_actual_travel_time", "dta_get_toll")
SWAPS = (("py", "SolverDUE.solve", "due"), ("py", "SolverDSO_D2D.solve", "dso"), ("cpp", "dta_route_swap_due", "due"), ("cpp", "dta_route_swap_dso", "dso"))
_memo = {}


def tail(n):
    return str(n).split(".")[-1].split("::")[-1]


def swap(c, lang, q):
    if (lang, q) not in _memo:
        _memo[lang, q] = run("py", q, project=P.py_mod("DTAsolvers/DTAsolvers.py")) if lang == "py" else run("cpp", q, project=P.cpp_dta(), noinline=NI)
    r = _memo[lang, q]
    c.used(r)
    return r


def paths(v, g=()):
    if v.kind == "ite":
        yield from paths(v.a[1], g + tuple(V_.conj(v.a[0])))
        yield from paths(v.a[2], g + tuple(V_.conj(V_.not_(v.a[0]))))
    else:
        yield g, v


def loopvar(r, x):
    """(init, step) of a loop variable term; the loop that compares it where several loops carry it"""
    cand = [(k, w) for k, w in r.ev.looprec.items() if k[1] is x]
    for k, w in cand:
        if any(z[1] is x for g, _ in paths(w[1]) for z in compared(g)):
            return w[0], w[1]
    return (cand[0][1][0], cand[0][1][1]) if cand else None


def is_travelled(v):
    """term of the route a vehicle has travelled"""
    if v.kind == "i" and v.a[0].kind == "mcall" and tail(v.a[0].a[1]) == "traveled_route":
        return v.a[1] is ZERO
    if v.kind == "a" and v.a[1] == "link_ids" and v.a[0].kind == "mcall" and tail(v.a[0].a[1]) == "dta_get_traveled_route":
        return True
    return False


def first_entry(v):
    """term of the time at which the travelled route was begun"""
    if v.kind == "ite":
        return any(first_entry(x) for _, x in paths(v)) and all(first_entry(x) or (x.kind == "a" and x.a[1] == "departure_time") for _, x in paths(v))
    if v.kind == "i" and v.a[1] is ZERO:
        b = v.a[0]
        if b.kind == "i" and b.a[1] is ONE and b.a[0].kind == "mcall" and tail(b.a[0].a[1]) == "traveled_route":
            return True
        if b.kind == "a" and b.a[1] == "entry_times":
            return True
    return False


def specified(r):
    """set events on the routes of the next iteration"""
    out = []
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and any((x.kind == "a" and x.a[1] == "routes_specified") or (x.kind == "local" and x.a[0] == "routes_specified") for x in V_.walk(e.loc.a[0])):
            for g, v in paths(e.value):
                x = e
                if v is not e.value:
                    x = copy.copy(e)
                    x.value, x.g = v, tuple(e.g) + g
                out.append(x)
    return out


def ended(e):
    for g in e.g:
        for x in V_.conj(g):
            if x.kind == "eq" and any(y.kind == "a" and y.a[1] == "state" for y in x.a) and any(y.kind == "c" and y.a[0] in ("end", "vsEND") for y in x.a):
                return True
    return False


def travels(v):
    """the value is the travelled route of the vehicle, also when chosen by a recurrence that may leave it untouched"""
    return is_travelled(v)


def changing(r):
    """[(event, recurrence term)]: assignments of a route found by the search over the alternatives"""
    out = []
    for e in specified(r):
        recs = [x for x in V_.walk(e.value) if x.kind == "rec"]
        if recs:
            out.append((e, recs[0]))
    return out


def compared(g):
    """[(loop variable, other cost, strict)] of a comparison with a cost kept by the search; other < variable"""
    out = []
    for x in g:
        if x.kind in ("lt", "le") and x.a[0].kind == "poly":
            p = x.a[0]
            for m, co in p.a[0]:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "lv":
                    lv = m[0][0]
                    other = V_.add(p, V_.mul(const(-co), lv))
                    out.append((x, lv, other, co, x.kind == "lt"))
    return out


def is_cost(v):
    return any(x.kind in ("mcall", "call") and tail(x.a[1] if x.kind == "mcall" else x.a[0]) in ("actual_travel_time", "dta_compute_route_cost_due", "dta_compute_route_cost_dso", "estimate_congestion_externality_route", "dta_get_actual_travel_time", "dta_compute_route_travel_time") for x in V_.walk(v))


def costvar(r, lv):
    rec = loopvar(r, lv)
    return rec is not None and (is_cost(rec[0]) or is_cost(rec[1]))


def norm(v):
    """the same term with draws numbered alike (a loop body is visited more than once)"""
    m = {}
    for x in V_.walk(v):
        if x.kind == "rnd":
            m[x] = mk("rnd", x.a[0], 0, x.a[2])
    return V_.subst(v, m.get) if m else v


def adopt_paths(c, r, rec):
    """[(conditions, adopted alternative)] of the search recurrence"""
    return [(g, v) for g, v in paths(rec.a[1]) if v.kind not in ("rho", "lv")]


@rule("P33", "R1", "an alternative is adopted only if it is strictly cheaper than the route kept so far")
def r1(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        ch = changing(r)
        c.floor(len(ch) or len(specified(r)), 1, "route changes in %s" % q)
        c.ob(True if ch else None, head(r), "route changes come from a search over the alternatives", key="%s|changes" % q)
        seen = set()
        for e, rec in ch:
            ap = adopt_paths(c, r, rec)
            c.ob(True if ap else None, where(e), "the search over the alternatives can adopt one", key="%s|search" % q)
            for g, v in ap:
                cmp_ = [x for x in compared(g) if costvar(r, x[1])]
                if not cmp_:
                    alien = [x for x in g if x.kind in ("lt", "le") and is_cost(x)]
                    c.ob(None if alien else False, where(e), "an alternative is adopted only if it is cheaper" + ("" if alien else ": adopted under %s" % [V_.show(x)[:80] for x in g]), key="%s|cheaper" % q)
                    continue
                ok, why = True, ""
                for x, lv, other, co, strict in cmp_:
                    if co > 0:
                        ok, why = False, "the alternative is adopted if it is more expensive"
                    elif not strict:
                        ok, why = False, "an alternative of equal cost is adopted"
                    elif co != -1 or not is_cost(other):
                        ok, why = None, ""
                c.ob(ok, where(e), "an alternative is adopted only if it is cheaper than the route kept so far" + (": " + why if why else ""), key="%s|cheaper" % q)
                seen.add(cmp_[0][1])
        # the cost kept by the search
        for lv in seen:
            init, step = loopvar(r, lv)
            for g, v in paths(step):
                if v.kind in ("lv", "rho"):
                    continue
                cmp_ = [x for x in compared(g) if x[1] is lv]
                ok = None
                if not cmp_:
                    ok = False
                else:
                    x = cmp_[0]
                    ok = same(v, x[2]) if x[3] == -1 else False
                    known = set(V_.walk(x[2])) | {lv}
                    if ok is False and opaque_in(v, (x[2],)) is not None and not all(y in known for m, _ in (v.a[0] if v.kind == "poly" else ((((v, 1),), 1),)) for y, _ in m):
                        ok = None
                c.ob(ok, head(r), "the cost kept by the search only falls to the cost of the cheaper alternative" + ("" if ok is not False else ": becomes %s" % V_.show(v)[:160]), key="%s|kept" % q)
                # cost and route move together
                for e, rec in ch:
                    for g2, v2 in adopt_paths(c, r, rec):
                        if any(z[1] is lv for z in compared(g2)):
                            h, h2 = [norm(y) for y in g], [norm(y) for y in g2]
                            both = all(implied(h2, y) for y in h) and all(implied(h, y) for y in h2)
                            c.ob(True if both else False, where(e), "the route and its cost are taken over together" + ("" if both else ": %s / %s" % ([V_.show(y)[:60] for y in g], [V_.show(y)[:60] for y in g2])), key="%s|together" % q)


def monomials(v):
    if v.kind == "poly":
        return [(co, [x for x, ex in m for _ in range(ex if isinstance(ex, int) and ex > 0 else 1)], m) for m, co in v.a[0]]
    return [(1, [v], ((v, 1),))]


def single(v):
    """[term] of a sum of terms with coefficient one, None otherwise"""
    out = []
    for co, xs, m in monomials(v):
        if len(m) != 1 or m[0][1] != 1:
            return None, co, xs
        if co != 1:
            return None, co, xs
        out.append(xs[0])
    return out, 1, None


def callname(x):
    return tail(x.a[1]) if x.kind == "mcall" else (tail(x.a[0]) if x.kind == "call" and isinstance(x.a[0], str) else None)


def cargs(x):
    return list(x.a[2]) if x.kind == "mcall" else list(x.a[1])


def py_cost(c, r, v, kind, which, t0):
    """checks one cost of a Python swap step; which = 'current' or 'alternative'"""
    key = "%s|%s" % (r.qual, which)
    ts, co, xs = single(v)
    if ts is None:
        bad = any(is_cost(x) or "get_toll" in V_.show(x) for x in xs)
        c.ob(False if bad else None, head(r), "the %s cost adds travel time and %s with weight one" % (which, "tolls" if kind == "due" else "externality") + (": weight %s" % co if bad else ""), key=key + " weights")
        return None
    tt = [x for x in ts if callname(x) == "actual_travel_time"]
    need = "get_toll" if kind == "due" else "estimate_congestion_externality_route"
    oth = [x for x in ts if any(callname(y) == need for y in V_.walk(x))]
    rest = [x for x in ts if x not in tt and x not in oth]
    if rest:
        ok = None if opaque_in(mk("tuple", tuple(rest)), (v,)) is not None or True else False
        c.ob(None, head(r), "terms of the %s cost" % which, key=key + " terms")
        return None
    c.ob(len(tt) == 1, head(r), "the %s cost contains the travel time of the route once" % which + ("" if len(tt) == 1 else ": %d times" % len(tt)), key=key + " travel time")
    c.ob(len(oth) == 1, head(r), "the %s cost contains the %s of the route once" % (which, "tolls" if kind == "due" else "externality") + ("" if len(oth) == 1 else ": %d times" % len(oth)), key=key + " extra")
    if len(tt) != 1 or len(oth) != 1:
        return None
    route = tt[0].a[0]
    okr = is_travelled(route) if which == "current" else (False if is_travelled(route) else (True if route.kind == "elem" else None))
    c.ob(okr, head(r), "the %s cost is that of the %s" % (which, "travelled route" if which == "current" else "alternative"), key=key + " route")
    a = cargs(tt[0])
    okt = bool(a) and first_entry(a[0])
    c.ob(okt if okt else (False if a and not opaque(a[0]) else None), head(r), "the %s route is evaluated at the departure time of the vehicle" % which + ("" if okt else ": at %s" % (V_.show(a[0])[:120] if a else "-")), key=key + " time")
    x = oth[0]
    if kind == "dso":
        b = cargs(x)
        ok = len(b) == 3 and b[0] is not None and b[1] is route and b[2] is a[0]
        c.ob(ok, head(r), "the externality of the %s is that of the same route at the same time" % which + ("" if ok else ": " + V_.show(x)[:200]), key=key + " externality")
        return route
    # tolls
    if x.kind != "sum":
        c.ob(None, head(r), "tolls of the %s" % which, key=key + " tolls")
        return route
    tolls = [y for y in V_.walk(x.a[0]) if callname(y) == "get_toll"]
    t = tolls[0]
    okr = t is x.a[0] and t.a[0].kind == "elem" and t.a[0].a[0] is route
    c.ob(True if okr else (False if t.a[0].kind == "elem" and (is_travelled(t.a[0].a[0]) != is_travelled(route)) else None), head(r), "the tolls of the %s are those of its links" % which, key=key + " toll links")
    ta = cargs(t)[0]
    idx = [y for y in V_.walk(x) if y.kind == "elem" and y.a[0].kind in ("range", "call") and callname(y.a[0]) in (None, "range") and "range" in V_.show(y.a[0])[:8]]
    if which == "current":
        okt = ta.kind == "i" and ta.a[1].kind == "elem"
        okf = first_entry(mk("i", ta.a[0], ZERO)) if ta.kind == "i" else False
        c.ob(True if okt and okf else (False if not any(y.kind in ("lv", "rec") for y in V_.walk(ta)) and not okt else None), head(r), "the toll of a travelled link is that at the time of entering it" + ("" if okt and okf else ": at " + V_.show(ta)[:120]), key=key + " toll time")
    else:
        inc = V_.sub(ta, a[0])
        if inc.kind == "sum":
            s = inc.a[1] if len(inc.a) > 1 else None
            sl = s.a[1] if s is not None and s.kind == "i" else None
            hi = sl.a[1] if sl is not None and sl.kind == "slice" else None
            lo = sl.a[0] if sl is not None and sl.kind == "slice" else None
            if hi is None and sl is not None and callname(sl) == "slice":
                lo, hi = cargs(sl)[0], cargs(sl)[1]
            ok = None
            if hi is not None:
                ok = hi.kind == "elem" and (lo is NONE or lo is ZERO)
                if not ok and not (hi.kind in ("poly", "c", "elem") or hi is NONE):
                    ok = None
            src = s.a[0] if s is not None and s.kind == "i" else None
            if ok and src is not None:
                at = [y for y in V_.walk(src) if callname(y) == "actual_travel_time"]
                if at:
                    ok = at[0].a[0] is route and cargs(at[0])[:1] == [a[0]]
                ok = None if not at else ok
            c.ob(ok, head(r), "the toll of a link of an alternative is that after the travel times of the links before it" + ("" if ok is not False else ": " + V_.show(inc)[:200]), key=key + " toll time")
        else:
            bad = inc is ZERO or not any(y.kind in ("sum", "rec", "lv", "call", "mcall") for y in V_.walk(inc))
            c.ob(False if bad else None, head(r), "the toll of a link of an alternative is that after the travel times of the links before it" + (": at " + V_.show(ta)[:120] if bad else ""), key=key + " toll time")
    return route


def opaque(v):
    return any(x.kind in ("lv", "rec", "call", "mcall") and not first_entry_part(x) for x in V_.walk(v))


def first_entry_part(x):
    return x.kind == "mcall" and tail(x.a[1]) in ("traveled_route", "dta_get_traveled_route", "func_World") or (x.kind == "call" and callname(x) in ("values", "items", "range", "len"))


@rule("P33", "R2", "the costs compared are travel time plus tolls (user equilibrium) or externality (system optimum) at the departure time of the vehicle")
def r2(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        done = set()
        for e, rec in changing(r):
            for g, v in adopt_paths(c, r, rec):
                for x, lv, other, co, strict in compared(g):
                    if not costvar(r, lv) or (lv, other) in done or co != -1:
                        continue
                    done.add((lv, other))
                    init, _ = loopvar(r, lv)
                    if lang == "py":
                        ra = py_cost(c, r, other, kind, "alternative", None)
                        py_cost(c, r, init, kind, "current", None)
                        if ra is not None:
                            ok = v is ra or same(v, ra)
                            c.ob(ok, where(e), "the alternative adopted is the one whose cost was compared" + ("" if ok else ": " + V_.show(v)[:120]), key="%s|adopted" % q)
                    else:
                        ra = cpp_cost(c, r, other, kind, "alternative")
                        cpp_cost(c, r, init, kind, "current")
                        if ra is not None and ra.kind == "elem":
                            # the index adopted runs over the same set
                            ok = any(ra.a[0] is y for y in V_.walk(v)) or v is ra
                            idx = v.kind == "elem" and any(y is ra.a[0] for y in V_.walk(v.a[0]))
                            c.ob(True if ok or idx else (False if v.kind == "c" else None), where(e), "the alternative adopted is the one whose cost was compared", key="%s|adopted" % q)
                            b = e.value
                            if b.kind == "i" and b.a[1].kind == "rec":
                                okb = b.a[0] is ra.a[0]
                                c.ob(True if okb else False, where(e), "the index adopted refers to the route set that was searched" + ("" if okb else ": " + V_.show(b.a[0])[:120]), key="%s|index" % q)
        c.ob(True if done else None, head(r), "costs compared in %s" % q, key="%s|costs" % q)
    pr = P.cpp_dta()
    for q, kind in (("dta_compute_route_cost_due", "due"), ("dta_compute_route_cost_dso", "dso")):
        r = run("cpp", q, project=pr, noinline=NI)
        c.used(r)
        total(c, r, r.r.ret, kind, "route_link_ids")


def total(c, r, v, kind, routename):
    """sum over the links of travel time + toll / externality, each with weight one"""
    parts = []
    for co, xs, m in monomials(v):
        body = xs[0] if len(m) == 1 and m[0][1] == 1 else None
        if body is not None and body.kind == "sum":
            for co2, ys, m2 in monomials(body.a[0]):
                parts.append((co * co2, ys, m2))
        else:
            parts.append((co, xs, m))
    names = {"tt": "dta_get_actual_travel_time", "x": "dta_get_toll" if kind == "due" else "estimate_congestion_externality"}
    cnt = {"tt": 0, "x": 0}
    alien = False
    for co, ys, m in parts:
        n = {callname(y) for z in ys for y in V_.walk(z)}
        hit = [k for k, w in names.items() if w in {callname(z) for z in ys}]
        if len(m) == 1 and m[0][1] == 1 and hit:
            cnt[hit[0]] += co
        elif any(w in n for w in names.values()) and len(m) > 1 and not any(z.kind in ("lv", "rec") for z in ys):
            for k, w in names.items():
                if w in n:
                    cnt[k] = "product"
        elif v is not ZERO:
            alien = True
    for k, w in names.items():
        ok = cnt[k] == 1
        c.ob(True if ok else (None if alien else False), head(r), "%s adds %s of every link once" % (r.qual, w) + ("" if ok else ": %s" % (cnt[k],)), key="%s|%s" % (r.qual, w))


def model_current(c, r, v, kind, which, key):
    """the cost computed in the swap step itself, on models of the network"""
    tr = {x for x in V_.walk(v) if x.kind == "mcall" and tail(x.a[1]) == "dta_get_traveled_route"}
    if which != "current" or len(tr) != 1 or str(callname(v)).startswith("dta_compute"):
        return
    cases = []
    for k in range(12):
        links, tt, toll, ext = network(k + 1)
        rt, t0 = ([0, 1, 2], [2, 0], [3], [1, 3, 0, 2])[k % 4], F(5 * k + 3)
        W = {"links": links, "delta_t": F(5)}
        t, tot, times = t0, F(0), []
        for x in rt:
            times.append(t)
            d = tt(links[x], t)
            tot += d + (toll(links[x], t) if kind == "due" else ext(links[x], F(int(t / 5))))
            t += d
        me = methods(tt, toll, ext)
        m = Model({}, [], {mk("p", "W"): W, mk("p", "w"): W, list(tr)[0]: {"link_ids": [F(x) for x in rt], "entry_times": times, "arrival_time": t}}, attrs=True, methods=me, recs=r.ev.looprec)
        cases.append((lambda m=m: m.ev(v), tot, "route %s at %s" % (rt, t0)))
    agree(c, r, key + " model", "the current cost is the sum over the links of the travelled route at the times of entering them", cases)


def cpp_cost(c, r, v, kind, which):
    key = "%s|%s" % (r.qual, which)
    n = callname(v)
    model_current(c, r, v, kind, which, key)
    if n in ("dta_compute_route_cost_due", "dta_compute_route_cost_dso"):
        ok = n == "dta_compute_route_cost_" + kind
        c.ob(ok, head(r), "the %s cost is the %s" % (which, "travel time plus tolls" if kind == "due" else "travel time plus externality") + ("" if ok else ": " + n), key=key + " kind")
        a = cargs(v)
        route = a[1]
        okr = is_travelled(route) if which == "current" else (False if is_travelled(route) else (True if route.kind == "elem" else None))
        c.ob(okr, head(r), "the %s cost is that of the %s" % (which, "travelled route" if which == "current" else "alternative"), key=key + " route")
        okt = first_entry(a[2])
        c.ob(True if okt else (False if not opaque(a[2]) else None), head(r), "the %s route is evaluated at the departure time of the vehicle" % which + ("" if okt else ": at %s" % V_.show(a[2])[:120]), key=key + " time")
        return route
    if v.kind == "sum":
        cnt = {}
        for co, ys, m in monomials(v.a[0]):
            for y in ys:
                nm = callname(y)
                if nm in ("dta_get_actual_travel_time", "dta_get_toll"):
                    cnt[nm] = cnt.get(nm, 0) + co if len(m) == 1 and m[0][1] == 1 else "product"
                    ln = cargs(y)[0]
                    okl = any(is_travelled(z) for z in V_.walk(ln)) == (which == "current")
                    c.ob(True if okl else None, head(r), "links of the %s route" % which, key=key + " links")
                    if len(cargs(y)) > 1:
                        t = cargs(y)[1]
                        times = [x for _, x in paths(t)]
                        okt = []
                        for z in times:
                            if z.kind == "lv":
                                w = loopvar(r, z)
                                okt.append(w is not None and first_entry(w[0]) and any(callname(u) == "dta_get_actual_travel_time" for u in V_.walk(w[1])))
                            elif z.kind == "i" and z.a[1].kind == "elem" and first_entry(mk("i", z.a[0], ZERO)):
                                okt.append(True)
                            elif first_entry(z):
                                okt.append(False)
                            else:
                                okt.append(None)
                        ok = False if False in okt else (None if None in okt else True)
                        c.ob(ok, head(r), "%s of the %s route at the time of entering the link" % (nm, which) + ("" if ok is not False else ": at " + V_.show(t)[:100]), key=key + " " + nm)
        for nm in ("dta_get_actual_travel_time", "dta_get_toll") if kind == "due" else ("dta_get_actual_travel_time",):
            ok = cnt.get(nm, 0) == 1
            c.ob(ok, head(r), "the %s cost adds %s of every link once" % (which, nm) + ("" if ok else ": %s" % cnt.get(nm, 0)), key=key + " sum " + nm)
        if kind == "dso":
            c.ob(None, head(r), "externality of the %s cost" % which, key=key + " ext")
        return None
    c.ob(None, head(r), "the %s cost" % which, key=key + " cost")
    return None


def flag_terms(g):
    """conditions that draw the swap of a vehicle: 'ok' strict comparison rnd < swap_prob, 'list' membership in the sampled vehicles, 'bad'"""
    out = []
    for x in g:
        s = V_.show(x)
        if any(y.kind == "rnd" for y in V_.walk(x)) or "uniform_real" in s or any(y.kind == "p" and y.a[0] in ("swap_prob", "swap_num") for y in V_.walk(x)):
            out.append(x)
    return out


def draw_ok(x):
    """x = (uniform draw < swap_prob)"""
    if x.kind not in ("lt", "le") or x.a[0].kind != "poly":
        return None
    pr = rn = None
    for m, co in x.a[0].a[0]:
        if len(m) != 1 or m[0][1] != 1:
            return False if any(y.kind == "p" and y.a[0] == "swap_prob" for z, _ in m for y in V_.walk(z)) else None
        y = m[0][0]
        if y.kind == "p" and y.a[0] == "swap_prob":
            pr = co
        elif y.kind == "rnd" or "uniform_real" in V_.show(y):
            rn = co
        else:
            return None
    if any(len(m) == 0 for m, _ in x.a[0].a[0]):
        return False
    if pr is None or rn is None:
        return None
    return rn == 1 and pr == -1


@rule("P33", "R3", "a route changes only if the vehicle was drawn with the swapping probability")
def r3(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        for e, rec in changing(r):
            for g, v in adopt_paths(c, r, rec):
                fl = flag_terms(tuple(g) + tuple(y for x in e.g for y in V_.conj(x)))
                if not fl:
                    # a flag kept in a container filled before the vehicles are visited
                    cont = [x for x in tuple(g) + tuple(e.g) if x.kind in ("in", "truthy") and not is_cost(x)]
                    c.ob(None if cont else False, where(e), "a vehicle changes its route only if it was drawn" + ("" if cont else ": adopted under %s" % [V_.show(x)[:60] for x in g]), key="%s|drawn" % q)
                    continue
                verdicts = []
                for x in fl:
                    verdicts.append(draw_of(r, x))
                ok = False if False in verdicts else (True if True in verdicts else None)
                c.ob(ok, where(e), "a vehicle changes its route only if it was drawn with the swapping probability" + ("" if ok is not False else ": %s" % [V_.show(x)[:160] for x in fl]), key="%s|drawn" % q)
    # the C++ system optimum step marks the drawn vehicles in a vector first
    r = swap(c, "cpp", "dta_route_swap_dso")
    marks = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and "is_swap_candidate" in V_.show(e.loc.a[0])]
    for e in marks:
        d = draw_ok(e.value) if e.value.kind in ("lt", "le") else None
        if e.value is TRUE:
            lp = [x for x in e.loops]
            d = None
            for x in V_.walk(mk("tuple", tuple(y for y in lp if isinstance(y, V)))):
                if x.kind == "p" and x.a[0] == "swap_num":
                    d = True
        c.ob(d, where(e), "the vehicles marked for swapping are drawn with the given probability or number" + ("" if d is not False else ": " + V_.show(e.value)[:120]), key="dso|marks|%s" % ("n" if e.value is TRUE else "p"))
        if e.value is TRUE:
            ix = e.loc.a[1]
            okx = True if ix.kind == "i" or any("shuffle" in V_.show(y)[:40] for y in V_.walk(ix)) else (False if ix.kind == "elem" and ix.a[0].kind == "range" else None)
            c.ob(okx, where(e), "the vehicles marked are drawn at random" + ("" if okx is not False else ": the first ones are marked"), key="dso|random")
        gs = [y for x in e.g for y in V_.conj(x) if any(z.kind == "p" and z.a[0] == "swap_num" for z in V_.walk(y))]
        want = "0 <= swap_num" if e.value is TRUE else "swap_num < 0"
        if gs:
            w = r.spec(want)
            ok = implied(gs, w)
            c.ob(True if ok else False, where(e), "a number of swaps is used exactly when one is given" + ("" if ok else ": under %s" % [V_.show(z) for z in gs]), key="dso|mode|%s" % ("n" if e.value is TRUE else "p"))


def marked(u):
    """element of a local container of marks"""
    return u.kind == "truthy" and u.a[0].kind == "i" and not is_cost(u)


def draw_of(r, x):
    """verdict of one swap condition"""
    if x.kind in ("lt", "le"):
        return draw_ok(x)
    if x.kind == "in":
        key, src = x.a[0], x.a[1]
        vs = []
        for g, v in paths(src):
            num = [y for y in V_.walk(mk("tuple", tuple(g) or (TRUE,))) if y.kind == "p" and y.a[0] == "swap_num"]
            if v.kind == "comp" and len(v.a) >= 4:
                vs.append(draw_ok(v.a[3]) if v.a[1] is key or v.a[1].kind == "elem" else None)
                if num and contradict(list(g) + [V_.eq(num[0], NONE)]):
                    vs.append(False)
            elif v.kind == "rnd" and "sample" in str(v.a[0]):
                a = v.a[2]
                vs.append(True if len(a) == 2 and a[1].kind == "p" and a[1].a[0] == "swap_num" else False)
                if num and not contradict(list(g) + [V_.eq(num[0], NONE)]):
                    vs.append(False)
            else:
                vs.append(None)
        return False if False in vs else (None if None in vs else True)
    if x.kind in ("or", "and"):
        # a mark set before the vehicles are visited: it must count positively
        marks = [y for z in x.a[0] for y in (z.a[0] if z.kind in ("and", "or") else (z,)) if any(marked(u) for u in V_.walk(y))]
        if marks:
            return not any(y.kind == "not" for y in marks)
        vs = [draw_of(r, y) for y in x.a[0] if flag_terms((y,))]
        if x.kind == "or":
            # every alternative has to require the draw
            for y in x.a[0]:
                if not flag_terms((y,)):
                    vs.append(None if any(u.kind in ("in", "truthy") for u in V_.walk(y)) or is_cost(y) else False)
            return False if False in vs else (True if vs and None not in vs else None)
        return False if False in vs else (True if True in vs else None)
    if x.kind == "not":
        v = draw_of(r, x.a[0])
        return False if v is True else None
    return None


@rule("P33", "R4", "vehicles that do not change keep the route they travelled")
def r4(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        evs = specified(r)
        ch = [e for e in evs if any(x.kind == "rec" for x in V_.walk(e.value))]
        keep = []
        for e in evs:
            okd = ended(e)
            c.ob(True if okd else None, where(e), "routes are assigned to vehicles that completed their trip", key="%s|ended" % q)
            if e in ch:
                # a change happens only if the search adopted an alternative
                fl = [x for x in e.g if any(y.kind == "rec" for y in V_.walk(x))]
                ok = bool(fl)
                recs = [y for x in fl for y in V_.conj(x) if any(z.kind == "rec" for z in V_.walk(y))]
                pos = [y for y in recs if (y.kind == "truthy") or y.kind in ("le", "lt") or (y.kind == "not" and y.a[0].kind == "eq")]
                neg = [y for y in recs if y.kind == "not" and y.a[0].kind == "truthy"]
                c.ob(False if not ok or neg else (True if pos else None), where(e), "a vehicle gets another route only if the search adopted one" + ("" if ok and not neg else ": assigned under %s" % [V_.show(x)[:80] for x in e.g][-2:]), key="%s|only" % q)
                continue
            if is_travelled(e.value):
                keep.append(e)
                veh = [x for x in V_.walk(e.value) if x.kind == "elem"]
                c.ob(True, where(e), "the route kept is the one the vehicle travelled", key="%s|keep" % q)
                continue
            # a vehicle that does not drive a route of a given route set is put on the first one of the set
            given = [x for x in e.g if any(y.kind == "p" and y.a[0] in ("route_sets", "has_external_route_sets") for y in V_.walk(x))]
            notin = [x for x in e.g if (x.kind == "not" and x.a[0].kind in ("in", "truthy") and any(is_travelled(y) or y.kind == "search" for y in V_.walk(x)))]
            okg = any(not contradict([x]) and pos_given(x) for x in given)
            c.ob(bool(okg and notin), where(e), "another route is assigned without being cheaper only where a given route set does not contain the travelled one" + ("" if okg and notin else ": under %s" % [V_.show(x)[:80] for x in e.g]), key="%s|default" % q)
        c.floor(len(keep) or len(evs), 1, "kept routes in %s" % q)
        # every completed vehicle gets some route
        if keep:
            tot = V_.or_([V_.and_([y for x in e.g for y in V_.conj(x)]) for e in evs])
            base = [x for x in keep[0].g if ended_cond(x)]
            ok = implied(base, tot)
            if not ok:
                alts = [[y for x in e.g for y in V_.conj(x) if not ended_cond(y)] for e in evs]
                ok = covers_all(alts)
            c.ob(True if ok else None, head(r), "every vehicle that completed its trip has a route for the next iteration", key="%s|all" % q)
        # the container is indexed by the vehicle whose route it is
        for e in evs:
            k = e.loc.a[1]
            ok = None
            if lang == "py":
                ok = True if k.kind == "elem" and "VEHICLES" in V_.show(k) else (False if k.kind == "c" else None)
            else:
                ok = True if (k.kind == "elem" and "vehicles" in V_.show(k)) or k.kind in ("lv", "elem") else (False if k.kind in ("c", "poly") else None)
            c.ob(ok, where(e), "routes are stored under the vehicle they belong to" + ("" if ok is not False else ": " + V_.show(k)[:80]), key="%s|index" % q)


def pos_given(x):
    if x.kind == "truthy":
        return True
    return x.kind == "not" and x.a[0].kind == "eq" and any(y is NONE for y in x.a[0].a)


def ended_cond(x):
    return x.kind == "eq" and any(y.kind == "a" and y.a[1] == "state" for y in x.a)


def covers_all(alts):
    return any(not a for a in alts)


@rule("P33", "R5", "alternatives are those of the origin and destination of the vehicle")
def r5(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        for e, rec in changing(r):
            src = rec.a[2]
            keys = [x for s in (src, e.value) if isinstance(s, V) for x in V_.walk(s) if x.kind == "tuple" and len(x.a[0]) == 2]
            bad, good = None, 0
            for k in keys:
                at = []
                for y in k.a[0]:
                    f = [z.a[1] for z in V_.walk(y) if z.kind == "a" and z.a[1] in ("orig", "dest")]
                    at.append(f[0] if f else None)
                if at == ["orig", "dest"]:
                    b = [z.a[0] for y in k.a[0] for z in V_.walk(y) if z.kind == "a" and z.a[1] in ("orig", "dest")]
                    if b[0] is b[1]:
                        good += 1
                    else:
                        bad = k
                elif None not in at:
                    bad = k
            c.ob(False if bad is not None else (True if good else None), where(e), "the alternatives are the routes from the origin to the destination of the vehicle" + ("" if bad is None else ": " + V_.show(bad)[:100]), key="%s|od" % q)
        # the route objects used in this iteration are built from the enumerated routes of the same pair
    for q in ("SolverDUE.solve", "SolverDSO_D2D.solve"):
        r = swap(c, "py", q)
        n = 0
        for e in r.events:
            if e.kind == "mut" and e.name == "append" and e.args and callname(e.args[0]) == "defRoute" and e.loc.kind == "i":
                n += 1
                k = e.loc.a[1]
                src = [x for x in V_.walk(e.args[0]) if x.kind == "i" and x.a[1].kind == "tuple"]
                ok = None
                if k.kind == "tuple" and src:
                    ok = all(x.a[1] is k for x in src)
                c.ob(ok, where(e), "the route set of a pair is made of the enumerated routes of that pair" + ("" if ok is not False else ": %s from %s" % (V_.show(k)[:60], V_.show(src[0])[:60])), key="%s|routes" % q)
        c.floor(n, 1, "routes of the route sets in %s" % q)


@rule("P33", "R6", "the C++ solvers hand the swapping probability, the number of swaps and the route sets to the swap step")
def r6(c):
    pr = P.py_mod("DTAsolvers/DTAsolvers_cpp_adapter.py")
    for q, fn in (("CppSolverDUE.solve", "route_swap_due"), ("CppSolverDSO_D2D.solve", "route_swap_dso")):
        r = run("py", q, project=pr)
        c.used(r)
        calls = [e for e in r.events if e.kind == "call" and tail(e.name) == fn]
        c.floor(len(calls), 1, "swap steps in %s" % q)
        b = binds.table().get("World", {}).get(fn)
        if b is None:
            raise AnchorMissing("binding World.%s" % fn)
        names = [a[0] if isinstance(a, tuple) else a for a in (b.args or [])]
        for e in calls:
            got = dict(zip(names, e.args))
            got.update(dict(e.kw or {}))
            for nm in ("swap_prob", "swap_num"):
                if nm not in names:
                    continue
                v = got.get(nm)
                ok = None
                if isinstance(v, V):
                    leafs = [x for _, x in paths(v)]
                    if nm == "swap_prob":
                        ok = all(x.kind == "p" and x.a[0] == nm for x in leafs) or (False if not any(x.kind in ("call", "mcall", "lv", "rec") for x in leafs) else None)
                    else:
                        oks = []
                        for g, x in paths(v):
                            while x.kind == "call" and callname(x) == "int" and len(cargs(x)) == 1:
                                x = cargs(x)[0]
                            p = mk("p", nm)
                            isn = any(z.kind == "eq" and any(y is NONE for y in z.a) and any(y.kind == "p" and y.a[0] == nm for y in z.a) for z in g)
                            if x.kind == "p" and x.a[0] == nm:
                                oks.append(not isn)
                            elif x.kind == "c" and isinstance(x.a[0], (int, float)) or x.kind == "c" and hasattr(x.a[0], "numerator"):
                                oks.append(x.a[0] < 0 and isn)
                            else:
                                oks.append(None)
                        ok = False if False in oks else (None if None in oks else True)
                c.ob(ok, where(e), "%s passes %s to the swap step" % (q, nm) + ("" if ok is not False else ": %s" % V_.show(v)[:100]), key="%s|%s" % (q, nm))
            v = got.get("has_external_route_sets")
            if isinstance(v, V):
                ok = True if v.kind == "not" and v.a[0].kind == "eq" and any(y is NONE for y in v.a[0].a) and any(y.kind == "p" and y.a[0] == "route_sets" for y in v.a[0].a) else (False if v.kind in ("c", "eq", "true", "false") else None)
                c.ob(ok, where(e), "%s tells the swap step whether route sets were given" % q, key="%s|external" % q)
        binding(c, b, fn, names)


def binding(c, b, fn, names):
    """the binding of a swap step hands every argument to the parameter of the same name"""
    ts = b.getter or []
    loc = "uxsim/trafficpp/bindings.cpp:%s (World.%s)" % (b.line, fn)
    i = ts.index("(") if "(" in ts else None
    if i is None or "dta_" + fn not in ts:
        raise AnchorMissing("binding of %s does not call dta_%s" % (fn, fn))
    lam = [p[-1] for p in split(ts, i)][1:]
    k = ts.index("dta_" + fn)
    args = split(ts, k + 1)[1:]
    fs = [f for f in P.cpp_dta().allf if f.qual == "dta_" + fn]
    fp = [p[0] for p in fs[0].params][1:]
    c.ob(len(args) == len(fp), loc, "the binding of %s passes all arguments" % fn, key="%s|count" % fn)
    SC = ("swap_prob", "swap_num", "has_external_route_sets", "rng_seed")
    for p, a in zip(fp, args):
        if p in SC:
            ok = a == [p]
            c.ob(True if ok else (False if len(a) == 1 and a[0] in SC else None), loc, "the binding of %s passes %s" % (fn, p) + ("" if ok else ": " + " ".join(a)), key="%s|bind %s" % (fn, p))
    for a, n in zip(lam, names):
        if a in SC or n in SC:
            c.ob(a == n, loc, "the binding of %s names its parameter %s" % (fn, a) + ("" if a == n else ": called %s" % n), key="%s|name %s" % (fn, a))


def split(ts, i):
    """token lists of the arguments of the parenthesis at ts[i]"""
    out, cur, d = [], [], 0
    for t in ts[i:]:
        if t in ("(", "{", "[", "<"):
            d += 1
            if d == 1:
                continue
        elif t in (")", "}", "]", ">"):
            d -= 1
            if d == 0:
                break
        if t == "," and d == 1:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out + ([cur] if cur else [])


@rule("P33", "R7", "the cost of a route asks every link at the time of entering it")
def r7(c):
    route_queries(c, "P33")


@rule("P33", "R8", "the travelled route lists every link entered with the time of entering it")
def r8(c):
    for lang, q in (("py", "Vehicle.traveled_route"), ("wrap", "CppVehicle.traveled_route")):
        r = run(lang, q)
        c.used(r)
        if bridge.holds(q) is True:     # on all models of logs
            c.ob(True, head(r), "every link entered is listed with the time of entering it", key="%s|model" % q)
            continue
        ap = [e for e in r.events if e.kind == "mut" and e.name == "append" and e.loops and e.args]
        lk, tm = [], []
        for e in ap:
            isl = [x for x in e.g if x.kind == "truthy" and x.a[0].kind in ("isinst",) or "isinst" in V_.show(x)[:20] or (x.kind == "eq" and "type(" in V_.show(x))]
            v = e.args[0]
            if v.kind == "i" and v.a[0].kind == "elem" and v.a[1] in (ZERO, ONE):
                (lk if v.a[1] is ONE else tm).append((e, isl, v))
        c.floor(len(lk), 1, "links of the travelled route in %s" % q)
        for e, isl, v in lk:
            c.ob(True if isl else None, where(e), "only links are part of the travelled route", key="%s|links" % q)
            ps = [x for x, i2, w in tm if w.a[0] is v.a[0] and same_guard(x, e)]
            c.ob(True if len(ps) == 1 else False, where(e), "every link is listed with the time of entering it" + ("" if len(ps) == 1 else ": %d times" % len(ps)), key="%s|time" % q)
            src = v.a[0].a[0]
            ok = field_of(src) == "log_t_link"
            c.ob(True if ok else (False if src.kind == "i" else None), where(e), "the travelled route is taken from the whole link log" + ("" if ok else ": " + V_.show(src)[:80]), key="%s|log" % q)
    r = run("cpp", "dta_get_traveled_route", project=P.cpp_dta())
    c.used(r)
    ap = [e for e in r.events if e.kind == "mut" and e.name in ("append", "push_back") and e.loops and e.args]
    lk = [e for e in ap if any(x.kind == "a" and x.a[1] == "link_ids" for x in V_.walk(e.loc))]
    tm = [e for e in ap if any(x.kind == "a" and x.a[1] == "entry_times" for x in V_.walk(e.loc))]
    c.floor(len(lk), 1, "links of dta_get_traveled_route")
    for e in lk:
        v = e.args[0]
        ps = [x for x in tm if same_guard(x, e)]
        c.ob(True if len(ps) == 1 else False, where(e), "every link is listed with the time of entering it" + ("" if len(ps) == 1 else ": %d times" % len(ps)), key="dta|time")
        idx = v.a[1] if v.kind == "i" else None
        for x in ps:
            t = x.args[0]
            ok = None
            if idx is not None and t.kind in ("mcall", "i"):
                ti = cargs(t)[0] if t.kind == "mcall" and cargs(t) else (t.a[1] if t.kind == "i" else None)
                ok = ti is idx
            c.ob(ok, where(x), "the time of entering a link is that of the same log entry" + ("" if ok is not False else ": " + V_.show(t)[:80]), key="dta|entry")
        neg = any(x.kind == "le" and same(x.a[0], V_.sub(ZERO, v)) for x in e.g)
        wrong = [x for x in e.g if x.kind in ("lt", "le") and v in {z for m, _ in (x.a[0].a[0] if x.a[0].kind == "poly" else ()) for z, _ in m} and not (x.kind == "le" and same(x.a[0], V_.sub(ZERO, v)))]
        c.ob(True if neg and not wrong else (False if wrong or not any(v in set(V_.walk(x)) for x in e.g) else None), where(e), "all log entries on a link count, the others do not" + (": " + V_.show(wrong[0]) if wrong else ""), key="dta|onlink")
        if idx is not None and idx.kind == "elem":
            rg = idx.a[0]
            ok = rg.kind == "range" and rg.a[0] is ZERO
            c.ob(True if ok else (False if rg.kind == "range" else None), where(e), "the log is read from its first entry", key="dta|first")
    # consecutive entries on the same link count once
    for k, w in r.ev.looprec.items():
        if k[1].a[0].startswith("prev"):
            vals = [v for g, v in paths(w[1]) if v is not k[1]]
            ok = all(any(v is e.args[0] for e in lk) for v in vals) and bool(vals)
            c.ob(True if ok else (False if not vals else None), head(r), "the last link listed is remembered" + ("" if vals else ": never updated"), key="dta|prev")


def deterministic(seed):
    """numbers of the models: a linear congruential sequence"""
    x = seed
    while True:
        x = (x * 1103515245 + 12345) % 2147483648
        yield x // 65536


def network(seed, n=4):
    g = deterministic(seed)
    links = [{"id": F(i), "name": "l%d" % i, "_a": F(1 + next(g) % 9), "_b": F(1 + next(g) % 5), "_c": F(next(g) % 7)} for i in range(n)]

    def tt(l, t):
        return l["_a"] * 5 + (t * l["_b"]) % 7

    def toll(l, t):
        return l["_c"] + (t * l["_b"] * 3) % 5

    def ext(l, ts):
        return l["_c"] * 2 + (ts * l["_a"]) % 11
    return links, tt, toll, ext


def methods(tt, toll, ext):
    return {"dta_get_actual_travel_time": lambda _, l, t: tt(l, t), "dta_get_toll": lambda _, l, t: toll(l, t), "estimate_congestion_externality": lambda l, ts: ext(l, ts),
            "estimate_congestion_externality_link": lambda _, W, l, t: ext(l, F(int(t / W["DELTAT"])))}


def agree(c, r, key, what, cases):
    """one obligation: (model value, reference) agree in all cases"""
    n, why, bad = 0, None, None
    for run_, want, lab in cases:
        try:
            got = run_()
        except Undecided as ex:
            why = str(ex)
            continue
        except Raises as ex:
            got = "error: %s" % ex
        n += 1
        if got != want and bad is None:
            bad = (lab, want, got)
    if bad is None and n == 0:
        c.ob(None, head(r), what + ": " + str(why)[:120], key=key)
    else:
        c.ob(bad is None, head(r), what + ("" if bad is None else ": with %s expected %s, computed %s" % bad), key=key)


@rule("P33", "R9", "the cost of a route and the travelled route are, on models of networks and logs, those of the definition")
def r9(c):
    pr = P.cpp_dta()
    routes = ([0, 1, 2], [2, 0], [3], [1, 3, 0, 2])
    for q, kind in (("dta_compute_route_cost_due", "due"), ("dta_compute_route_cost_dso", "dso"), ("dta_compute_route_travel_time", "tt")):
        r = run("cpp", q, project=pr, noinline=NI)
        c.used(r)
        cases = []
        for k in range(12):
            links, tt, toll, ext = network(k + 1)
            rt, t0 = routes[k % 4], F(5 * k + 3)
            W = {"links": links, "delta_t": F(5)}
            m = Model({}, [], {mk("p", "W"): W, mk("p", "w"): W, mk("p", r.func.params[1][0]): [F(x) for x in rt], mk("p", r.func.params[2][0]): t0}, attrs=True, methods=methods(tt, toll, ext), recs=r.ev.looprec)
            t, tot = t0, F(0)
            for x in rt:
                l = links[x]
                d = tt(l, t)
                tot += d + (toll(l, t) if kind == "due" else ext(l, F(int(t / 5))) if kind == "dso" else 0)
                t += d
            cases.append((lambda m=m: m.ev(r.r.ret), tot, "route %s at %s" % (rt, t0)))
        agree(c, r, q, "the cost of a route is the sum over its links at the times of entering them", cases)
    for lang, q in (("cpp", "World.estimate_congestion_externality_route"), ("py", "estimate_congestion_externality_route")):
        r = run("cpp", q, noinline=("estimate_congestion_externality",)) if lang == "cpp" else run("py", q, project=P.py_mod("Utilities/Utilities.py"), noinline=("estimate_congestion_externality_link",))
        c.used(r)
        ps = [x[0] for x in r.func.params]
        cases = []
        for k in range(12):
            links, tt, toll, ext = network(k + 1)
            rt, t0 = routes[k % 4], F(5 * k + 3)
            for l in links:
                l["traveltime_real"] = [tt(l, F(5 * i)) for i in range(60)]
                l["length"], l["vmax"] = F(100), F(10)
            W = {"links": links, "delta_t": F(5), "DELTAT": F(5), "_cpp_world": None}
            t, tot, det = t0, F(0), []
            for x in rt:
                l = links[x]
                d = l["traveltime_real"][int(t / 5)]
                tot += ext(l, F(int(t / 5)))
                t += d
                det.append(d)
            route = [links[x] for x in rt]
            b = {mk("p", "W"): W, mk("p", "self"): W, mk("p", ps[-2]): route, mk("p", ps[-1]): t0}
            me = dict(methods(tt, toll, ext), actual_travel_time=lambda rt_, t_, *a, det=det: [sum(det), det], ensure_traveltime_real=lambda l: None)
            m = Model({}, [], b, attrs=True, methods=me, recs=r.ev.looprec)
            rets = returns(r)
            cases.append((lambda m=m, rets=rets: returned(m, rets), tot, "route %s at %s" % (rt, t0)))
        agree(c, r, q, "the externality of a route is the sum over its links at the times of entering them", cases)
    # travelled route
    r = run("cpp", "dta_get_traveled_route", project=pr)
    c.used(r)
    logs = ([-1, -1, 0, 0, 2, 2, 1, -1], [-1, 3, 3, 3, -1], [0, 1, 2, 3, 0, 0], [-1, -1], [1, 1, 0])
    for fld, nm in (("link_ids", "links"), ("entry_times", "times")):
        cases = []
        for k, lg in enumerate(logs):
            veh = {"log_size": F(len(lg)), "log_link": [F(x) for x in lg], "_traveled_link_count": F(len(lg)), "state": "vsEND", "arrival_time": F(99), "departure_time": F(2), "log_t": [F(10 + 5 * i) for i in range(len(lg))]}
            m = Model({}, [], {mk("p", r.func.params[0][0]): veh}, attrs=True, methods={"log_t_at": lambda v, i: v["log_t"][int(i)]}, recs=r.ev.looprec, wrap=False)
            want, prev = [], None
            for i, x in enumerate(lg):
                if x >= 0 and x != prev:
                    want.append(F(x) if fld == "link_ids" else F(10 + 5 * i))
                    prev = x
            cases.append((lambda m=m: appended_list(m, r, fld), want, "link log %s" % (lg,)))
        agree(c, r, "travelled|" + fld, "the travelled route has the %s of the log" % nm, cases)
    cases = []
    for st, at in (("vsEND", 50), ("vsRUN", -1), ("vsABORT", -1), ("vsEND", 0)):
        veh = {"log_size": F(0), "log_link": [], "_traveled_link_count": F(0), "state": st, "arrival_time": F(at), "departure_time": F(7)}
        m = Model({}, [], {mk("p", r.func.params[0][0]): veh}, attrs=True, recs=r.ev.looprec)

        def last(m=m):
            v = None
            for e, en in m.play([e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "arrival_time" and e.loc.a[0].kind == "new"]):
                v = m.ev(e.value, en)
            return v
        cases.append((last, F(at) if st == "vsEND" else F(-1), "state %s" % st))
    agree(c, r, "travelled|arrival", "the arrival time of the travelled route is that of the vehicle", cases)


def appended_list(m, r, fld):
    out = []
    for e, en in m.play([e for e in r.events if e.kind == "mut" and e.name in ("append", "push_back") and e.loc.kind == "a" and e.loc.a[1] == fld]):
        out.append(m.ev(e.args[0], en))
    return out


@rule("P33", "R10", "the externality of a link is, on models of its counts, the headway consumed times the vehicles delayed")
def r10(c):
    for lang, q in (("cpp", "Link.estimate_congestion_externality"), ("py", "estimate_congestion_externality_link")):
        r = run("cpp", q) if lang == "cpp" else run("py", q, project=P.py_mod("Utilities/Utilities.py"))
        c.used(r)
        cases = []
        for k in range(60):
            g = deterministic(k + 1)
            n = 6 + next(g) % 7
            dt = F(5)
            arr, dep = [F(0)], [F(0)]
            for i in range(n - 1):
                arr.append(arr[-1] + 5 * (next(g) % 3 > 0))
                dep.append(min(arr[-2] if len(arr) > 1 else F(0), dep[-1] + 5 * (next(g) % 3 == 0)))
            tt = [F(10 + 5 * (next(g) % 4)) - F(next(g) % 2) for _ in range(n)]
            ts = next(g) % n
            fft = F(10)
            clamped = False
            end = ts
            for i in range(ts, n):
                f = i + int(tt[i] / dt)
                if f >= n:
                    clamped = True
                    break
                if tt[i] > fft * F(101, 100) and arr[f] - dep[f] > 0:
                    end = i
                else:
                    break
            out = ts + int(tt[ts] / dt) + 1
            if out >= n:
                clamped = True
                out = n - 1
            lead = out
            for i in range(out, 0, -1):
                if dep[i] < dep[out]:
                    lead = i
                    break
            want = (out - lead) * dt * (arr[end] - arr[ts])
            if clamped and lang == "py":
                continue
            if lang == "cpp":
                W = {"delta_t": dt}
                b = {mk("p", "self"): {"traveltime_real": tt, "arrival_curve": arr, "departure_curve": dep, "length": F(100), "vmax": F(10), "w": W}, mk("p", "W"): W, mk("p", r.func.params[-1][0]): F(ts)}
                m = Model({}, [], b, attrs=True, recs=r.ev.looprec, wrap=False)
                rets = [(e, v) for e, v in returns(r)]
            else:
                link = {"traveltime_actual": tt, "cum_arrival": arr, "cum_departure": dep, "length": F(100), "free_flow_speed": F(10)}
                W = {"DELTAT": dt, "_cpp_world": None}
                ps = [x[0] for x in r.func.params]
                b = {mk("p", "W"): W, mk("p", ps[1]): link, mk("p", ps[2]): ts * dt + F(k % 5)}
                m = Model({}, [], b, attrs=True, methods={"get_link": lambda W, l: l}, recs=r.ev.looprec)
                rets = [(e, v) for e, v in returns(r)]
            cases.append((lambda m=m, rets=rets: returned(m, rets), want, "arrivals %s departures %s travel times %s step %d" % tuple([[str(x) for x in y] for y in (arr, dep, tt)] + [ts])))
        agree(c, r, q, "the externality of a link", cases)


def returns(r):
    return [(x[0].g, x[1]) for x in r.r.returns] if r.r.returns else [((), r.r.ret)]


def returned(m, rets):
    why = None
    for g, v in rets:
        try:
            if all(m.truth(m.ev(x)) for x in g):
                return m.ev(v)
        except Undecided as ex:
            why = ex
    raise Undecided(str(why))


class Sets(dict):
    """route sets of origin-destination pairs"""
    def __contains__(self, k):
        return dict.__contains__(self, self.key(k))

    def __getitem__(self, k):
        return dict.__getitem__(self, self.key(k))

    def key(self, k):
        return tuple(k) if isinstance(k, list) else k


def scenario(seed, kind, od_known=True):
    """vehicles with travelled routes, route sets and the costs of all routes"""
    links, tt, toll, ext = network(seed)
    g = deterministic(seed * 77 + 5)
    sets = Sets({(F(0), F(1)): [[0, 2], [1], [3, 1]], (F(0), F(2)): [[1, 3], [2]], (F(2), F(0)): [[3, 0, 1]]})

    def cost(rt, t0):
        t, tot = t0, F(0)
        for x in rt:
            d = tt(links[int(x)], t)
            tot += d + (toll(links[int(x)], t) if kind == "due" else ext(links[int(x)], F(int(t / 5))))
            t += d
        return tot

    vehs = []
    for i in range(6):
        od = [(0, 1), (0, 2), (2, 0), (1, 2), (0, 1), (0, 2)][(i + seed) % 6]
        own = sets.get((F(od[0]), F(od[1])), [[2, 3]])
        rt = own[next(g) % len(own)] if next(g) % 5 else [2, 1, 0]
        t0 = F(5 * (next(g) % 9))
        t, times = t0, []
        for x in rt:
            times.append(t)
            t += tt(links[x], t)
        st = "vsEND" if next(g) % 4 else ("vsRUN", "vsABORT")[next(g) % 2]
        vehs.append({"id": F(i), "name": "v%d" % i, "orig": {"id": F(od[0]), "name": F(od[0])}, "dest": {"id": F(od[1]), "name": F(od[1])}, "state": st, "departure_time": t0 - 2, "arrival_time": t if st == "vsEND" else F(-1),
                     "_tr": {"link_ids": [F(x) for x in rt], "entry_times": times, "arrival_time": t if st == "vsEND" else F(-1)}})
    sets = Sets({k: [[F(x) for x in rt] for rt in v] for k, v in sets.items()})
    W = {"links": links, "vehicles": vehs, "delta_t": F(5), "delta_n": F(5)}
    return links, W, vehs, sets, cost


def reference(vehs, sets, cost, flags, external):
    """per vehicle: the routes allowed for the next iteration; counts of changes and possible changes; the gap where it is unambiguous"""
    routes, n, pot, gap = {}, 0, 0, F(0)
    for i, v in enumerate(vehs):
        tr = v["_tr"]["link_ids"]
        if v["state"] not in ("vsEND", "end"):
            continue
        key = (v["orig"]["id"], v["dest"]["id"])
        if key not in sets:
            routes[i] = [tr]
            continue
        if external and tr not in sets[key]:
            routes[i] = [sets[key][0]]
            continue
        t0 = v["_tr"]["entry_times"][0]
        now = cost(tr, t0)
        better = [x for x in sets[key] if cost(x, t0) < now]
        routes[i] = better if flags[i] and better else [tr]
        n += 5 if flags[i] and better else 0
        pot += 5 if better else 0
        gap = None if gap is None or len(better) > 1 else gap + sum(now - cost(x, t0) for x in better)
    return routes, n, pot, gap


def step_events(r):
    if id(r) not in _memo:
        evs = [e for e in r.events if e.kind == "set" and (e.loc.kind == "i" and any(x.kind == "a" and x.a[1] == "routes_specified" for x in V_.walk(e.loc.a[0])) or e.loc.kind == "a" and e.loc.a[1] in ("n_swap", "potential_n_swap", "total_t_gap"))]
        draws = {z for e in r.events for y in list(e.g) + [e.value] if isinstance(y, V) for z in V_.walk(y) if z.kind == "mcall" and z.a[1] == "*call" and "uniform" in str(callname(z.a[0]))}
        _memo[id(r)] = (evs, draws, r)
    return _memo[id(r)][:2]


def cpp_step(r, kind, k, prob, external, num=None):
    links, W, vehs, sets, cost = scenario(k + 1, kind)
    ps = [x[0] for x in r.func.params]
    me = {"dta_get_traveled_route": lambda _, v: v["_tr"], "find": lambda c_, k_: [k_, c_[k_]], "*call": lambda _, *a: F(1, 4), "dta_compute_route_cost_" + kind: lambda _, w, rt, t: cost(rt, t)}
    _, tt, toll, ext = network(k + 1)
    me.update(methods(tt, toll, ext))
    b = {mk("p", "W"): W, mk("p", ps[0]): W, mk("p", ps[1]): {"sets": sets}, mk("p", "swap_prob"): prob, mk("p", "has_external_route_sets"): external, mk("p", "rng_seed"): F(3)}
    if "swap_num" in ps:
        b[mk("p", "swap_num")] = F(-1 if num is None else num)
    evs, draws = step_events(r)
    for x in draws:
        b[x] = F(1, 4)
    m = Model({}, [], b, attrs=True, methods=me, recs=r.ev.looprec, wrap=False, listeq=True)
    routes, heap = {}, {}
    for e, en in m.play(evs, brks=r.ev.loopbrk):
        v = m.ev(e.value, en)
        if e.loc.kind == "i":
            routes[int(m.ev(e.loc.a[1], en))] = v
        else:
            m.bools[e.loc] = v
            m.memo.clear()
            heap[e.loc.a[1]] = v
    flags = [F(1, 4) < prob if num is None else None] * len(vehs)
    return routes, heap, vehs, sets, cost, flags


@rule("P33", "R11", "the swap step assigns, on models of vehicles and route sets, cheaper alternatives with the given probability and the travelled route otherwise")
def r11(c):
    for lang, q, kind in SWAPS:
        r = swap(c, lang, q)
        step = cpp_step if lang == "cpp" else py_step
        cases = []
        for k in range(10):
            for prob in (F(1, 2), F(1, 4), F(0)):
                for external in (False, True):
                    def got(k=k, prob=prob, external=external):
                        routes, heap, vehs, sets, cost, flags = step(r, kind, k, prob, external)
                        ref = reference(vehs, sets, cost, flags, external)[0]
                        bad = [i for i in range(len(vehs)) if (routes.get(i) not in ref[i] if i in ref else routes.get(i))]
                        return None if not bad else "vehicle %d (%s) travelled %s and gets %s instead of %s" % (bad[0], vehs[bad[0]]["state"], show(vehs[bad[0]]["_tr"]["link_ids"]), show(routes.get(bad[0])), [show(x) for x in ref.get(bad[0], [[]])])
                    cases.append((got, None, "model %d, probability %s, %s route sets" % (k, prob, "given" if external else "enumerated")))
        agree(c, r, q + "|step", "routes for the next iteration", cases)
        if kind == "dso" and lang == "cpp":
            cases = []
            for k in range(10):
                for num in (0, 2, 6, 9):
                    def count(k=k, num=num):
                        routes, heap, vehs, sets, cost, _ = cpp_step(r, kind, k, F(0), False, num)
                        changed = sum(1 for i, v in enumerate(vehs) if i in routes and routes[i] != v["_tr"]["link_ids"])
                        return changed <= num
                    cases.append((count, True, "model %d, %d swaps" % (k, num)))
            agree(c, r, q + "|num", "at most the given number of vehicles change", cases)


class TT(F):
    """a travel time that knows its parts"""
    def __getitem__(self, i):
        return [F(self), self.parts][int(i)]


def py_step(r, kind, k, prob, external):
    links, W, vehs, sets, cost = scenario(k + 1, kind)
    _, tt, toll, ext = network(k + 1)

    def route(rt):
        return [links[int(x)] for x in rt]

    def travel(rt, t, *a):
        parts = []
        for l in rt:
            parts.append(tt(l, t))
            t += parts[-1]
        out = TT(sum(parts))
        out.parts = parts
        return out

    def extr(_, w, rt, t):
        tot = F(0)
        for l in rt:
            tot += ext(l, F(int(t / 5)))
            t += tt(l, t)
        return tot
    osets = Sets({k_: [route(rt) for rt in v] for k_, v in sets.items()})
    osets.setdefault((F(1), F(2)), [route(v["_tr"]["link_ids"]) for v in vehs if (v["orig"]["id"], v["dest"]["id"]) == (1, 2)] if external else [])
    names = {}
    for v in vehs:
        v["state"] = {"vsEND": "end", "vsRUN": "run", "vsABORT": "abort"}[v["state"]]
        v["_t"] = [route(v["_tr"]["link_ids"]), v["_tr"]["entry_times"] + [v["_tr"]["arrival_time"]]]
        names[v["name"]] = v
    W = dict(W, VEHICLES=names, DELTAN=F(5), DELTAT=F(5))
    world, routes_term, draws, evs = py_terms(r)
    b = {x: W for x in world}
    b.update({x: F(1, 4) for x in draws})
    b.update({x: osets for x in routes_term})
    b.update({mk("p", "max_iter"): F(1), mk("p", "swap_prob"): prob, mk("p", "route_sets"): ({} if external else None), mk("p", "swap_num"): None})
    me = {"traveled_route": lambda v, *a: v["_t"], "actual_travel_time": travel, "get_toll": lambda l, t: toll(l, t), "estimate_congestion_externality_route": extr}
    m = Model({}, [], b, attrs=True, methods=me, recs=r.ev.looprec, listeq=True)
    routes, out = {}, {}
    for e, en in m.play(evs, brks=r.ev.loopbrk):
        if e.kind == "set":
            routes[m.ev(e.loc.a[1], en)] = m.ev(e.value, en)
        else:
            out[e.loc.a[1]] = m.ev(e.args[0], en)
    if evs:
        lid, it = evs[0].lids[-1], evs[0].loops[-1]
        for (l, lv), w in r.ev.looprec.items():
            if l == lid and lv.a[0] in ("n_swap", "potential_n_swap", "total_t_gap"):
                try:
                    out[lv.a[0]] = m.ev(w[0])
                    for en in m.iters(it, (lv, w[1]), {}, lid):
                        out[lv.a[0]] = m.ev(w[1], en)
                except Undecided as ex:
                    out[lv.a[0]] = ex
    ids = {v["name"]: i for i, v in enumerate(vehs)}
    return {ids[n]: [l["id"] for l in rt] for n, rt in routes.items()}, out, vehs, sets, cost, [F(1, 4) < prob] * len(vehs)


def py_terms(r):
    if id(r) not in _memo:
        evs = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "local" and e.loc.a[0].a[0] == "routes_specified" or e.kind == "mut" and e.name == "append" and e.loc.kind == "a" and e.loc.a[1] in ("n_swaps", "potential_swaps", "t_gaps")]
        ts = {z for e in evs for y in list(e.g) + list(e.args or ()) + [e.value] + list(e.loops) if isinstance(y, V) for z in V_.walk(y)}
        ts |= {z for w in r.ev.looprec.values() for y in w if isinstance(y, V) for z in V_.walk(y)}
        world = {z.a[0] for z in ts if z.kind == "a" and z.a[1] == "VEHICLES" and z.a[0].kind in ("mcall", "call", "new")}
        sets_ = {z for z in ts if z.kind == "call" and z.a[0] in ("defaultdict", "collections.defaultdict")}
        draws = {z for z in ts if z.kind == "rnd" and z.a[0] == "random.random"}
        _memo[id(r)] = (world, sets_, draws, evs, r)
    return _memo[id(r)][:4]


def show(x):
    return x if not isinstance(x, list) else [int(y) if isinstance(y, F) else y for y in x]


@rule("P33", "R12", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P33"), 1, "properties of the elements of the C++ mode")
