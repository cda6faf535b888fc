from .common import *
from .p01 import pair

FN = ("Node.generate", "Node.transfer", "Vehicle.end_trip")


def curve_sets(r, field):
    """element updates of a cumulative-count series: [(event, link)]"""
    return [(e, base_of(root(e.loc))) for e in r.isets(field)]


def now_index(r, L, field):
    return r.spec("L.%s[-1]" % field, L=L) if r.lang == "py" else r.spec("L.%s[W.T]" % field, L=L)


def check_counts(c, r, moves, field, what):
    cs = curve_sets(r, field)
    for e, L in moves:
        loc = now_index(r, L, field)
        mine = [p for p, b in cs if b is L]
        on = [p for p in mine if p.loc is loc]
        ok = covers(e, on)
        c.ob(ok, where(e), "%s is counted in the current step of the link" % what + ("" if ok else ": no increment of the current entry whenever the vehicle moves"), key="%s|%s|counted" % (r.qual, field))
    for p, b in cs:
        loc = now_index(r, b, field)
        c.ob(p.loc is loc, where(p), "the count is added to the current step", key="%s|%s|index" % (r.qual, field))
        d = delta_of(p)
        c.ob(same(d, r.spec("W.DELTAN")), where(p), "the count grows by one platoon, found %s" % inl(d), key="%s|%s|delta" % (r.qual, field))
        ms = [e for e, L in moves if L is b]
        ok = covers(p, ms)
        c.ob(ok, where(p), "the count grows only when a vehicle %s" % what, key="%s|%s|only" % (r.qual, field))
        dup = [p2 for p2, b2 in cs if p2 is not p and b2 is b and not contradict(list(p.g) + list(p2.g))]
        c.ob(not dup, where(p), "counted once", key="%s|%s|once" % (r.qual, field))


@rule("P02", "R1", "every entry of a vehicle into a link adds one platoon to the link's cumulative arrivals of the current step, and nothing else does")
def r1(c):
    for lang in LANGS:
        n = 0
        for f in FN:
            r = R(c, lang, f)
            mv = [(e, L) for e, L, v in entries(r)]
            n += len(mv)
            check_counts(c, r, mv, "cum_arrival", "entering vehicle")
        c.floor(n, 2, "entries (%s)" % lang)


@rule("P02", "R2", "every exit of a vehicle from a link adds one platoon to the link's cumulative departures of the current step, and nothing else does")
def r2(c):
    for lang in LANGS:
        n = 0
        for f in FN:
            r = R(c, lang, f)
            mv = exits(r)
            n += len(mv)
            check_counts(c, r, mv, "cum_departure", "leaving vehicle")
        c.floor(n, 2, "exits (%s)" % lang)


@rule("P02", "R3", "each step starts from the counts of the previous step")
def r3(c):
    for f in ("cum_arrival", "cum_departure"):
        r = R(c, "py", "Link.update")
        got = r.heap("s." + f)
        last = r.spec("s.%s[-1]" % f)
        has = [cond("py", "len(s.cum_arrival) >= 1"), cond("py", "len(s.cum_departure) >= 1")]
        no = [cond("py", "len(s.cum_arrival) == 0"), cond("py", "len(s.cum_departure) == 0")]
        fld = r.spec("s." + f)
        for gs, want, t in ((has, mk("appended", fld, last), "carries the last count over"), (no, mk("appended", fld, ZERO), "starts at zero")):
            g = under(got, gs)
            ok = same(g, want, gs) or (g.kind == "appended" and g.a[0] is fld and same(g.a[1], want.a[1], gs))
            ok = ok or (None if opaque_in(g, (fld,)) else False)
            c.ob(ok, head(r), "a new step of %s %s" % (f, t) + ("" if ok else ", found %s" % inl(g)), key="%s|%s|%s" % (r.qual, f, t))
        r = R(c, "cpp", "Link.update")
        gs = [V_.lt(V_.neg(r.spec("W.T")))]
        formula(c, r, "s.%s[W.T]" % f, "s.%s[W.T-1]" % f, "a new step of the C++ %s carries the last count over" % f, gs=gs + [V_.not_(V_.eq(r.spec("W.T"), ZERO))])


@rule("P02", "R4", "cumulative counts are changed only by link update, departure, transfer and trip end")
def r4(c):
    for lang in LANGS:
        al = ["Link.__init__", "Link.Link", "Link.init_after_tmax_fix", "World.initialize_adj_matrix", "World.set_t_max", "Link.update"]
        owner_rule(c, lang, "Link", "cum_arrival", al + ["Node.generate", "Node.transfer"], 3)
        owner_rule(c, lang, "Link", "cum_departure", al + ["Node.transfer", "Vehicle.end_trip"], 3)


@rule("P02", "R5", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P02"), 1, "properties of the elements of the C++ mode")


@rule("P02", "R6", "the table of cumulative counts is, on models of links, that of the recorded counts")
def live(c):
    from .. import stats
    c.floor(stats.check(c, "P02"), 1, "analyses and tables")
