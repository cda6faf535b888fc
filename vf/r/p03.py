from .common import *
from .p02 import FN

STORE = "len(L.vehicles) < L.number_of_lanes or L.vehicles[-L.number_of_lanes].x > L.delta_per_lane*W.DELTAN"


def origin_ok(r, e, v, cnd):
    return implied_by_origin(list(e.g), v, cnd)


@rule("P03", "R1", "a vehicle enters a link only if inflow capacity of one platoon remains and the last vehicle of its lane has cleared the jam spacing")
def r1(c):
    for lang in LANGS:
        for f in ("Node.generate", "Node.transfer"):
            r = R(c, lang, f)
            ent = entries(r)
            c.floor(len(ent), 1, "entries in %s" % r.qual)
            for e, L, v in ent:
                for txt, what in (("L.capacity_in_remain >= W.DELTAN", "inflow capacity of one platoon remains"), (STORE, "the receiving link has room behind its last vehicle")):
                    cnd = cond(lang, txt, L=L, W=r.ev.world)
                    ok = implied_by_origin(list(e.g), L, cnd) or implied_by_origin(list(e.g), v, cnd)
                    c.ob(ok, where(e), "a vehicle enters only if %s" % what + ("" if ok else " (not guaranteed)"), key="%s|%s" % (r.qual, what))


@rule("P03", "R2", "a vehicle is transferred only if outflow capacity of its link and the node's flow capacity remain for one platoon")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        for e, L, v in entries(r):
            cnd = cond(lang, "v.link.capacity_out_remain >= W.DELTAN", v=v, W=r.ev.world)
            ok = origin_ok(r, e, v, cnd)
            c.ob(ok, where(e), "a vehicle is transferred only if outflow capacity of one platoon remains on its link" + ("" if ok else " (not guaranteed)"), key="%s|out" % r.qual)
            cnd = cond(lang, "s.flow_capacity_remain >= W.DELTAN", W=r.ev.world)
            ok = implied(list(e.g), cnd)
            c.ob(ok, where(e), "a vehicle is transferred only if node capacity of one platoon remains" + ("" if ok else " (not guaranteed)"), key="%s|node" % r.qual)


def deduct(c, r, e, loc, gs, what, key):
    ds = [p for p in sets_at(r, loc)]
    ok = covers(e, ds, gs)
    c.ob(ok, where(e), "%s is used up by a moving platoon" % what + ("" if ok else " (not on every path)"), key="%s|%s|ded" % (r.qual, key))
    tot = fold(r, loc)
    for p in ds:
        d = delta_of(p)
        c.ob(same(d, V_.neg(r.spec("W.DELTAN"))), where(p), "%s decreases by one platoon, found %s" % (what, inl(d)), key="%s|%s|amount" % (r.qual, key))


@rule("P03", "R3", "each move uses up inflow, outflow and node capacity by one platoon")
def r3(c):
    for lang in LANGS:
        for f in ("Node.generate", "Node.transfer"):
            r = R(c, lang, f)
            for e, L, v in entries(r):
                deduct(c, r, e, r.spec("L.capacity_in_remain", L=L), (), "inflow capacity", "in")
                if f == "Node.transfer":
                    deduct(c, r, e, r.spec("v.link.capacity_out_remain", v=v), (), "outflow capacity", "out")
                    gs = [V_.not_(V_.eq(r.spec("s.flow_capacity"), NONE)), V_.le(V_.neg(r.spec("s.flow_capacity")))]
                    deduct(c, r, e, r.spec("s.flow_capacity_remain"), gs, "node capacity", "node")


@rule("P03", "R4", "remaining capacities are refilled by capacity times step width, only while less than one platoon per lane remains")
def r4(c):
    big = "10e10"
    for lang in LANGS:
        r = R(c, lang, "Link.in_out_flow_constraint" if lang == "py" else "Link.update")
        for d in ("in", "out"):
            loc = "s.capacity_%s_remain" % d
            want = "s.capacity_{0}_remain + s.capacity_{0}*W.DELTAT if s.capacity_{0}_remain < W.DELTAN*s.number_of_lanes else s.capacity_{0}_remain".format(d)
            if lang == "py":
                gs = [V_.not_(V_.eq(r.spec("s.capacity_in"), NONE)), V_.not_(V_.eq(r.spec("s.capacity_out"), NONE))]
            else:
                gs = [cond("cpp", "s.capacity_%s < 10e9" % d)]
            g = under(r.heap(loc), gs)
            formula(c, r, loc, want, "refill of the remaining %sflow capacity" % d, gs=gs, got=g)
        r = R(c, lang, "Node.flow_capacity_update")
        want = "s.flow_capacity_remain + s.flow_capacity*W.DELTAT if s.flow_capacity_remain < W.DELTAN*s.number_of_lanes else s.flow_capacity_remain"
        gs = [V_.not_(V_.eq(r.spec("s.flow_capacity"), NONE)), cond(lang, "s.flow_capacity >= 0"), cond(lang, "s.number_of_lanes >= 1")]
        formula(c, r, "s.flow_capacity_remain", [want, want.replace("s.number_of_lanes", "max(1, s.number_of_lanes)")], "refill of the remaining node capacity", gs=gs, got=under(r.heap("s.flow_capacity_remain"), gs))
    r = R(c, "py", "Link.update")
    cs = [e for e in r.calls("in_out_flow_constraint") if e.recv is r.self and not e.g]
    c.ob(len(cs) == 1 or not r.calls("in_out_flow_constraint") and bool(sets_at(r, r.spec("s.capacity_in_remain"))), head(r), "the refill happens once per step in the link update", key="refill-called")


@rule("P03", "R5", "remaining capacities are changed only by the refill and the moves")
def r5(c):
    for lang in LANGS:
        init = ["Link.__init__", "Link.Link", "Node.__init__", "Node.Node"]
        owner_rule(c, lang, "Link", "capacity_in_remain", init + ["Link.in_out_flow_constraint", "Link.update", "Node.generate", "Node.transfer"], 3)
        owner_rule(c, lang, "Link", "capacity_out_remain", init + ["Link.in_out_flow_constraint", "Link.update", "Node.transfer"], 2)
        owner_rule(c, lang, "Node", "flow_capacity_remain", init + ["Node.flow_capacity_update", "Node.adjust_node_capacity", "Node.transfer"], 2)


@rule("P03", "R6", "the remaining capacities start with the amount of one step")
def r6(c):
    def init(lang, q_, cap, none, extra=()):
        r = R(c, lang, q_)
        loc = "s.%s_remain" % cap
        got, k = r.heap(loc), r.heap("s." + cap)
        step = V_.mul(k, r.spec("W.DELTAT"))
        for g, v in cases(got):
            if any(contradict(list(g) + [x]) for x in extra):
                continue
            alts = [step, ZERO] + ([V_.mul(k, r.spec("W.DELTAN*W.tau"))] if lang == "cpp" else [])     # the step width of the C++ world
            if none is not None and implied(list(g), none):
                alts.append(r.spec("10e10"))
            if cap == "capacity_in":        # without a given inflow capacity the start is twice the capacity
                alts.append(k)
            ok = any(decide(v, w, list(g)) for w in alts)
            if not ok:
                vs = [decide(v, w, list(g)) for w in alts]
                ok = None if all(x is None for x in vs) else False
            if v is r.spec(loc):
                ok = True
            c.ob(ok, head(r), "%s_remain starts with the amount of one step" % cap + ("" if ok else ", found %s" % inl(v)), key="%s|init|%s" % (r.qual, cap))

    for lang in LANGS:
        q_ = "Link.__init__"
        init(lang, q_, "capacity_out", None)
        init(lang, q_, "capacity_in", None)
        q_ = "Node.__init__"
        p = mk("p", "flow_capacity")
        init(lang, q_, "flow_capacity", V_.eq(p, NONE) if lang == "py" else V_.lt(p))
        if proj(lang).has("Node.adjust_node_capacity"):
            init(lang, "Node.adjust_node_capacity", "flow_capacity", None)


def cases(v, g=()):
    if isinstance(v, V) and v.kind == "ite":
        return cases(v.a[1], g + tuple(V_.conj(v.a[0]))) + cases(v.a[2], g + tuple(V_.conj(V_.not_(v.a[0]))))
    return [(g, v)]


@rule("P03", "R7", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P03"), 1, "properties of the elements of the C++ mode")
