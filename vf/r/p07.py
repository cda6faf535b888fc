from .common import *


@rule("P07", "R1", "an entering vehicle takes the lane after the one of the last vehicle, cyclically; lane 0 on an empty link")
def r1(c):
    for lang in LANGS:
        for f in ("Node.generate", "Node.transfer"):
            r = R(c, lang, f)
            ent = entries(r)
            c.floor(len(ent), 1, "entries in %s" % r.qual)
            for e, L, v in ent:
                vformula(c, r, e, "v.lane", "(L.vehicles[-1].lane + 1) % L.number_of_lanes if len(L.vehicles) > 0 else 0", "lane of the entering vehicle", env=dict(L=L, v=v))


@rule("P07", "R2", "the leader of an entering vehicle is the last vehicle of the same lane (as many vehicles ahead as there are lanes), none if there is none; that vehicle's follower is set accordingly")
def r2(c):
    for lang in LANGS:
        for f in ("Node.generate", "Node.transfer"):
            r = R(c, lang, f)
            for e, L, v in entries(r):
                env = dict(L=L, v=v)
                vformula(c, r, e, "v.leader", "L.vehicles[-L.number_of_lanes] if len(L.vehicles) >= L.number_of_lanes else None", "leader of the entering vehicle", env=env)
                ld = r.spec("L.vehicles[-L.number_of_lanes]", L=L)
                has = cond(lang, "len(L.vehicles) >= L.number_of_lanes", L=L)
                fs = [p for p in r.sets("follower") if p.value is v]
                good = [p for p in fs if base_of(p.loc) is ld or under(base_of(p.loc), list(e.g) + [has]) is ld]
                ok = covers(e, good, [has]) and all(covers(p, [e]) for p in good)
                c.ob(ok, where(e), "the leader's follower becomes the entering vehicle" + ("" if ok else " (not on every path)"), key="%s|follower" % r.qual)
                bad = [p for p in fs if p not in good]
                c.ob(not bad, where(bad[0]) if bad else where(e), "no other vehicle gets the entering vehicle as follower", key="%s|badfollower" % r.qual)


@rule("P07", "R3", "a vehicle leaving a link is no longer the leader of its follower")
def r3(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        for e, L, v in entries(r):
            fl = mk("a", v, "follower")
            has = V_.not_(V_.eq(fl, NONE))
            cl = [p for p in sets_at(r, mk("a", fl, "leader")) if p.value is NONE]
            ok = covers(e, cl, [has])
            c.ob(ok, where(e), "the old follower of a transferred vehicle loses its leader" + ("" if ok else " (not on every path)"), key="%s|clear" % r.qual)
            evs = [p for p in sets_at(r, fl)]
            ok = covers(e, [p for p in evs if p.value is NONE], [has])
            c.ob(ok, where(e), "a transferred vehicle has no follower yet on the new link" + ("" if ok else " (the follower reference is stale)"), key="%s|clearf" % r.qual)
        r = R(c, lang, "Vehicle.end_trip")
        fl = r.spec("s.follower")
        has = V_.not_(V_.eq(fl, NONE))
        cl = [p for p in sets_at(r, mk("a", fl, "leader")) if p.value is NONE]
        ok = bool(cl) and implied([has], V_.or_([V_.and_(p.g) for p in cl]))
        c.ob(ok, head(r), "the follower of an ended vehicle loses its leader" + ("" if ok else " (not on every path)"), key="%s|clear" % r.qual)


@rule("P07", "R4", "leader, follower and lane are changed only by departure, transfer and trip end")
def r4(c):
    for lang in LANGS:
        init = ["Vehicle.__init__", "Vehicle.Vehicle"]
        mv = ["Node.generate", "Node.transfer", "Vehicle.end_trip"]
        owner_rule(c, lang, "Vehicle", "leader", init + mv, 4)
        owner_rule(c, lang, "Vehicle", "follower", init + mv, 3)
        owner_rule(c, lang, "Vehicle", "lane", init + mv, 3)


@rule("P07", "R5", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P07"), 1, "properties of the elements of the C++ mode")
