from .common import *


@rule("P06", "R1", "one car-following step moves a vehicle to min(free-flow position, max(own position, leader position minus spacing), link end)")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.carfollow")
        free = "(s.x + s.link.u*W.DELTAT)"
        y = "(min(%s, max(s.x, s.leader.x - s.link.delta_per_lane*W.DELTAN)) if s.leader != None else %s)" % (free, free)
        ys = [y, "max(s.x, %s)" % y]
        formula(c, r, "s.x_next", ["min(%s, s.link.length)" % x for x in ys], "next position of the car-following step")
        formula(c, r, "s.move_remain", ["(%s - s.link.length) if %s > s.link.length else s.move_remain" % (x, x) for x in ys], "movement left over at the link end")


@rule("P06", "R2", "a vehicle entering a link by transfer is placed at most at its left-over movement, never beyond the jam spacing behind its leader or the link end")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        ent = entries(r)
        c.floor(len(ent), 1, "entries in %s" % r.qual)
        for e, L, v in ent:
            env = dict(L=L, v=v)
            move = "v.move_remain*L.u/v.link.u"
            lead = "L.vehicles[-L.number_of_lanes].x_old - L.delta_per_lane*W.DELTAN"
            x = "min(L.length, min(%s, max(0, %s)) if len(L.vehicles) >= L.number_of_lanes else %s)" % (move, lead, move)
            vformula(c, r, e, "v.x", [x, "max(0, %s)" % x], "position on the new link", env=env)
            vformula(c, r, e, "v.move_remain", "0", "left-over movement is used up", env=env)
            vs = [x for x in sets_at(r, mk("a", v, "v"))]
            for x in vs:
                pos = vfold(r, e, mk("a", v, "x"))
                want = [r.spec("v.v + y/W.DELTAT", v=v, y=y) for y in [mk("a", v, "x"), pos] if y is not None]
                ok = True if any(same(x.value, w) for w in want) else None
                if ok is None:
                    d = V_.sub(x.value, mk("a", v, "v"))
                    if not any(y is mk("a", v, "v") for y in V_.walk(x.value)):
                        ok = False
                    elif not any(same(d, V_.mul(y, w)) for y in [r.spec("v.v", v=v)] for w in (ONE,)) and V_.num(d) is not None:
                        ok = False
                    elif want:
                        ds = [decide(x.value, w) for w in want]
                        ok = None if None in ds else False
                c.ob(ok, where(x), "the movement on the new link is added to the speed" + ("" if ok else "; found %s" % inl(x.value)), key="%s|v" % r.qual)
            c.ob(bool(vs), where(e), "the movement on the new link is added to the speed", key="%s|vset" % r.qual)
        r = R(c, lang, "Node.generate")
        for e, L, v in entries(r):
            vformula(c, r, e, "v.x", "0", "a departing vehicle starts at the beginning of its link", env=dict(L=L, v=v))
            if vfold(r, e, mk("a", v, "v")) is not None:
                vformula(c, r, e, "v.v", ["L.u", "0"], "a departing vehicle starts with at most the free-flow speed of its link", env=dict(L=L, v=v))


@rule("P06", "R3", "each running vehicle moves to the position computed by its car-following step, speed and distance follow from that move")
def r3(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.update")
        run_ = V_.eq(r.spec("s.state"), r.st("run"))
        ev = [e for e in r.sets("x_old") if base_of(e.loc) is r.self]
        c.ob(bool(ev), head(r), "the position before the move is kept", key="%s|x_old" % r.qual)
        for loc, want, what in (("s.x_old", "s.x", "the previous position is kept"), ("s.v", "(s.x_next - s.x)/W.DELTAT", "speed is displacement over step width"), ("s.distance_traveled", "s.distance_traveled + s.x_next - s.x", "distance grows by the displacement"), ("s.x", "s.x_next", "the vehicle moves to the computed position")):
            l = r.spec(loc)
            evs = [p for p in sets_at(r, l)]
            got = under(fold(r, l), [run_])
            formula(c, r, loc, want, what, gs=[run_], got=got)
            for p in evs:
                ok = implied(p.g, run_)
                c.ob(ok, where(p), "only running vehicles move", key="%s|%s|run" % (r.qual, loc))


@rule("P06", "R4", "positions are changed only by the movement steps")
def r4(c):
    for lang in LANGS:
        init = ["Vehicle.__init__", "Vehicle.Vehicle"]
        owner_rule(c, lang, "Vehicle", "x", init + ["Node.generate", "Node.transfer", "Vehicle.update", "Vehicle.end_trip"], 4)
        owner_rule(c, lang, "Vehicle", "x_next", init + ["Vehicle.carfollow"], 2)
        owner_rule(c, lang, "Vehicle", "x_old", init + ["Vehicle.update"], 1)
        owner_rule(c, lang, "Vehicle", "move_remain", init + ["Vehicle.carfollow", "Node.transfer"], 2)
