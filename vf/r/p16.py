from .common import *
from .. import binds

INST_PY = "s.length/s.speed if s.speed > 0 else s.length/(s.u/100)"
AVG = "sum(v.v for v in s.vehicles)/len(s.vehicles)"
INST_CPP = "((s.length/(%s) if (%s) > 0 else s.length/(s.u/100)) if len(s.vehicles) else s.length/s.u)" % (AVG, AVG)
REFRESH = "W.T % W.instantaneous_TT_timestep_interval == 0"


@rule("P16", "R1", "the instantaneous travel time is length over the average speed, refreshed in every interval")
def r1(c):
    sp = R(c, "py", "Link.speed")
    c.ob(decide(sp.r.ret, sp.spec("(%s) if len(s.vehicles) else s.u" % AVG)), head(sp), "the speed of a link is the average speed of its vehicles, or its free-flow speed when empty; found %s" % V_.show(sp.r.ret)[:200], key="speed")
    r = R(c, "py", "Link.set_traveltime_instant")
    want = r.spec("(%s) if %s else s.traveltime_instant[-1]" % (INST_PY, REFRESH))
    ap = r.muts("traveltime_instant")
    c.floor(len(ap), 1, "records of the instantaneous travel time")
    s_ = r.spec("s.speed")
    for e in ap:
        v = e.args[0] if e.args else None
        ok = e.name == "append" and (decide(v, want, e.g) or decide(V_.subst(v, lambda y: sp.r.ret if y is s_ else None), V_.subst(want, lambda y: sp.r.ret if y is s_ else None), [V_.subst(x, lambda y: sp.r.ret if y is s_ else None) for x in e.g]))
        c.ob(ok, where(e), "recorded value is length over average speed (or the previous one between refreshes)", key="%s|value" % r.qual)
    when(c, r, ap, TRUE, "a value is recorded in every step")
    c.ob(all(contradict(list(a.g) + list(b.g)) for i, a in enumerate(ap) for b in ap[:i]), head(r), "only one value is recorded per step", key="%s|once" % r.qual)
    r = R(c, "cpp", "Link.set_travel_time")
    loc = r.spec("s.traveltime_instant[W.T]")
    formula(c, r, loc, ["(%s) if %s else (s.traveltime_instant[W.T-1] if W.T > 0 else s.traveltime_instant[W.T])" % (INST_CPP, REFRESH), "(%s) if %s else s.traveltime_instant[W.T-1]" % (INST_CPP, REFRESH)], "instantaneous travel time of the step")
    for e in r.events:
        if e.kind in ("set", "mut") and "traveltime_instant" in V_.show(e.loc):
            c.ob(e.loc is loc, where(e), "only the value of the current step is written", key="%s|loc" % r.qual)


@rule("P16", "R2", "every link records its instantaneous travel time once per step, from the state at the start of the step")
def r2(c):
    for lang, nm in (("py", "set_traveltime_instant"), ("cpp", "set_travel_time")):
        r = R(c, lang, "Link.update")
        cs = [e for e in r.calls(nm)]
        c.ob(len(cs) == 1 and not cs[0].g and cs[0].recv is r.self, head(r), "recorded once in every update of the link (%d calls)" % len(cs), key="%s|call" % r.qual)
        for f in callers(proj(lang), nm):
            c.ob(norm_q(f.qual) == norm_q(q(lang, "Link.update")) or allowed_writer(proj(lang), f, {norm_q(q(lang, "Link.update"))}), "%s (%s)" % (f.line, f.qual), "recorded only by the update of the link", key="%s|caller|%s" % (lang, norm_q(f.qual)))
    owner_rule(c, "py", "Link", "traveltime_instant", ["Link.__init__", "Link.set_traveltime_instant"], 2)
    owner_rule(c, "cpp", "Link", "traveltime_instant", ["Link.Link", "Link.set_travel_time", "World.set_t_max"], 3)


def recorded(r):
    """[(event, link, index, value)] of records of actual travel times"""
    out = []
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0].kind == "a" and e.loc.a[0].a[1] == "traveltime_actual":
            out.append((e, e.loc.a[0].a[0], e.loc.a[1], e.value))
        elif e.kind == "mut" and e.loc.kind == "a" and e.loc.a[1] == "traveltime_real_events" and e.name == "append":
            t = e.args[0]
            if t.kind in ("tuple", "list", "call") or True:
                a = t.a[0] if t.kind in ("tuple", "list") else (t.a[1] if t.kind == "call" else ())
                if len(a) == 2:
                    out.append((e, e.loc.a[0], a[0], a[1]))
                else:
                    out.append((e, e.loc.a[0], None, None))
    return out


@rule("P16", "R3", "leaving a link records the time spent on it, for all steps from the entry on")
def r3(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        rec = recorded(r)
        en = entries(r)
        c.floor(len(en), 1, "moves to the next link")
        for e, L, v in en:
            mine = [x for x in rec if x[1] is r.spec("v.link", v=v)]
            c.ob(covers(e, [x[0] for x in mine]) and all(covers(x[0], [e]) for x in mine) and len(mine) == 1, where(e), "each move records the travel time of the link left, once", key="%s|moved" % r.qual)
            for x in mine:
                check(c, r, x, v, "W.T*W.DELTAT - v.link_arrival_time")
        c.ob(len(rec) == len(en), head(r), "travel times are recorded only for moves", key="%s|only" % r.qual)
        r = R(c, lang, "Vehicle.end_trip")
        rec = recorded(r)
        c.ob(len(rec) == 1 and not rec[0][0].g and rec[0][1] is r.spec("s.link"), head(r), "every trip end records the travel time of the last link, once (%d records)" % len(rec), key="%s|end" % r.qual)
        for x in rec:
            check(c, r, x, r.self, "(W.T+1)*W.DELTAT - v.link_arrival_time")
        owner_rule(c, lang, "Link", "traveltime_actual" if lang == "py" else "traveltime_real_events", ["Link.__init__", "Link.Link", "Link.init_after_tmax_fix", "Node.transfer", "Vehicle.end_trip"], 4 if lang == "py" else 3)


def check(c, r, x, v, val):
    e, L, idx, value = x
    env = {"v": v}
    if idx is None:
        c.ob(None, where(e), "recorded pair not recognised", key="%s|pair" % r.qual)
        return
    val = r.spec(val, **env)
    c.ob(decide(abstract(value, env), abstract(val, env), [abstract(g, env) for g in e.g]), where(e), "recorded travel time is the time since the entry to the link; found %s" % V_.show(abstract(value, env))[:200], key="%s|tt" % r.qual)
    i0 = r.spec("int(v.link_arrival_time/W.DELTAT)", **env)
    if idx.kind == "slice":
        ok = decide(abstract(idx.a[0], env), abstract(i0, env)) and idx.a[1] is NONE and len(idx.a) == 2 or None if idx.kind == "slice" and isinstance(idx.a[0], V) else False
        ok = decide(abstract(idx.a[0], env), abstract(i0, env)) if isinstance(idx.a[0], V) else False
        c.ob(ok, where(e), "recorded from the step of the entry to the link on; found %s" % V_.show(abstract(idx.a[0], env))[:100] if isinstance(idx.a[0], V) else "recorded from the step of the entry on", key="%s|idx" % r.qual)
        c.ob(idx.a[1] in (None, NONE), where(e), "recorded for all later steps", key="%s|later" % r.qual)
    else:
        alt = r.spec("max(0, i)", i=i0)
        a = abstract(idx, env)
        ok = decide(a, abstract(i0, env)) or decide(a, abstract(alt, env))
        c.ob(ok, where(e), "recorded from the step of the entry to the link on; found %s" % V_.show(a)[:100], key="%s|idx" % r.qual)


@rule("P16", "R4", "the time of entry is the current time whenever a vehicle enters a link")
def r4(c):
    for lang in LANGS:
        for fn in ("Node.generate", "Node.transfer"):
            r = R(c, lang, fn, inline=("record_travel_time",))
            for e, L, v in entries(r):
                vformula(c, r, e, mk("a", v, "link_arrival_time" if lang == "py" else "arrival_time_link"), "W.T*W.DELTAT", "entry time is the current time", env={"v": v}, key="entry")
        owner_rule(c, lang, "Vehicle", "link_arrival_time", ["Vehicle.__init__", "Vehicle.Vehicle", "Node.generate", "Node.transfer", "Vehicle.end_trip", "Vehicle.record_travel_time"], 2)


@rule("P16", "R5", "before any exit the actual travel time of every step is the free-flow one")
def r5(c):
    r = R(c, "py", "Link.init_after_tmax_fix")
    v = r.heap("s.traveltime_actual")
    while v.kind == "call" and v.a[0] in ("np.array", "list") and v.a[1]:
        v = v.a[1][0]
    alt = [r.spec("[s.length/s.u for t in range(W.TSIZE)]"), r.spec("np.full(W.TSIZE, s.length/s.u)"), r.spec("np.ones(W.TSIZE)*s.length/s.u")]
    ok = any(same(v, a) for a in alt)
    if not ok and v.kind == "comp":
        ok = decide(v.a[1], r.spec("s.length/s.u")) and v.a[3] is TRUE and decide(v.a[2], r.spec("range(W.TSIZE)"))
    elif not ok:
        ok = None
    c.ob(ok, head(r), "initial actual travel times: %s" % V_.show(v)[:200], key="init|py")
    for fn, size, ff in (("Link.Link", "W.total_timesteps", "s.length/s.u"), ("World.set_t_max", None, None)):
        r = R(c, "cpp", fn)
        ev = [e for e in r.muts("traveltime_real", "resize", "assign")]
        c.floor(len(ev), 1, "allocation of actual travel times in %s" % fn)
        for e in ev:
            L = base_of(root(e.loc))
            got = e.args[1] if len(e.args) > 1 else None
            ff = r.spec("l.length/l.u", l=L)
            alts = [ff]
            if fn == "Link.Link":
                alts += [r.heap("s.length/s.u") if False else V_.div(r.heap("s.length"), r.heap("s.u"))]
            c.ob(got is not None and any(decide(got, a) for a in alts), where(e), "initial actual travel time is the free-flow travel time; found %s" % V_.show(got)[:100], key="%s|ff" % r.qual)
            want = r.heap("s.total_timesteps") if fn == "World.set_t_max" else r.spec(size)
            c.ob(decide(e.args[0], want), where(e), "one value per step of the simulation", key="%s|size" % r.qual)


@rule("P16", "R6", "buffered travel times of the C++ engine are replayed in order and before every use")
def r6(c):
    r = R(c, "cpp", "Link.ensure_traveltime_real")
    st = [e for e in r.events if e.kind == "set" and e.loc.kind == "i" and e.loc.a[0] is r.spec("s.traveltime_real")]
    c.floor(len(st), 1, "replayed travel times")
    k0 = r.spec("s.traveltime_real_events_applied")
    n = r.spec("len(s.traveltime_real_events)")
    for e in st:
        loops = e.loops
        ok = None
        if len(loops) == 2 and all(x.kind == "range" for x in loops):
            k = mk("elem", loops[0])
            ev = mk("i", r.spec("s.traveltime_real_events"), k)
            nx = mk("i", r.spec("s.traveltime_real_events"), V_.add(k, ONE))
            size = r.spec("len(s.traveltime_real)")
            ok = same(loops[0].a[0], k0) and same(loops[0].a[1], n)
            c.ob(ok, where(e), "all pending records are replayed in order", key="%s|all" % r.qual)
            lo, hi = loops[1].a[0], loops[1].a[1]
            c.ob(decide(lo, mk("i", ev, ZERO)), where(e), "a record holds from its own step on", key="%s|from" % r.qual)
            his = [size, r.spec("min(a, b) if k + 1 < n else b", a=mk("i", nx, ZERO), b=size, k=k, n=n)]
            c.ob(any(decide(hi, h) for h in his), where(e), "a record holds until the next one starts; found %s" % V_.show(hi)[:300], key="%s|to" % r.qual)
            c.ob(decide(e.value, mk("i", ev, ONE)), where(e), "the recorded value is used", key="%s|value" % r.qual)
            c.ob(e.loc.a[1] is mk("elem", loops[1]), where(e), "every step of the record is set", key="%s|index" % r.qual)
            c.ob(not rel_guards(e), where(e), "no record is left out", key="%s|allsteps" % r.qual)
        else:
            c.ob(None, where(e), "replay loop not recognised", key="%s|all" % r.qual)
    v = r.heap("s.traveltime_real_events_applied")
    c.ob(decide(v, r.spec("len(s.traveltime_real_events)")) or decide(v, r.spec("max(len(s.traveltime_real_events), s.traveltime_real_events_applied)")), head(r), "replayed records are not replayed again; found %s" % V_.show(v)[:200], key="%s|applied" % r.qual)
    pr = proj("cpp")
    n = 0
    for f in pr.allf:
        if norm_q(f.qual) in (norm_q("Link::ensure_traveltime_real"), norm_q("Link::Link"), norm_q("World::set_t_max")):
            continue
        rd, en = bases(f.body, "traveltime_real"), bases(f.body, "ensure_traveltime_real")
        if not rd:
            continue
        n += 1
        c.analysed.add(f.qual)
        ok = True if rd <= en else None
        if not en:
            cl = callers(pr, f.name)
            if f.cls and binds.exported(f.qual.split("::")[0], f.name):   # also called from Python as it is
                cl = []
            ok = None if cl and all(bases(g.body, "ensure_traveltime_real") for g in cl) else False
        c.ob(ok, "%s (%s)" % (f.line, f.qual), "pending records are replayed before travel times are read", key="ensure|%s" % norm_q(f.qual))
    c.floor(n, 2, "readers of actual travel times")


def bases(x, field, out=None):
    """syntactic owners of a field access"""
    out = set() if out is None else out
    if isinstance(x, tuple) and len(x) >= 3 and x[0] == "attr" and x[2] == field:
        out.add(str(x[1]))
    if isinstance(x, (tuple, list)):
        for y in x:
            bases(y, field, out)
    return out


@rule("P16", "R7", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P16"), 1, "properties of the elements of the C++ mode")


@rule("P16", "R8", "the table of link travel times is, on models of links, that of the recorded ones")
def live(c):
    from .. import stats
    c.floor(stats.check(c, "P16"), 1, "analyses and tables")
