from .common import *
from .p09 import time_loop

END = "min((int(until_t/W.DELTAT) if until_t != None else (W.T + int(duration_t2/W.DELTAT) - 1 if duration_t2 != None else (W.T + int(duration_t/W.DELTAT) if duration_t != None else W.TSIZE))), W.TSIZE)"
END_LOOSE = END[4:-len(", W.TSIZE)")]
MODES = (("py", "World.exec_simulation"), ("wrap", "CppWorld.exec_simulation"))


def end_of(r, loose=False):
    return r.spec((END_LOOSE if loose else END).replace("W.", "s."), until_t=mk("p", "until_t"), duration_t=mk("p", "duration_t"), duration_t2=mk("p", "duration_t2"))


def wrun(c, q_, **kw):
    r = run("wrap", q_, **kw)
    c.used(r)
    return r


def get(c, lang, q_):
    return R(c, lang, q_) if lang != "wrap" else wrun(c, q_)


@rule("P17", "R1", "a run covers the steps from the last executed one up to the requested end, and never beyond the simulation time")
def r1(c):
    r = R(c, "py", "World.exec_simulation")
    tl = time_loop(c, r)
    it = tl.loops[0]
    ok = it.kind == "range" and len(it.a) == 2
    c.ob(ok and same(it.a[0], r.spec("W.T")), where(tl), "a run starts at the step after the last executed one", key="py|start")
    if ok:
        T, n = mk("elem", it), r.spec("W.TSIZE")
        b = it.a[1]
        br = r.ev.loopbrk.get(tl.lids[0], FALSE)
        last = V_.eq(T, V_.sub(n, ONE))
        gs = list(tl.lg[0]) if tl.lg else []
        e1 = V_.add(end_of(r), ONE)
        e2 = V_.add(end_of(r, True), ONE)
        stop = br is not FALSE and (equiv(br, last) or equiv(br, V_.le(V_.sub(V_.sub(n, ONE), T))))
        full = same(b, e1, gs) or same(b, e2, gs)
        cut = same(b, r.spec("min(a, n)", a=e1, n=n), gs) or same(b, r.spec("min(a, n)", a=e2, n=n), gs)
        c.ob((full and stop) or (cut and (stop or br is FALSE)), where(tl), "a run ends at the requested step or at the last step of the simulation" + ("" if (full or cut) else ", found the range up to %s" % inl(b)) + ("" if not full or stop else ", found the stop condition %s" % inl(br)), key="py|end")
    r = wrun(c, "CppWorld.exec_simulation")
    cs = r.calls("main_loop")
    c.floor(len(cs), 1, "runs of the C++ engine")
    for e in cs:
        a = e.args[1] if len(e.args) > 1 else None
        d = None if a is None else V_.sub(V_.div(a, r.spec("s.DELTAT")), end_of(r))
        k = cval(d)
        c.ob(d is not None and (k is not None and 0 < k < 1), where(e), "the C++ engine is run up to the requested step" + (": the given time is the very start of that step, which rounding may put into the step before" if k == 0 else "" if k is not None and 0 < k < 1 else ", found %s" % inl(a)), key="wrap|end")
        c.ob(cval(e.args[0]) is not None and cval(e.args[0]) < 0, where(e), "the end of the run is given as a time", key="wrap|mode")
    c.ob(len(cs) == 1, where(cs[0]), "the engine is run once per call", key="wrap|once")
    r = R(c, "cpp", "World.exec_simulation")
    tl = time_loop(c, r)
    it = tl.loops[0]
    ok = it.kind == "range" and len(it.a) == 2
    c.ob(ok and same(it.a[0], r.spec("W.T")), where(tl), "a run starts at the step after the last executed one (C++)", key="cpp|start")
    if ok:
        n = r.spec("W.total_timesteps")
        P = lambda x: mk("p", x)
        env = dict(u=P("until_t"), d=P("duration_t"), n=n, t=r.spec("W.time"), dt=r.spec("W.DELTAT"))
        want = r.spec("min((n if d < 0 and u < 0 else (floor((d + t)/dt) + 1 if u < 0 else floor(u/dt) + 1)), n)", **env)
        gs = list(tl.lg[0]) if tl.lg else []
        bound = V_.le(V_.sub(it.a[1], n))
        c.ob(decide(it.a[1], want, gs), where(tl), "a run ends after the step of the given time or at the end of the simulation time (C++), found %s" % inl(it.a[1]), key="cpp|end")
        c.ob(implied(gs, bound) or None, where(tl), "no step beyond the simulation time (C++)", key="cpp|bound")
        c.ob(r.ev.loopbrk.get(tl.lids[0], FALSE) is FALSE, where(tl), "no step is left out (C++)", key="cpp|break")


def cval(v):
    return V_.num(v) if isinstance(v, V) else None


@rule("P17", "R2", "the scenario is finalised exactly once, before the first step")
def r2(c):
    for lang, q_ in MODES:
        r = get(c, lang, q_)
        cs = r.calls("finalize_scenario")
        alts = [cond(lang, w, W=r.self) for w in ("W.finalized == 0", "not W.finalized", "W.finalized != 1")]
        when(c, r, cs, alts, "finalised when it was not yet", key="fin")
        first = min(e.seq for e in cs) if cs else 0
        late = [e for e in r.events if e.kind in ("set", "mut") and e.seq < first] + [e for e in r.calls("update", "generate", "transfer", "main_loop") if e.seq < first]
        c.ob(bool(cs) and not late, head(r), "finalised before anything else", key="%s|first" % r.qual)
        f = get(c, lang, q_.replace("exec_simulation", "finalize_scenario"))
        formula(c, f, "s.finalized", ["1", "True"], "the scenario is marked as finalised")
        ini = f
        if lang == "wrap":
            ini = wrun(c, "CppWorld._setup_analyzer")
            c.ob(bool([e for e in f.calls("_setup_analyzer") if not e.g]), head(f), "the clock is set when finalising", key="wrap|setup")
            st = [e for e in f.calls("set_t_max") if not e.g]
            c.ob(len(st) == 1 and same(st[0].args[0], f.heap("s.TMAX")), head(f), "the C++ engine gets the final simulation time", key="wrap|tmax")
            adj = [e for e in f.calls("initialize_adj_matrix") if not e.g]
            c.ob(len(adj) == 1 and adj[0].seq > st[0].seq if st and adj else False, head(f), "the C++ engine is initialised once", key="wrap|adj")
        formula(c, ini, "s.T", "0", "the clock starts at 0")
        formula(c, ini, "s.TIME", "0", "the time starts at 0")
        tm = f.heap("s.TMAX") if ini is f else ini.spec("s.TMAX")
        g = ini.heap("s.TSIZE")
        c.ob(decide(g, ini.spec("int(t/s.DELTAT)", t=tm)), head(ini), "the number of steps is simulation time over step width; found %s" % inl(g), key="%s|tsize" % lang)
        n = 0
        cls = "World" if lang == "py" else "CppWorld"
        fn = ["__init__", "finalize_scenario", "_setup_analyzer"]
        for w, e in writers(lang, cls, "finalized"):
            n += 1
            ok = norm_q(w.qual).split(".")[-1] in fn
            c.ob(ok, where(e), "finalisation mark in %s" % w.qual, key="owner|%s|%s" % (lang, norm_q(w.qual)))
        c.floor(n, 2, "writes of the finalisation mark (%s)" % lang)


@rule("P17", "R3", "a call reports whether the simulation is finished, and a finished simulation executes no step")
def r3(c):
    for lang, q_ in MODES:
        r = get(c, lang, q_)
        loc, n = r.spec("s.T"), r.spec("s.TSIZE")
        term = r.calls("simulation_terminated")
        c.floor(len(r.r.returns), 2, "returns")
        ones = 0
        for st, v in r.r.returns:
            for x, path in spec_vals(v):
                k = cval(x)
                T = st.heap.get(loc, loc)
                g = list(st.g) + list(path)
                at = V_.eq(T, n)
                over = V_.le(V_.sub(n, T))
                if k == 1:
                    ones += 1
                    ok = implied(g, at) or implied(g, over)
                    c.ob(ok, head(r), "'finished' is reported only at the end of the simulation time", key="%s|one" % r.qual)
                elif k == 0:
                    ok = implied(g, V_.not_(at)) or implied(g, V_.not_(over))
                    c.ob(ok, head(r), "'not finished' is reported only before the end", key="%s|zero" % r.qual)
                else:
                    c.ob(False, head(r), "exec_simulation returns 1 or 0, found %s" % inl(x), key="%s|ret" % r.qual)
        c.floor(ones, 1, "reports of the end")
        fin = V_.or_([V_.and_(list(st.g) + list(p)) for st, v in r.r.returns for x, p in spec_vals(v) if cval(x) == 1])
        c.ob(bool(term) and equiv(happens(term), fin), head(r), "the closing work is done exactly when the end is reported", key="%s|term" % r.qual)
        done = [V_.eq(r.spec("s.T"), n), V_.eq(end_of(r), n)]
        steps = [e for e in (r.calls("update", "generate", "transfer", "carfollow") if lang == "py" else r.calls("main_loop"))]
        c.floor(len(steps), 1, "steps")
        for e in steps:
            c.ob(contradict(list(e.g) + done), where(e), "no step is executed when the simulation is at its end", key="%s|done" % r.qual)
        back = V_.lt(V_.sub(end_of(r), r.spec("s.T")))
        rs = r.raises()
        c.ob(bool(rs) and equiv(happens(rs), back, [V_.not_(V_.and_(done))]) or None if rs else False, head(r), "an end before the current step raises an error", key="%s|raise" % r.qual)
        k = get(c, lang, q_.replace("exec_simulation", "check_simulation_ongoing"))
        got = k.r.ret
        w = cond(lang, "W.finalized == 0 or W.T < W.TSIZE", W=k.self)
        w2 = cond(lang, "not W.finalized or W.T <= W.TSIZE - 1", W=k.self)
        b = V_.truthy(got)
        c.ob(equiv(b, w) or equiv(b, w2), head(k), "the simulation goes on until its last step is done; found %s" % inl(got), key="%s|ongoing" % lang)
    k = R(c, "cpp", "World.check_simulation_ongoing")
    c.ob(equiv(V_.truthy(k.r.ret), cond("cpp", "W.T < W.total_timesteps", W=k.self)), head(k), "the simulation goes on until its last step is done (C++)", key="cpp|ongoing")


def spec_vals(v, path=()):
    if isinstance(v, V) and v.kind == "ite":
        c = v.a[0]
        return spec_vals(v.a[1], path + tuple(V_.conj(c))) + spec_vals(v.a[2], path + tuple(V_.conj(V_.not_(c))))
    return [(v, path)]


@rule("P17", "R4", "pausing changes nothing: outside the steps only the clock is set, and no step keeps state in local variables")
def r4(c):
    OKCALL = {"py": {"finalize_scenario", "print", "show_simulation_progress", "simulation_terminated", "Exception", "ValueError", "range", "int", "min", "check_simulation_ongoing"},
              "wrap": {"finalize_scenario", "print", "show_simulation_progress", "simulation_terminated", "Exception", "ValueError", "main_loop", "_sync_from_cpp", "check_simulation_ongoing"}}
    for lang, q_ in MODES:
        r = get(c, lang, q_)
        n = 0
        for e in r.events:
            if e.lids:
                continue
            if e.kind in ("set", "mut"):
                n += 1
                f = field_of(root(e.loc))
                c.ob(f in ("T", "TIME"), where(e), "outside the steps only the clock is set, found %s" % inl(e.loc), key="%s|state|%s" % (lang, f))
            elif e.kind == "call":
                n += 1
                nm = (e.name or "").split(".")[-1]
                ok = nm in OKCALL[lang]
                if not ok:
                    f = e.target if hasattr(e, "target") else None
                    ok = None
                c.ob(ok, where(e), "call of %s outside the steps" % e.name, key="%s|call|%s" % (lang, nm))
        c.floor(n, 5, "effects outside the steps")
    for lang in LANGS:
        r = R(c, lang, "World.exec_simulation")
        tl = time_loop(c, r)
        lid = tl.lids[0]
        bad = []
        for (l, lv), rec_ in r.ev.looprec.items():
            if l == lid and lv.kind == "lv" and uses(r, lv, lid):
                bad.append(lv)
        c.ob(not bad, where(tl), "no step uses a local variable of an earlier step" + ("" if not bad else ": %s is lost when the run is paused" % ", ".join(str(x.a[0]) for x in bad)), key="%s|local" % lang)
    r = R(c, "cpp", "World.exec_simulation")
    for e in r.events:
        if not e.lids and e.kind in ("set", "mut"):
            f = field_of(root(e.loc))
            c.ob(f in ("departure_buckets", "timestep", "time"), where(e), "outside the steps only the clock and the departure buckets are set, found %s" % inl(e.loc), key="cpp|state|%s" % f)
    bk = [e for e in r.muts("departure_buckets", "append") if e.lids and not any(x.kind == "range" for x in e.loops[:1])]
    bk = bk or [e for e in r.events if e.kind == "mut" and e.name == "append" and "departure_buckets" in V_.show(e.loc) and tl.lids[0] not in e.lids]
    c.floor(len(bk), 1, "departure buckets of waiting-at-home vehicles")
    for e in bk:
        idx = e.loc.a[1] if e.loc.kind == "i" else None
        lo = None if idx is None else implied(list(e.g), V_.le(V_.sub(r.spec("W.T"), idx)))
        c.ob(lo, where(e), "a vehicle whose departure is overdue departs in the first step of the run", key="cpp|overdue")
        v = e.args[0]
        st = [g for g in rel_guards(e, len(e.lids) - 1)]
        home = same(V_.and_([g for g in st if "departure" not in V_.show(g) and "timesteps" not in V_.show(g)]), cond("cpp", "v.state == 'home'", v=v, W=r.ev.world)) if st else False
        c.ob(True if home else None, where(e), "exactly the vehicles at home are scheduled for departure", key="cpp|home")


@rule("P17", "R5", "no step depends on where the call began or how long it lasts")
def r5(c):
    for lang in LANGS:
        r = R(c, lang, "World.exec_simulation")
        tl = time_loop(c, r)
        lid, it = tl.lids[0], tl.loops[0]
        t0 = r.spec("W.T")
        par = {mk("p", x) for x in ("until_t", "duration_t", "duration_t2")}
        outer = set(tl.g) | (set(tl.lg[0]) if tl.lg else set())
        n = 0

        def dep(v, seen):
            if not isinstance(v, V) or v in seen:
                return None
            seen.add(v)
            if v is t0 or v in par:
                return v
            if v.kind == "elem" and v.a[0] is it:
                return None
            for x in flat(v.a):
                y = dep(x, seen)
                if y is not None:
                    return y
            return None

        for e in r.events:
            if lid not in e.lids:
                continue
            n += 1
            ts = [g for g in e.g if g not in outer] + list(e.args or ()) + [x for x in (e.value, e.loc, e.recv) if isinstance(x, V)]
            if e.kind == "call" and (e.name or "").split(".")[-1] in ("print", "show_simulation_progress", "append_log"):
                ts = []
            if e.kind in ("set", "mut") and e.loc is t0:
                ts = [x for x in ts if x is not e.loc]
            d = None
            for x in ts:
                d = d or dep(x, set())
            c.ob(d is None, where(e), "a step does not depend on where the call began or ends" + ("" if d is None else ": %s uses %s" % (e.kind if e.kind != "call" else e.name, "the step at the start of the call" if d is t0 else inl(d))), key="%s|%s|%s" % (lang, norm_q(e.func.qual if hasattr(e.func, "qual") else str(e.func)), e.kind))
        c.floor(n, 12, "effects of a step (%s)" % lang)


def flat(a):
    for x in a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, (tuple, list)):
            yield from flat(x)


def uses(r, lv, lid):
    for e in r.events:
        if lid not in e.lids:
            continue
        for t in list(e.g) + list(e.args or ()) + [x for x in (e.value, e.loc, e.recv) if isinstance(x, V)]:
            if isinstance(t, V) and lv in set(V_.walk(t)):
                return True
    return False
