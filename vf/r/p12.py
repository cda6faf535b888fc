from .common import *


@rule("P12", "R1", "a phase is left exactly when its duration has elapsed, for the next phase in order, the first after the last")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "Node.signal_control")
        over = "s.signal_t > s.signal[s.signal_phase]"
        ph = "(0 if s.signal_phase + 1 >= len(s.signal) else s.signal_phase + 1) if %s else s.signal_phase" % over
        tm = "W.DELTAT if %s else s.signal_t + W.DELTAT" % over
        one = "len(s.signal) > 1"
        formula(c, r, "s.signal_phase", [ph, "(%s) if %s else s.signal_phase" % (ph, one)], "phase after a signal step")
        formula(c, r, "s.signal_t", [tm, "(%s) if %s else s.signal_t" % (tm, one)], "time since the start of the phase after a signal step")


@rule("P12", "R2", "the phase shown is recorded exactly once per step")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Node.signal_control")
        ev = r.muts("signal_log")
        c.floor(len(ev), 1, "records of the phase")
        when(c, r, ev, TRUE, "the phase is recorded in every step")
        last = r.heap("s.signal_phase")
        for e in ev:
            ok = e.name == "append" and decide(e.args[0], last)
            c.ob(ok, where(e), "the recorded phase is the one shown in this step", key="%s|logvalue" % r.qual)
        c.ob(len(ev) == 1, where(ev[0]), "the phase is recorded once per step (%d records)" % len(ev), key="%s|once" % r.qual)
        owner_rule(c, lang, "Node", "signal_log", ["Node.__init__", "Node.Node", "Node.signal_control"], 1)


@rule("P12", "R3", "the initial phase follows from the offset: the cycle is walked from its start by cycle length minus offset")
def r3(c):
    for lang in LANGS:
        r = R(c, lang, "Node.__init__", inline=("override_signal",) if lang == "py" else ())
        ph = [e for e in sets_at(r, r.spec("s.signal_phase")) if e.lids]
        tm = [e for e in sets_at(r, r.spec("s.signal_t")) if e.lids]
        sig = r.heap("s.signal")
        off = r.heap("s.signal_offset")
        sig0 = r.spec("s.signal") if lang == "py" else mk("p", "signal_intervals")
        c.ob(None if not ph else len(ph) == 1 and len(tm) == 1 and same_guard(ph[0], tm[0]), head(r), "phase and time in the phase are set together", key="%s|both" % r.qual)
        for e, t in zip(ph, tm):
            i, o = e.value, t.value
            lid = e.lids[-1]
            ri, ro = r.ev.looprec.get((lid, i)), r.ev.looprec.get((lid, o))
            if ri is None or ro is None:
                c.ob(None, where(e), "walk through the cycle (not recognised)", key="%s|walk" % r.qual)
                continue
            cands = [sig0, sig, r.spec("s.signal"), mk("p", "signal")]

            def at(x):
                return [mk("i", k, x) for k in cands]
            gs = rel_guards(e)
            c.ob(any(equiv(V_.and_(gs), V_.lt(V_.sub(o, d))) for d in at(i)), where(e), "the walk stops in the phase whose duration exceeds the remaining time", key="%s|stop" % r.qual)
            c.ob(any(same(ro[1], V_.sub(o, d)) for d in at(i)), where(e), "the duration of each passed phase is subtracted", key="%s|sub" % r.qual)
            c.ob(V_.is_zero(ri[0]), where(e), "the walk starts in the first phase", key="%s|start" % r.qual)
            ok = any(same(ri[1], V_.ite(V_.le(V_.sub(mk("call", "len", (k,), ()), V_.add(i, ONE))), ZERO, V_.add(i, ONE))) for k in cands)
            c.ob(ok, where(e), "the walk takes the phases in order and restarts after the last", key="%s|next" % r.qual)
            sg, so = (mk("p", "signal"), mk("p", "signal_offset")) if lang == "py" else (mk("p", "signal_intervals"), mk("p", "signal_offset"))
            tot = r.spec("sum(k)", k=sg)
            w = [V_.sub(tot, so)]
            if lang == "py":
                old = mk("p", "signal_offset_old")
                w = [V_.ite(V_.eq(old, NONE), V_.sub(tot, so), old), V_.sub(tot, V_.ite(V_.eq(old, NONE), so, V_.sub(tot, old)))]
            w += [V_.sub(r.spec("s.cycle_length"), r.spec("s.signal_offset"))]
            # reduced to one cycle, so that an offset beyond the cycle or before its start selects a phase as well
            alts = [r.spec(t, d=x, t=y) for x in w for y in (tot, r.spec("s.cycle_length")) for t in (
                "d % t", "(d % t + t) % t", "d - math.floor(d / t) * t") + (() if lang == "py" else ("fmod(d, t) + t if fmod(d, t) < 0 else fmod(d, t)", "fmod(fmod(d, t) + t, t)", "d - floor(d / t) * t"))]
            ok = any(same(ro[0], x) for x in alts)
            signed = lang == "cpp" and any(same(ro[0], r.spec("fmod(d, t)", d=x, t=y)) for x in w for y in (tot, r.spec("s.cycle_length")))  # negative beyond the cycle
            if not ok and not signed and any(x.kind in ("mod", "loopv", "call") and not (x.kind == "call" and x.a[0] in ("sum", "len")) for x in V_.walk(ro[0])):
                ok = None
            if ok is None and ro[0].kind == "mod" and ro[0].a[1] in (tot, r.spec("s.cycle_length")):
                x = ro[0].a[0]
                if not any(z.kind in ("mod", "loopv") for z in V_.walk(x)):
                    ok = any(V_.num(V_.div(V_.sub(x, y), t)) is not None and V_.num(V_.div(V_.sub(x, y), t)) % 1 == 0 for y in w for t in (tot, r.spec("s.cycle_length")))
            if ok is None:
                for t in (tot, r.spec("s.cycle_length")):
                    for q_ in (so, r.spec("s.signal_offset")):
                        d = differs(ro[0], [{q_: o, t: 10, **({mk("p", "signal_offset_old"): -1} if 0 else {})} for o in (0, 3, 7, 12, 25, -4)], lambda env: (10 - env[q_]) % 10)
                        if d is not None:
                            ok = False
                            break
            c.ob(ok, where(e), "the walk covers cycle length minus offset, reduced to one cycle" + ("" if ok else ", found %s" % inl(ro[0])), key="%s|from" % r.qual)


@rule("P12", "R4", "signal settings of the user are used as given: plan, offset, reset and group assignment")
def r4(c):
    for lang, qual, pre in (("py", "Node.override_signal", "s"), ("wrap", "CppNode.override_signal", "s._cpp_node")):
        r = run(lang, qual)
        c.used(r)
        p = {k: mk("p", k) for k in ("signal", "signal_offset", "signal_offset_old", "reset", "groups")}
        sp = lambda t: r.spec(t, **p)
        formula(c, r, "s.signal", [sp("signal"), sp("list(signal)"), sp("copy.copy(signal)"), sp("tuple(signal)")], "signal plan")
        formula(c, r, pre + ".signal_offset", [sp("signal_offset if signal_offset_old is None else sum(signal) - signal_offset_old"), sp("signal_offset if signal_offset_old is None else s.cycle_length - signal_offset_old")], "offset")
        for f in ("signal_phase", "signal_t"):
            # a phase the new plan does not have is left; reset starts with the first phase
            v = "%s.%s" % (pre, f)
            alts = [sp("0 if reset else (0 if %s.signal_phase >= len(signal) else %s)" % (pre, v))]
            if lang == "wrap":  # the setter of the plan does it
                alts.append(sp("0 if reset else %s" % v))
            formula(c, r, v, alts, "%s after a signal change" % f)
        if lang == "py":
            formula(c, r, "s.cycle_length", sp("sum(signal)"), "cycle length")
        gr = p["groups"]
        ad = [e for e in r.events if e.kind == "mut" and e.name == "append" and e.loc.kind == "i" and e.lids]
        links = [e for e in r.calls("get_link")]
        for e in ad:
            l = e.loc.a[1]
            want = mk("elem", mk("range", ZERO, mk("call", "len", (gr,), ())))
            ok = same(e.args[0], want)
            c.ob(ok, where(e), "a link gets the number of the group that lists it" + ("" if ok else ", found %s" % inl(e.args[0])), key="%s|groupno" % r.qual)
            c.ob(any(x.lids == e.lids and V_.show(l) in (V_.show(l),) and x.args and V_.contains_v(l, lambda y: y is x.args[0]) for x in links), where(e), "the link is the one listed in the group", key="%s|grouplink" % r.qual)
            fl = [g for g in rel_guards(e) if not any(x.kind == "raise" and V_.not_(g) in x.g for x in r.events)]
            c.ob(not fl, where(e), "every listed link is assigned" + ("" if not fl else ", found condition %s" % inl(V_.and_(fl))), key="%s|groupall" % r.qual)
        for e in r.raises():
            for g in rel_guards(e) if e.lids else []:
                pos = g.kind == "in" and "inlinks" in V_.show(g.a[1])
                neg = g.kind == "not" and g.a[0].kind == "in" and "inlinks" in V_.show(g.a[0].a[1])
                if pos or neg:
                    c.ob(not pos, where(e), "a link entering the node is accepted in a group" + ("; it is rejected under %s" % inl(g) if pos else ""), key="%s|groupok" % r.qual)
        st = r.sets("signal_group")
        if not st and r.sets("_signal_group"):
            c.ob(False, where(r.sets("_signal_group")[0]), "the group is stored where the link shows it only, found no assignment of signal_group", key="%s|store" % r.qual)
            continue
        c.floor(len(st), 1, "assignments of signal groups")
        want_locs = ["elem.signal_group"] if lang == "py" else ["elem.signal_group", "elem._cpp_link.signal_group"]
        if lang == "wrap" and proj("wrap").setter("CppLink", "signal_group") is not None:   # the setter of the link hands it on
            want_locs = ["elem.signal_group"]
            w = run("wrap", "CppLink.signal_group=")
            c.used(w)
            fw = [e for e in w.sets("signal_group") if V_.show(e.loc).endswith("_cpp_link.signal_group")]
            ok = [e for e in fw if not e.g and (stripc(e.value).kind == "p" or e.value.kind == "call" and e.value.a[0] == "list" and len(e.value.a[1]) == 1 and e.value.a[1][0].kind == "p")]
            c.ob(bool(ok), head(w), "the group assigned to a link reaches the C++ link", key="%s|setter" % r.qual)
        c.ob(len({V_.show(e.loc) for e in st}) >= len(want_locs), where(st[0]), "the group is stored on the link" + (" of both engines" if lang == "wrap" else ""), key="%s|store" % r.qual)
        for e in st:
            k = base_of(e.loc)
            while k.kind == "a":
                k = k.a[0]
            if k.kind == "elem" and e.value.kind in ("elem", "i"):
                src = k.a[0]
                ok = (e.value.kind == "i" and e.value.a[0] is src and e.value.a[1] is k) or (e.value.kind == "elem" and stripc(e.value.a[0]) is src)
                c.ob(ok, where(e), "each link gets its own list of groups", key="%s|own" % r.qual)
            nl = any(y.kind == "a" and y.a[1] in ("inlinks", "outlinks", "LINKS") for y in V_.walk(k))
            if nl:
                c.ob(False, where(e), "links not listed in a group keep their groups", key="%s|unlisted" % r.qual)
                continue
            c.ob(not rel_guards(e), where(e), "the groups of all listed links are stored", key="%s|storeall" % r.qual)
        bad = [e for e in r.raises()]
        g = V_.and_([V_.not_(V_.eq(gr, NONE)), V_.not_(V_.eq(r.spec("len(groups)", **p), r.spec("len(signal)", **p)))])
        c.ob(any(implied(list(e.g), g) and implied([g], guard(e)) for e in bad), head(r), "a group list of the wrong length is rejected", key="%s|len" % r.qual)


@rule("P12", "R5", "the constructors hand the signal settings over unchanged")
def r5(c):
    r = run("py", "Node.__init__")
    c.used(r)
    ev = r.calls("override_signal")
    c.floor(len(ev), 1, "signal set-up in the constructor")
    for e in ev:
        kw = dict(e.kw)
        for k in ("signal", "signal_offset", "signal_offset_old"):
            c.ob(kw.get(k) is mk("p", k), where(e), "the constructor passes %s on" % k, key="ctor|" + k)
        rs = kw.get("reset")
        c.ob(rs is not None and V_.truthy(rs) is TRUE, where(e), "the constructor starts with a reset signal", key="ctor|reset")
        c.ob(not [g for g in e.g], where(e), "the signal is always set up", key="ctor|always")
    r = run("wrap", "CppNode.__init__")
    c.used(r)
    ev = r.calls("_add_node")
    c.floor(len(ev), 1, "node creation")
    sg, so, old = (mk("p", k) for k in ("signal", "signal_offset", "signal_offset_old"))
    for e in ev:
        a = e.args
        c.ob(len(a) > 5 and stripc(a[4]) is sg, where(e), "the wrapper passes the signal plan on", key="wrap|signal")
        w = r.spec("signal_offset if signal_offset_old is None else sum(signal) - signal_offset_old", signal=sg, signal_offset=so, signal_offset_old=old)
        ok = len(a) > 5 and decide(a[5], w)
        c.ob(ok, where(e), "the wrapper passes the offset on (old-style offsets converted)", key="wrap|offset")
    r = run("py", "Link.__init__")
    c.used(r)
    sgp = mk("p", "signal_group")
    g = r.heap("s.signal_group")
    alts = set()

    def leaves(x):
        if x.kind == "ite":
            leaves(x.a[1])
            leaves(x.a[2])
        else:
            alts.add(x)
    leaves(g)
    ok = all(x is sgp or stripc(x) is sgp or (x.kind == "list" and x.a[0] == (sgp,)) for x in alts)
    c.ob(ok, head(r), "the signal group of a link is the given one" + ("" if ok else ", found %s" % inl(g)), key="link|group")


@rule("P12", "R6", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P12"), 1, "properties of the elements of the C++ mode")
