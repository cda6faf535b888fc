from .common import *


def pair(c, r, e, partners, what, key):
    ok = covers(e, partners)
    c.ob(ok, where(e), what + ("" if ok else " does not happen whenever the vehicle moves"), key="%s|%s" % (r.qual, key))
    return ok


@rule("P01", "R1", "a transfer moves one vehicle: removed from the head of its link exactly when appended to the receiving link, with its link reference and the node's request list updated")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        ent = entries(r)
        c.floor(len(ent), 1, "vehicle insertions in %s transfer" % lang)
        exs = exits(r)
        for e, L, v in ent:
            src = mk("a", v, "link")
            pops = [p for p, b in exs if b is src]
            pair(c, r, e, pops, "insertion into the receiving link comes with removal from the vehicle's link", "pop")
            sl = [p for p in sets_at(r, src) if p.value is L]
            pair(c, r, e, sl, "the moved vehicle records the receiving link", "link")
            rm = [p for p in r.muts("incoming_vehicles", "remove") if p.args and p.args[0] is v]
            pair(c, r, e, rm, "the moved vehicle leaves the node's request list", "remove")
            for p in sl:
                if p.value is L and not covers(p, [e]):
                    c.ob(False, where(p), "the vehicle's link is changed without inserting it there", key="%s|linkonly" % r.qual)
            hd = V_.eq(v, r.spec("v.link.vehicles[0]", v=v))
            c.ob(implied_by_origin(e.g, v, hd), where(e), "the moved vehicle is the head of the link it leaves", key="%s|head" % r.qual)
            others = [x for x, L2, v2 in ent if x is not e and not contradict(list(e.g) + list(x.g)) and v2 is v]
            c.ob(not others, where(e), "the vehicle is inserted once", key="%s|once" % r.qual)
        # requests are collected anew in every step: a request left over would move a vehicle from another link
        last = max([e.seq for e, L, v in ent])
        q_ = r.spec("s.incoming_vehicles")
        clr = [p for p in r.events if p.kind == "mut" and p.name == "clear" and root(p.loc) is q_ or p.kind == "set" and p.loc is q_ and V_.show(p.value) in ("list(())", "tuple(())")]
        ok = any(p.seq > last and not p.loops and not rel_guards(p, 0) for p in clr) or any(not p.loops and not rel_guards(p, 0) and p.seq < min([e.seq for e, L, v in ent]) and lang == "cpp" for p in clr)
        if not ok and clr:
            ok = None
        if not ok and not any(p.kind in ("set", "mut") and "incoming_vehicles" in V_.show(p.loc)[:40] for p in r.events if p.seq < last):
            ok = None if not [p for p in r.muts("incoming_vehicles")] else ok
        c.ob(ok, head(r), "no transfer request is left over for the next step", key="%s|left over" % r.qual)
        for p, b in exs:
            ok = any(mk("a", v, "link") is b and covers(p, [e]) for e, L, v in ent)
            c.ob(ok, where(p), "removal from a link in transfer" + ("" if ok else " without insertion into the next link"), key="%s|popnoins" % r.qual)
            dup = [p2 for p2, b2 in exs if p2 is not p and b2 is b and not contradict(list(p.g) + list(p2.g))]
            c.ob(not dup, where(p), "one removal per moved vehicle", key="%s|poponce" % r.qual)


@rule("P01", "R2", "a departure moves the first waiting vehicle of the node from the waiting queue into one link")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Node.generate")
        ent = entries(r)
        c.floor(len(ent), 1, "vehicle insertions in %s generate" % lang)
        pops = r.muts("generation_queue", "popleft")
        for e, L, v in ent:
            pair(c, r, e, pops, "insertion into the first link comes with removal from the waiting queue", "pop")
            pair(c, r, e, [p for p in sets_at(r, mk("a", v, "link")) if p.value is L], "the departing vehicle records its link", "link")
            pair(c, r, e, [p for p in sets_at(r, mk("a", v, "state")) if p.value is r.st("run")], "the departing vehicle becomes running", "state")
            ok = same(v, r.spec("s.generation_queue[0]")) or implied(e.g, V_.eq(v, r.spec("s.generation_queue[0]")))
            c.ob(ok, where(e), "the departing vehicle is the first of the waiting queue", key="%s|first" % r.qual)
        for p in pops:
            ok = covers(p, [e for e, _, _ in ent])
            c.ob(ok, where(p), "removal from the waiting queue" + ("" if ok else " without insertion into a link"), key="%s|popnoins" % r.qual)
        c.ob(len(pops) == len(ent), head(r), "one removal from the waiting queue per insertion", key="%s|poponce" % r.qual)


@rule("P01", "R3", "ending a trip removes the vehicle from its own link once and clears its link reference")
def r3(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.end_trip")
        exs = exits(r)
        own = mk("a", r.self, "link")
        good = [p for p, b in exs if b is own and not p.g]
        c.ob(len(good) == 1 and len(exs) == 1, head(r), "the ended vehicle is removed exactly once, from its own link (%d removals)" % len(exs), key="%s|pop" % r.qual)
        formula(c, r, "s.link", NONE, "the ended vehicle is on no link")
        for nm in ("Vehicle.update", "Node.transfer"):
            t = R(c, lang, nm)
            calls = t.calls("end_trip")
            c.floor(len(calls), 1, "end_trip calls in %s" % nm)
            for e in calls:
                v = e.recv
                at_head = head_of_queue(t, e, v)
                c.ob(at_head, where(e), "end of trip of a vehicle" + (" at the head of its link" if at_head else " that is not known to be the head of its link (another vehicle would be removed)"), key="%s|endhead|%s" % (t.qual, "loop" if e.loops else "flat"))


def head_of_queue(t, e, v):
    if implied(e.g, V_.eq(v, t.spec("v.link.vehicles[0]", v=v))):
        return True
    # element 0 of a link queue, after the removals made so far in the same iteration
    if v.kind == "i" and field_of(v) == t.nm("vehicles") and not is_world(base_of(v), t):
        k = V_.num(v.a[1])
        pops = [p for p, b in exits(t) if b is base_of(v) and p.seq is not None and p.seq < e.seq and covers(e, [p])] if k else []
        return k is not None and k == len(pops)
    return False


@rule("P01", "R4", "a vehicle enters the waiting queue of its origin exactly when it changes from home to waiting")
def r4(c):
    for lang in LANGS:
        r = R(c, lang, "Vehicle.update")
        ap = [e for e in r.muts("generation_queue")]
        c.floor(len(ap), 1, "waiting-queue insertions in %s" % r.qual)
        st = [e for e in sets_at(r, mk("a", r.self, "state")) if e.value is r.st("wait")]
        for e in ap:
            c.ob(e.name == "append" and e.args and e.args[0] is r.self and base_of(root(e.loc)) is r.spec("s.orig"), where(e), "the vehicle itself joins the end of the waiting queue of its origin", key="%s|queue" % r.qual)
            pair(c, r, e, st, "joining the waiting queue comes with the waiting state", "state")
            c.ob(implied(e.g, V_.eq(r.spec("s.state"), r.st("home"))), where(e), "only a vehicle at home joins the waiting queue", key="%s|home" % r.qual)
        for e in st:
            c.ob(covers(e, ap), where(e), "the waiting state comes with joining the waiting queue", key="%s|state2" % r.qual)


@rule("P01", "R5", "vehicle queues, waiting queues and link references are changed only by the departure, transfer and trip-end steps")
def r5(c):
    for lang in LANGS:
        init = ["Link.__init__", "Link.Link", "Node.__init__", "Node.Node", "Vehicle.__init__", "Vehicle.Vehicle"]
        owner_rule(c, lang, "Link", "vehicles", init + ["Node.generate", "Node.transfer", "Vehicle.end_trip"], 3)
        owner_rule(c, lang, "Node", "generation_queue", init + ["Node.generate", "Vehicle.update"], 2)
        owner_rule(c, lang, "Vehicle", "link", init + ["Node.generate", "Node.transfer", "Vehicle.end_trip"], 3)
        owner_rule(c, lang, "Node", "incoming_vehicles", init + ["Node.transfer", "Vehicle.update"], 2)


@rule("P01", "R6", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P01"), 1, "properties of the elements of the C++ mode")
