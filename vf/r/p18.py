from .common import *
from .p09 import time_loop

OWN = (("Node.update", "node"), ("Link.update", "link"), ("Vehicle.update", "vehicle"))


def news(r, cls):
    return [e for e in r.events if e.kind == "new" and e.name == cls]


def userevents(r):
    return [e for e in r.events if e.kind == "call" and ((e.recv is not None and e.recv.kind == "a" and e.recv.a[1] == "user_function") or (e.name or "").split(".")[-1] == "user_function")]


@rule("P18", "R1", "the function of an element is called once per update, with the element, after the element's own update")
def r1(c):
    for q_, what in OWN:
        r = R(c, "py", q_)
        ev = userevents(r)
        when(c, r, ev, [cond("py", "s.user_function != None", s=r.self, W=r.ev.world), V_.truthy(r.spec("s.user_function"))], "the function of the %s is called in every update" % what, key="when")
        c.ob(all(contradict(list(a.g) + list(b.g)) for i, a in enumerate(ev) for b in ev[:i]), head(r), "the function of the %s is called once per update (%d calls)" % (what, len(ev)), key="%s|once" % r.qual)
        for e in ev:
            c.ob(not e.lids, where(e), "the function is not called in a loop", key="%s|loop" % r.qual)
            c.ob(len(e.args) == 1 and e.args[0] is r.self, where(e), "the function gets the %s itself" % what, key="%s|arg" % r.qual)
            late = [x for x in r.events if x.seq > e.seq and (x.kind in ("set", "mut") or x.kind == "call" and x not in ev and effectful(x))]
            c.ob(not late, where(e), "the function is called after the update of the %s" % what + ("" if not late else ": %s comes later" % inl(late[0].loc if late[0].loc is not None else mk("p", late[0].name or "?"))), key="%s|last" % r.qual)


def effectful(x):
    return (x.name or "").split(".")[-1] not in ("len", "print", "isinstance", "warn")


@rule("P18", "R2", "the function of the world is called once per step, after the step")
def r2(c):
    r = R(c, "py", "World.exec_simulation")
    tl = time_loop(c, r)
    ev = userevents(r)
    c.floor(len(ev), 1, "calls of the function of the world")
    c.ob(len(ev) == 1, where(ev[0]), "called once per step (%d calls)" % len(ev), key="once")
    w = r.spec("W.user_function")
    for e in ev:
        c.ob(e.lids == tl.lids[:1], where(e), "called in the step loop, once", key="loop")
        g = V_.and_(rel_guards(e, 0))
        c.ob(equiv(g, V_.not_(V_.eq(w, NONE))) or equiv(g, V_.truthy(w)), where(e), "called in every step; found the condition %s" % inl(g), key="when")
        c.ob(len(e.args) == 1 and e.args[0] is r.ev.world, where(e), "the function gets the world itself", key="arg")
        late = [x for x in r.events if x.seq > e.seq and x.lids[:1] == tl.lids[:1] and x not in ev and (x.kind in ("set", "mut") or x.kind == "call" and (x.name or "").split(".")[-1] in ("update", "generate", "transfer", "carfollow", "route_search_all", "homogeneous_DUO_update", "route_pref_update"))]
        c.ob(not late, where(e), "called after everything else of the step", key="last")


@rule("P18", "R3", "user functions are called nowhere else")
def r3(c):
    pr = proj("py")
    ok_in = {norm_q(q("py", x)) for x in ("Node.update", "Link.update", "Vehicle.update", "World.exec_simulation")}
    n = 0
    for f in pr.allf:
        for nm in calls_of_field(f.body, "user_function"):
            n += 1
            c.ob(norm_q(f.qual) in ok_in or allowed_writer(pr, f, ok_in), "%s:%s (%s)" % (f.file, nm, f.qual), "call of a user function in %s" % f.qual, key="site|%s" % norm_q(f.qual))
    c.floor(n, 4, "calls of user functions")


def calls_of_field(x, field):
    out = []
    if isinstance(x, tuple) and len(x) > 4 and x[0] == "call" and isinstance(x[1], tuple) and x[1][0] == "attr" and x[1][2] == field:
        out.append(x[4])
    if isinstance(x, (tuple, list)):
        for y in x:
            out += calls_of_field(y, field)
    return out


@rule("P18", "R4", "the function given at creation is the one that is called")
def r4(c):
    for cls in ("Node", "Link", "Vehicle", "World"):
        r = R(c, "py", cls + ".__init__")
        gs = [V_.not_(V_.truthy(mk("p", "cpp")))] if cls == "World" else []
        formula(c, r, "s.user_function", mk("p", "user_function"), "the function of a new %s" % cls.lower(), gs=gs)
        owner_rule(c, "py", cls, "user_function", [cls + ".__init__"], 1)
    for fn, cls in (("World.addNode", "Node"), ("World.addLink", "Link")):
        r = R(c, "py", fn)
        ev = news(r, cls)
        c.floor(len(ev), 1, "creation in %s" % fn)
        for e in ev:
            kw = dict(e.kw)
            c.ob(kw.get("user_function") is mk("p", "user_function"), where(e), "%s hands the function over" % fn, key="%s|forward" % fn)


@rule("P18", "R5", "node events are called exactly in the steps in which the vehicle is at the end of a link to that node")
def r5(c):
    r = R(c, "py", "Vehicle.update")
    node = r.spec("s.link.end_node")
    ev = [e for e in r.events if e.kind == "call" and e.recv is not None and (e.recv is mk("i", r.spec("s.node_event"), node))]
    c.floor(len(ev), 1, "calls of node events")
    has = V_.contains(r.spec("s.node_event"), node)
    x = r.heap("s.x")
    atend = None
    for e in ev:
        c.ob(not e.args and not e.lids, where(e), "the event is called without arguments, once", key="args")
        g = list(e.g)
        c.ob(implied(g, has) or implied(g, V_.contains(mk("mcall", r.spec("s.node_event"), "keys", (), ()), node)), where(e), "the event belongs to the node at the end of the link", key="has")
        c.ob(implied(g, V_.eq(r.spec("s.x_next"), r.spec("s.link.length"))) and any("'run'" in V_.show(z) for z in g), where(e), "the vehicle is at the end of its link", key="end")
        # at the end of the link: exactly one of the later actions follows, so their common condition is the arrival
        ch = [z for z in r.calls("route_next_link_choice", "end_trip")] + [z for z in r.fsets("flag_waiting_for_trip_end")]
        arr = happens([z for z in ch])
        want = V_.and_([arr, V_.or_([z for z in (has,)])])
        k = V_.contains(mk("mcall", r.spec("s.node_event"), "keys", (), ()), node)
        h = happens(ev)
        c.ob(implied([arr, has, k], h), where(e), "the event is called whenever the vehicle is at the end of a link to its node", key="always")
        c.ob(all(z.seq > e.seq for z in ch), where(e), "the event is called before the vehicle finishes or chooses its next link", key="order")
    c.ob(len(ev) == 1, where(ev[0]), "the event is called once", key="once")
    i = R(c, "py", "Vehicle.__init__")
    v = i.heap("s.node_event")
    c.ob(V_.show(v) in ("dict()", "dict(())", "dict(), ()", "call(dict)") or (v.kind in ("dict", "call") and not opaque_nonempty(v)), head(i), "a new vehicle has no events; found %s" % V_.show(v), key="init")


def opaque_nonempty(v):
    return any(isinstance(x, V) and x.kind in ("p", "a") for x in V_.walk(v))
