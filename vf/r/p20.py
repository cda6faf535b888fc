from .common import *

P_ = lambda x: mk("p", x)
LN = lambda x: mk("call", "len", (x,), ())


def get(c, lang, q_, **kw):
    if lang == "wrap":
        r = run("wrap", q_, **kw)
        c.used(r)
        return r
    return R(c, lang, q_, **kw)


def world_of(r):
    return mk("a", r.self, "W") if r.lang != "cpp" else r.ev.world


def normal(r):
    """conditions under which the constructor does not raise"""
    return [V_.not_(V_.and_(list(e.g))) for e in r.raises()]


def self_name(r):
    return r.r.st.heap.get(mk("a", r.self, "name"), mk("a", r.self, "name"))


def added(r, field):
    """(kind, event, key, value) of additions to a registry of the world or of a node"""
    out = []
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and field_of(e.loc) == field:
            out.append(("set", e, e.loc.a[1], e.value))
        elif e.kind == "mut" and field_of(root(e.loc)) == field and e.name in ("append", "appendleft", "push_back", "emplace_back") and e.args:
            out.append(("append", e, None, e.args[0]))
        elif e.kind == "mut" and field_of(root(e.loc)) == field and e.name in ("setdefault", "insert", "emplace") and len(e.args) == 2:
            out.append(("cond", e, e.args[0], e.args[1]))
    return out


PYE = (("py", "Node.__init__", "NODES", "NODES_NAME_DICT"), ("py", "Link.__init__", "LINKS", "LINKS_NAME_DICT"), ("py", "Vehicle.__init__", None, "VEHICLES"),
       ("wrap", "CppNode.__init__", "NODES", "NODES_NAME_DICT"), ("wrap", "CppLink.__init__", "LINKS", "LINKS_NAME_DICT"))


@rule("P20", "R1", "every constructed element is registered exactly once under its final name")
def r1(c):
    for lang, q_, lst, dct in PYE:
        r = get(c, lang, q_)
        nm = self_name(r)
        ok = normal(r)
        for reg in ([lst] if lst else []) + [dct] + (["VEHICLES_LIVING"] if lst is None else []):
            ev = [x for x in added(r, reg) if x[3] is r.self]
            c.ob(len(ev) == 1, head(r), "registered once in %s; found %d places" % (reg, len(ev)), key="%s|%s|once" % (q_, reg))
            for k, e, key, v in ev:
                c.ob(k != "cond" and not e.lids and implied(ok, V_.and_(list(e.g))), where(e), "every element that is not rejected is in %s" % reg, key="%s|%s|all" % (q_, reg))
                c.ob(key is None or same(key, nm), where(e), "the element is found in %s under its name; the key is %s" % (reg, inl(key) if key is not None else ""), key="%s|%s|key" % (q_, reg))
        reg0 = mk("a", base_of(root(added(r, dct)[0][1].loc)), lst or dct)
        sets = [e for e in r.events if e.kind == "set" and e.loc is mk("a", r.self, "id")]
        if not sets and not writers("py", q_.split(".")[0], "id") and not proj("py").has(q_.split(".")[0] + ".id"):
            c.ob(False, head(r), "every element gets an identifier; none is assigned", key="%s|id" % q_)
            continue
        c.floor(len(sets), 1, "identifier of %s" % q_)
        first = min([x[1].seq for x in added(r, lst or dct)])
        for e in sets:
            d = decide(e.value, LN(reg0))
            c.ob((d and e.seq < first) if d is not None else None, where(e), "the identifier is the number of elements registered before; found %s" % inl(e.value), key="%s|id" % q_)
    for q_, vec, mp, idf, nm in (("Node.Node", "nodes", "nodes_map", "node_id", "node_name"), ("Link.Link", "links", "links_map", "link_id", "link_name"), ("Vehicle.Vehicle", "vehicles", "vehicles_map", "vehicle_id", "vehicle_name")):
        r = R(c, "cpp", q_)
        w = r.ev.world
        cnt = mk("a", w, idf)
        for reg in (vec, mp):
            ev = [x for x in added(r, reg) if x[3] is r.self and base_of(root(x[1].loc)) is w]
            c.ob(len(ev) == 1, head(r), "registered once in %s; found %d places" % (reg, len(ev)), key="%s|%s|once" % (q_, reg))
            for k, e, key, v in ev:
                c.ob(k != "cond" and not e.g and not e.lids, where(e), "every element is in %s" % reg, key="%s|%s|all" % (q_, reg))
                c.ob(key is None or key is P_(nm), where(e), "found in %s under its name" % reg, key="%s|%s|key" % (q_, reg))
        formula(c, r, "s.id", cnt, "identifier", key=q_ + "|id")
        formula(c, r, "s.name", P_(nm), "name", key=q_ + "|name")
        formula(c, r, cnt, V_.add(cnt, ONE), "the next identifier", key=q_ + "|next")
    r = R(c, "cpp", "Vehicle.Vehicle")
    ev = [x for x in added(r, "vehicles_living") if x[3] is r.self]
    c.ob(len(ev) == 1 and not ev[0][1].g and (ev[0][2] is None or same(ev[0][2], mk("a", r.ev.world, "vehicle_id"))), head(r), "a new vehicle is among the unfinished ones", key="cpp|living")


@rule("P20", "R2", "a duplicate name is renamed on request or rejected before registration")
def r2(c):
    for lang, q_, lst, dct in PYE:
        r = get(c, lang, q_)
        reg = added(r, dct)
        D = reg[0][1].loc.a[0]
        base = [e for e in r.events if e.kind == "set" and e.loc is mk("a", r.self, "name")]
        c.floor(len(base), 1, "name of %s" % q_)
        auto = V_.truthy(P_("auto_rename"))
        first = min(x[1].seq for x in added(r, lst or dct) + added(r, dct))
        ra = [e for e in r.raises() if any(x.kind == "in" and x.a[1] is D for x in V_.walk(V_.and_(list(e.g))))]
        c.ob(bool(ra) and all(e.seq < first for e in ra), head(r), "a duplicate name is rejected before anything is registered", key="%s|raise" % q_)
        # the name asked for
        asked = None
        for e in ra:
            ins = [x for x in V_.walk(V_.and_(list(e.g))) if x.kind == "in" and x.a[1] is D]
            asked = ins[0]
        if asked is None:
            continue
        names = [e for e in base if "rnd" not in kinds(e.value)]
        fin = self_before(r, names)
        c.ob(decide(asked.a[0], fin) if fin is not None else None, head(r), "the name that is looked up is the name asked for; found %s" % inl(asked.a[0]), key="%s|asked" % q_)
        rej = V_.or_([V_.and_(list(e.g)) for e in ra])
        ren = [e for e in base if "rnd" in kinds(e.value)]
        if lang != "py" and equiv(rej, V_.and_([asked] + others(r, ra)), ()) and not ren:
            # an implementation that cannot rename rejects loudly instead
            c.ob(True, head(r), "a duplicate name is always rejected", key="%s|when" % q_)
            continue
        c.ob(equiv(rej, V_.and_([asked, V_.not_(auto)] + others(r, ra)), ()), head(r), "a duplicate name is rejected whenever renaming is not requested", key="%s|when" % q_)
        c.ob(len(ren) >= 1 and all(e.seq < first and implied(list(e.g), asked) for e in ren) and implied([asked, auto] + normal(r), V_.or_([V_.and_(list(e.g)) for e in ren])), head(r), "a duplicate name is replaced by a new random one when renaming is requested, and only then", key="%s|rename" % q_)
        c.ob(all(e.seq < first for e in base), head(r), "the name is settled before registration", key="%s|order" % q_)


def kinds(v):
    return {x.kind for x in V_.walk(v)}


def self_before(r, evs):
    v = None
    for e in evs:
        v = e.value if v is None or not e.g else V_.ite(V_.and_([g for g in e.g]), e.value, v)
    if v is None:
        return None
    return under(v, normal(r)) if len(evs) > 1 else v


def others(r, ra):
    """conditions of earlier rejections"""
    f = min(e.seq for e in ra)
    return [V_.not_(V_.and_(list(e.g))) for e in r.raises() if e.seq < f]


@rule("P20", "R3", "a link is registered at its two nodes")
def r3(c):
    for lang, q_ in (("py", "Link.__init__"), ("wrap", "CppLink.__init__")):
        r = get(c, lang, q_)
        for f, n in (("outlinks", "start_node"), ("inlinks", "end_node")):
            nd = r.r.st.heap.get(mk("a", r.self, n), mk("a", r.self, n))
            want = [r.spec("s.W.get_node(x)", x=P_(n)), r.spec("W.get_node(x)", W=P_("W"), x=P_(n))]
            c.ob(any(same(nd, w) for w in want), head(r), "%s is the node asked for; found %s" % (n, inl(nd)), key="%s|%s" % (q_, n))
            ev = added(r, f)
            c.ob(len(ev) == 1, head(r), "registered once at its %s; found %d places" % (n, len(ev)), key="%s|%s|once" % (q_, f))
            for k, e, key, v in ev:
                c.ob(v is r.self and k == "set" and same(base_of(root(e.loc)), nd) and same(key, self_name(r)) and implied(normal(r), V_.and_(list(e.g))), where(e), "the link is one of the %s of its %s under its name" % (f, n), key="%s|%s" % (q_, f))
    r = R(c, "cpp", "Link.Link")
    for f, n in (("out_links", "start_node"), ("in_links", "end_node")):
        nd = r.r.st.heap.get(mk("a", r.self, n), mk("a", r.self, n))
        c.ob(decide_in(nd, [mk("mcall", r.ev.world, "get_node", (P_(n + "_name"),), ()), r.spec("W.get_node(x)", x=P_(n + "_name"))], {"get_node"}), head(r), "%s is the node asked for; found %s" % (n, inl(nd)), key="cpp|%s" % n)
        ev = added(r, f)
        c.ob(len(ev) == 1 and ev[0][3] is r.self and same(base_of(root(ev[0][1].loc)), nd) and not ev[0][1].g, head(r), "the link is one of the %s of its %s (C++)" % (f, n), key="cpp|%s" % f)
    for lang, q_ in (("wrap", "CppNode.__init__"), ("py", "Node.__init__")):
        r = get(c, lang, q_)
        for f in ("inlinks", "outlinks"):
            v = r.r.st.heap.get(mk("a", r.self, f))
            c.ob(v is not None and v.kind == "dict" and not v.a[0], head(r), "a node starts with its own empty %s" % f, key="%s|%s|new" % (q_, f))


@rule("P20", "R4", "only constructors change the registries, names and identifiers")
def r4(c):
    for reg, own, n in (("NODES", "Node", 1), ("NODES_NAME_DICT", "Node", 1), ("LINKS", "Link", 1), ("LINKS_NAME_DICT", "Link", 1), ("VEHICLES", "Vehicle", 1)):
        owner_rule(c, "py", "World", reg, [own + ".__init__", "World.__init__"], n)
    for reg, own, n in (("nodes", "Node.Node", 1), ("links", "Link.Link", 1), ("vehicles", "Vehicle.Vehicle", 1), ("nodes_map", "Node.Node", 1), ("links_map", "Link.Link", 1), ("vehicles_map", "Vehicle.Vehicle", 1), ("node_id", "Node.Node", 1), ("link_id", "Link.Link", 1), ("vehicle_id", "Vehicle.Vehicle", 1)):
        if reg == "vehicles":
            for f, e in writers("cpp", "World", reg):
                if base_of(root(e.loc)).kind == "a" and base_of(root(e.loc)).a[1] == "w" or base_of(root(e.loc)) is P_("W"):
                    c.ob(allowed_writer(proj("cpp"), f, {own, "World.World", "World.~World"}), where(e), "change of the vehicle registry in %s" % f.qual, key="owner|vehicles|" + norm_q(f.qual))
            continue
        owner_rule(c, "cpp", "World", reg, [own, "World.World", "World.~World"], n)
    for cls in ("Node", "Link", "Vehicle"):
        for f in ("id", "name"):
            if not writers("py", cls, f):
                g = proj("py").has("%s.%s" % (cls, f))   # (a property would hold it)
                c.ob(None if g else False, "%s.__init__" % cls, "every %s has %s" % (cls, "an identifier" if f == "id" else "a name"), key="owner|%s.%s|none" % (cls, f))
                continue
            owner_rule(c, "py", cls, f, [cls + ".__init__"], 1)
            owner_rule(c, "cpp", cls, f, [cls + "." + cls], 1)
    pr = proj("wrap")
    for reg, own, n in (("NODES", ["CppNode.__init__"], 1), ("NODES_NAME_DICT", ["CppNode.__init__"], 1), ("LINKS", ["CppLink.__init__"], 1), ("LINKS_NAME_DICT", ["CppLink.__init__"], 1), ("VEHICLES", ["CppWorld._register_new_cpp_vehicles", "CppWorld.addVehicle"], 1), ("_veh_by_index", ["CppWorld._register_new_cpp_vehicles"], 1)):
        owner_rule(c, "wrap", "CppWorld", reg, own + ["CppWorld.__init__"], n, pr=pr)


@rule("P20", "R5", "C++ mode: every engine object has exactly one wrapper, under the same name")
def r5(c):
    r = get(c, "wrap", "CppNode.__init__")
    for q_, call, getter, field, argn in (("CppNode.__init__", "_add_node", "get_node", "_cpp_node", 1), ("CppLink.__init__", "_add_link", "get_link", "_cpp_link", 1)):
        r = get(c, "wrap", q_)
        ev = r.calls(call)
        c.floor(len(ev), 1, "creation in the engine")
        nm = self_name(r)
        for e in ev:
            c.ob(same(e.args[argn], nm), where(e), "the engine object has the name of the element; found %s" % inl(e.args[argn]), key="%s|name" % q_)
        f = r.r.st.heap.get(mk("a", r.self, field))
        ok = None
        if f is not None and f.kind in ("mcall", "call"):
            a = f.a[2] if f.kind == "mcall" else f.a[1]
            ok = len(a) >= 1 and same(a[-1], nm)
        c.ob(ok, head(r), "the engine object is looked up under the name of the element; found %s" % inl(f), key="%s|bind" % q_)
    r = get(c, "wrap", "CppWorld._register_new_cpp_vehicles")
    new = [x for x in added(r, "_veh_by_index")]
    reg = [x for x in added(r, "VEHICLES")]
    liv = [x for x in added(r, "VEHICLES_LIVING")]
    c.floor(min(len(new), len(reg), len(liv)), 1, "registration of vehicles")
    e0 = new[0][1]
    v = new[0][3]
    for what, l in (("VEHICLES", reg), ("VEHICLES_LIVING", liv), ("_veh_by_index", new)):
        c.ob(len(l) == 1 and l[0][3] is v and l[0][1].lids == e0.lids and set(l[0][1].g) == set(e0.g), where(l[0][1]), "every new vehicle is added to %s" % what, key="veh|%s" % what)
    c.ob(not r.ev.loopinfo.get(e0.lids[0]) if e0.lids else False, where(e0), "no new vehicle is left out", key="veh|all")
    nm = [e for e in r.fsets("name") if e.loc.a[0] is v]
    c.ob(len(nm) >= 1 and all(x[2] is not None and same(x[2], nm[-1].value) for x in reg + liv), where(e0), "vehicles are registered under their names", key="veh|key")
    start, total = r.spec("s._cpp_veh_registered_count"), r.spec("s._cpp_world.vehicle_count")
    cpp = [e for e in r.fsets("_cpp_vehicle") if e.loc.a[0] is v]
    if e0.loops and cpp:
        it = e0.loops[0]
        idx = None
        for x in V_.walk(cpp[0].value):
            if x.kind == "elem" and x.a[0] is it:
                idx = x
        okr = None
        if it.kind == "range" and len(it.a) == 2 and idx is not None:
            args = [a for x in V_.walk(cpp[0].value) if x.kind in ("mcall", "call") for a in (x.a[2] if x.kind == "mcall" else x.a[1])]
            okr = any((V_.is_zero(it.a[0]) and same(it.a[1], V_.sub(total, start)) and same(a, V_.add(start, idx))) or (same(it.a[0], start) and same(it.a[1], total) and a is idx) for a in args)
        c.ob(okr, where(e0), "each vehicle created since the last registration gets one wrapper", key="veh|range")
    else:
        c.ob(None, where(e0), "range of new vehicles not recognised", key="veh|range")
    formula(c, r, start, [V_.ite(V_.lt(V_.sub(start, total)), total, start), total], "registered vehicles are not registered again", key="veh|count")
    ra = r.raises()
    D = reg[0][1].loc.a[0]
    dup = [e for e in ra if any(x.kind == "in" and x.a[1] is D and same(x.a[0], nm[-1].value) for x in e.g)] if nm else []
    c.ob(bool(dup) and all(e.seq < reg[0][1].seq and e.lids == e0.lids for e in dup), where(reg[0][1]), "a vehicle never replaces another one of the same name", key="veh|dup")
    for f, src in (("orig", "orig"), ("dest", "dest")):
        ev = [e for e in r.fsets(f) if e.loc.a[0] is v]
        c.ob(bool(ev) and any(x.kind == "a" and x.a[1] == src for x in V_.walk(ev[-1].value)), where(ev[-1]) if ev else head(r), "%s of a vehicle is that of the engine vehicle" % f, key="veh|" + f)
    # custom names
    r = get(c, "wrap", "CppWorld.addVehicle")
    D = r.spec("s.VEHICLES")
    ra = [e for e in r.raises() if any(x.kind == "in" and x.a[1] is D for x in V_.walk(V_.and_(list(e.g))))]
    mk_ = r.calls("_add_demand")
    c.ob(bool(ra) and bool(mk_) and all(e.seq < mk_[0].seq for e in ra), head(r), "a duplicate vehicle name is rejected before the vehicle is created", key="veh|raise")
    rg = r.calls("_register_new_cpp_vehicles")
    c.ob(len(rg) == 1 and rg[0].seq > mk_[0].seq, head(r), "the new vehicle is registered", key="veh|reg")
    given = V_.not_(V_.eq(P_("name"), NONE))
    for e in rg:
        a = e.args[0] if e.args else None
        own = [x for x in r.fsets("name")] + [x for k, x, _, _ in added(r, "VEHICLES")]
        c.ob((a is not None and "name" in V_.show(a)) or bool(own), where(e), "the vehicle is registered under the name given", key="veh|custom")


@rule("P20", "R6", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P20"), 1, "properties of the elements of the C++ mode")
