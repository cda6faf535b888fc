from .common import *

LOOK = {"node": ("get_node",), "link": ("get_link",)}
# lookups: language, function, element list, name registry, class
TABLE = [("py", "World.get_node", "NODES", "NODES_NAME_DICT"), ("py", "World.get_link", "LINKS", "LINKS_NAME_DICT"),
         ("wrap", "CppWorld.get_node", "NODES", "NODES_NAME_DICT"), ("wrap", "CppWorld.get_link", "LINKS", "LINKS_NAME_DICT"),
         ("cpp", "World.get_node", "nodes", "nodes_map"), ("cpp", "World.get_link", "links", "links_map")]
# operations that take elements by name or object
REFS = [
    ("py", "Link.__init__", {"start_node": "node", "end_node": "node"}),
    ("py", "Vehicle.__init__", {"orig": "node", "dest": "node", "links_prefer": "link", "links_avoid": "link"}),
    ("py", "Vehicle.enforce_route", {"route": "link"}),
    ("py", "Vehicle.set_links_prefer", {"links": "link"}),
    ("py", "Vehicle.set_links_avoid", {"links": "link"}),
    ("py", "Vehicle.add_dest", {"dest": "node"}),
    ("py", "Node.override_signal", {"groups": "link"}),
    ("py", "Route.__init__", {"links": "link"}),
    ("py", "World.adddemand", {"orig": "node", "dest": "node"}),
    ("py", "World.adddemand_nodes2nodes", {"origs": "node", "dests": "node"}),
    ("py", "World.adddemand_nodes2nodes2", {"origs": "node", "dests": "node"}),
    ("wrap", "CppLink.__init__", {"start_node": "node", "end_node": "node"}),
    ("wrap", "CppRoute.__init__", {"links": "link"}),
    ("wrap", "CppVehicle.enforce_route", {"route": "link"}),
    ("wrap", "CppVehicle.set_links_prefer", {"links": "link"}),
    ("wrap", "CppVehicle.set_links_avoid", {"links": "link"}),
    ("wrap", "CppNode.override_signal", {"groups": "link"}),
    ("wrap", "CppWorld.addVehicle", {"orig": "node", "dest": "node", "links_prefer": "link", "links_avoid": "link"}),
    ("wrap", "CppWorld.adddemand", {"orig": "node", "dest": "node"}),
    ("wrap", "CppWorld.adddemand_nodes2nodes", {"origs": "node", "dests": "node"}),
    ("wrap", "CppWorld.adddemand_nodes2nodes2", {"origs": "node", "dests": "node"}),
    ("cpp", "Link.Link", {"start_node_name": "node", "end_node_name": "node"}),
    ("cpp", "Vehicle.Vehicle", {"orig_name": "node", "dest_name": "node"}),
]
# parameters through which an operation hands a reference on to another one of the table
FORWARD = {"addVehicle": {"orig", "dest", "0", "1"}, "adddemand": {"orig", "dest", "0", "1"}, "Vehicle": {"orig", "dest", "1", "2"}, "adddemand_nodes2nodes": {"origs", "dests", "0", "1"},
           "add_demand": {"orig_name", "dest_name"}, "defRoute": {"links", "0"}, "Route": {"links"}}


def get(c, lang, q_, **kw):
    r = run(lang, q_, **kw)
    c.used(r)
    return r


@rule("P21", "R1", "a lookup returns the element asked for, found by identity or by name in the registry of its kind, or raises")
def r1(c):
    for lang, q_, lst, dct in TABLE:
        r = get(c, lang, q_, worlds=True) if lang != "cpp" else get(c, lang, q_)
        p = param(r)
        D = mk("a", mk("p", "self"), dct)
        L = mk("a", mk("p", "self"), lst)
        c.floor(len(r.r.returns), 1, "results of %s" % q_)
        c.ob(bool(r.raises()), head(r), "an unknown element raises an error", key="%s|raise" % q_)
        found = [mk("in", p, D)]
        if lang != "cpp":
            found += [V_.not_(V_.eq(p, NONE))]
            for x in {x for e in r.raises() for g in e.g for x in V_.walk(g) if x.kind == "isinst" and x.a[0] is p}:
                t = V_.truthy(x)
                found.append(t if V_.show(x.a[1]) == "str" else V_.not_(t))
        for e in r.raises():
            c.ob(contradict([settle(g, found) for g in e.g] + found), where(e), "a registered name never raises an error; found condition %s" % inl(V_.and_(list(e.g))), key="%s|known" % q_)
        if lang != "cpp":   # an object (of another world) whose name is registered here
            byname = [mk("in", mk("a", p, "name"), D), V_.not_(V_.eq(p, NONE))]
            for x in {x for e in r.raises() for g in e.g for x in V_.walk(g) if x.kind == "isinst" and x.a[0] is p}:
                t = V_.truthy(x)
                byname.append(t if V_.show(x.a[1]) != "str" and "str" not in V_.show(x.a[1]) else V_.not_(t))
            for e in r.raises():
                gs_ = [settle(g, byname) for g in e.g] + byname
                ok = contradict(gs_)
                c.ob(True if ok else (False if any(mk("in", mk("a", p, "name"), D) is x for g in e.g for x in V_.walk(g)) else None), where(e), "an object whose name is registered never raises an error; found condition %s" % inl(V_.and_(list(e.g))), key="%s|knownobj" % q_)
        for gs, v in [y for st, v in r.r.returns for y in split(list(st.g), under(v, list(st.g)))]:
            where_ = head(r)
            k = "%s|ret" % q_
            if v is NONE or V_.show(v) in ("nullptr", "NULL", "0"):
                ok = implied(gs, V_.eq(p, NONE)) if lang != "cpp" else False
                c.ob(ok, where_, "nothing is returned only when nothing is asked for; found it under %s" % inl(V_.and_(gs)), key=k)
                continue
            if v is p:
                ok = own(p, gs, L, D)
                c.ob(ok, where_, "an object is returned as it is only if it belongs to this world" + ("" if ok else "; found condition %s" % inl(V_.and_(gs))), key=k)
                continue
            it = lookup_of(v, D)
            if it is not None:
                key, safe = it
                good = key is p or same(key, mk("a", p, "name")) or (key.kind == "ite" and all(x is p or same(x, mk("a", p, "name")) for x in leaves(key)))
                c.ob(good, where_, "the name asked for is looked up" + ("" if good else ", found %s" % inl(key)), key=k)
                if not safe:
                    ok = implied(gs, mk("in", key, D)) or implied(gs, V_.truthy(mk("in", key, D)))
                    c.ob(ok, where_, "a name is looked up only if it is registered, or the lookup itself fails loudly", key=k + "|in")
                continue
            if v.kind == "elem":
                src = v.a[0]
                nm = mk("a", v, "name")
                ok = (src is L or src is D or V_.contains_v(src, lambda y: y is L or y is D)) and (implied(gs, V_.eq(nm, p)) or implied(gs, V_.eq(nm, mk("a", p, "name"))) or implied(gs, V_.eq(v, p)))
                c.ob(ok, where_, "the element found has the name asked for", key=k)
                continue
            if v.kind == "i" and v.a[0] is L:
                nm = mk("a", v, "name")
                ok = implied(gs, V_.eq(v, p)) or implied(gs, V_.eq(nm, p)) or implied(gs, V_.eq(nm, mk("a", p, "name"))) or own(p, gs, L, D)
                c.ob(ok, where_, "the element found is the one asked for, not the one at its position; found %s under %s" % (inl(v), inl(V_.and_(gs))), key=k)
                continue
            other = [x for x in V_.walk(v) if x.kind == "a" and x.a[1] in ("NODES", "LINKS", "NODES_NAME_DICT", "LINKS_NAME_DICT", "VEHICLES", "nodes_map", "links_map", "nodes", "links", "vehicles_map") and x is not D and x is not L]
            c.ob(False if other else None, where_, "the result comes from the registry of its kind, found %s" % inl(v), key=k)


def split(gs, v):
    """alternatives of a value with their conditions"""
    if v.kind == "ite":
        return [y for y in split(gs + [v.a[0]], v.a[1]) + split(gs + [V_.not_(v.a[0])], v.a[2]) if not contradict(y[0])]
    return [(gs, v)]


def settle(g, facts):
    """a condition with the facts put in for its parts, also inside of operands"""
    tr = {f.a[0] if f.kind == "not" else f: f.kind != "not" for f in facts}

    def f(y):
        if y in tr and not (y.kind == "in" and y is g):
            return TRUE if tr[y] else FALSE
        return None
    return V_.subst(V_.subst(g, f), f)


def leaves(v):
    return leaves(v.a[1]) + leaves(v.a[2]) if v.kind == "ite" else [v]


def param(r):
    ns = [x if isinstance(x, str) else x[0] for x in r.func.params]
    ns = [x for x in ns if x not in ("self", "s", "W")]
    return mk("p", ns[0])


def own(p, gs, L, D):
    """guards establish that the object p is registered in this world"""
    name = mk("a", p, "name")
    w = mk("a", p, "W")
    for g in (mk("in", p, L), V_.truthy(mk("in", p, L)), V_.eq(w, mk("p", "self"))):
        if implied(gs, g):
            return True
    for g in gs:
        for x in V_.walk(g):
            if x.kind == "in" and x.a[0] is p and V_.contains_v(x.a[1], lambda y: y is L or y is D) and implied(gs, x):
                return True
    if implied(gs, V_.eq(mk("i", D, name), p)):
        return True
    return False


def lookup_of(v, D):
    """(key, fails loudly by itself) of a registry access"""
    if v.kind == "i" and v.a[0] is D:
        return v.a[1], True
    for x in V_.walk(v):
        if x.kind == "mcall" and x.a[0] is D and x.a[1] in ("find", "get", "at", "pop") and x.a[2]:
            return x.a[2][0], x.a[1] == "at"
    return None


TRUTH = ("in", "isinst", "le", "lt", "eq", "truthy", "and", "or", "not", "fmt", "fstr")


def raw(v, p, look):
    """occurrences of the parameter in a value outside the lookups"""
    out = []

    def go(x):
        if x is p:
            out.append(x)
            return
        if x.kind == "mcall" and x.a[1] in look:
            return
        if x.kind == "call" and str(x.a[0]).split(".")[-1] in look + ("len", "isinstance", "str", "type"):
            return
        if x.kind in TRUTH:
            return
        if x.kind == "comp":
            go(x.a[1])
            return
        if x.kind == "ite":
            go(x.a[1])
            go(x.a[2])
            return
        if x.kind == "rec":     # what is iterated is not used by itself
            go(x.a[0])
            go(x.a[1])
            return
        for y in x.a:
            if isinstance(y, V):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, V):
                        go(z)
                    elif isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], V):
                        go(z[1])
    go(v)
    return out


def short_name(n):
    return str(n).replace("::", ".").split(".")[-1]


QUIET = ("_resolve_node_name", "len", "isinstance", "type", "str", "range", "lange", "enumerate", "zip", "print", "warn", "Exception", "ValueError", "hasattr", "getattr", "list", "dict", "set", "tuple", "sorted", "keys", "values", "items", "copy", "deepcopy")


@rule("P21", "R2", "every operation that takes elements by name or object looks them up before it uses them")
def r2(c):
    for lang, q_, ps in REFS:
        trust = {"trust_input": FALSE} if q_ in ("Route.__init__", "CppRoute.__init__") else None  # the caller vouches for the links
        r = get(c, lang, q_, args=trust) if trust else get(c, lang, q_, inline=("_resolve_node_name",) if lang == "wrap" else ())
        for pn, kind in ps.items():
            p = mk("p", pn)
            look = LOOK[kind]
            n = 0
            for e in r.events:
                if e.kind == "raise":
                    continue
                nm = short_name(e.name) if e.name else ""
                ops = []
                if e.kind == "set":
                    ops = [(e.value, None)]
                elif e.kind in ("mut", "call", "new"):
                    ops = [(a, str(k)) for k, a in enumerate(e.args or [])] + [(v, k) for k, v in (e.kw or [])]
                if e.kind in ("call", "new") and nm in look:
                    if any(V_.contains_v(a, lambda y: y is p) for a, k in ops if isinstance(a, V)):
                        n += 1
                    continue
                for a, k in ops:
                    if not isinstance(a, V) or not raw(a, p, look):
                        if isinstance(a, V) and any(x.kind == "mcall" and x.a[1] in look and V_.contains_v(x, lambda y: y is p) for x in V_.walk(a)):
                            n += 1
                        continue
                    if e.kind in ("call", "new") and nm in FORWARD and k in FORWARD[nm]:
                        n += 1
                        continue
                    if e.kind in ("call", "new") and nm in QUIET:
                        continue
                    ok = False if e.kind in ("set", "mut") else None
                    c.ob(ok, where(e), "%s is used as given, without looking it up: %s" % (pn, inl(a)), key="%s|%s|raw" % (q_, pn))
            c.ob(n > 0, head(r), "%s is looked up in this world" % pn, key="%s|%s" % (q_, pn))


MAPS = ("nodes_map", "links_map", "vehicles_map")


@rule("P21", "R3", "the name registries of the C++ engine are never read in a way that inserts an unknown name")
def r3(c):
    pr = P.cpp_main()
    n = 0
    for f in (pr.allf.values() if isinstance(pr.allf, dict) else pr.allf):
        for s in stmts_walk(f.body):
            targets = list(s[1]) if s[0] == "assign" else []
            for e in stmt_exprs(s):
                for x in expr_walk(e):
                    if x[0] == "idx" and x[1][0] in ("attr", "name") and x[1][-1] in MAPS:
                        n += 1
                        c.ob(any(x is t for t in targets), "%s:%s (%s)" % (short(f.file), s[-1] if isinstance(s[-1], int) else f.line, f.qual), "%s[...] inserts a null element for an unknown name when it is read" % x[1][-1], key="%s|%s" % (f.qual, x[1][-1]))
    c.floor(n, 3, "accesses of the name registries of the C++ engine")


@rule("P21", "R4", "an object of another world is never taken for an element of this world")
def r4(c):
    """constructors that take elements keep only what the lookup of their own world returned"""
    for lang, q_, want in (("py", "Link.__init__", {"start_node": "start_node", "end_node": "end_node"}), ("wrap", "CppLink.__init__", {"start_node": "start_node", "end_node": "end_node"}),
                           ("py", "Vehicle.__init__", {"orig": "orig", "dest": "dest"})):
        r = get(c, lang, q_)
        for fld, pn in want.items():
            v = r.heap("s." + fld)
            p = mk("p", pn)
            ok = v.kind == "mcall" and v.a[1] == "get_node" and v.a[0] is r.ev.world and v.a[2] and v.a[2][0] is p
            c.ob(True if ok else (False if raw(v, p, LOOK["node"]) or not V_.contains_v(v, lambda y: y is p) else None), head(r), "%s is the node of this world given as %s; found %s" % (fld, pn, inl(v)), key="%s|%s" % (q_, fld))
    r = get(c, "cpp", "Link.Link")
    for fld, pn in (("start_node", "start_node_name"), ("end_node", "end_node_name")):
        v = r.heap("s." + fld)
        ok = v.kind in ("mcall", "call") and any(y is mk("p", pn) for y in V_.walk(v)) and not any(x.kind == "p" and x.a[0] in ("start_node_name", "end_node_name") and x.a[0] != pn for x in V_.walk(v))
        c.ob(ok, head(r), "%s is the node named by %s; found %s" % (fld, pn, inl(v)), key="%s|%s" % (r.qual, fld))


@rule("P21", "R5", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P21"), 1, "properties of the elements of the C++ mode")
