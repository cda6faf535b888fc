from itertools import combinations
from fractions import Fraction
from .common import *
from ..setmodel import Model, Undecided, Raises, X

"""The choice of the next link is decided over finite models: every combination of present kinds of links
(preferred or not, avoided or not, leading back or not), with the reference selection
  preferred ones if any, without the avoided ones, without those leading back if something is left."""


class Item:
    __slots__ = ("b", "p", "a", "c", "w")

    def __init__(self, b, p, a, c, w):
        self.b, self.p, self.a, self.c, self.w = b, p, a, c, w

    def __repr__(self):
        return ("P" if self.p else "p") + ("A" if self.a else "a") + ("C" if self.c else "c")


NODES = ["orig"] + ["n%d" % i for i in range(8)]      # left so far


def items(zero):
    out = []
    n = 0
    for p in (0, 1):
        for a in (0, 1):
            for c in (0, 1):
                n += 1
                out.append(Item(True, bool(p), bool(a), bool(c), Fraction(0) if zero else Fraction((n * 5) % 9 + 1, 10)))
    return out


def reference(B, nocyc):
    P = [x for x in B if x.p]
    S = P or list(B)
    S = [x for x in S if not x.a]
    if nocyc:
        n = [x for x in S if not x.c]
        S = n or S
    return S


def models(tier):
    k = 8 if tier == "thorough" else 3
    for zero in (False, True):
        its = items(zero)
        for n in range(0, k + 1):
            if zero and n > 2:
                continue
            for sub in combinations(its, n):
                for out in (False, True):
                    ext = [Item(False, True, False, False, Fraction(1)), Item(False, False, True, False, Fraction(1))] if out else []
                    yield list(sub), ext, zero


def hash_(it):
    return 1 + it.p * 4 + it.a * 2 + it.c


def setup(lang, r, who, base, B, ext, nocyc, hard, weight, extra_bools=(), specified=None):
    s = lambda t, **k: r.spec(t, v=who, **k)
    bools = {}
    containers = {base: B}
    pref = [x for x in B + ext if x.p]
    avo = [x for x in B + ext if x.a]
    containers[s("v.links_prefer")] = pref
    containers[s("v.links_avoid")] = avo
    bools[V_.truthy(s("W.no_cyclic_routing"))] = nocyc
    bools[s("W.no_cyclic_routing")] = nocyc
    bools[V_.truthy(s("W.hard_deterministic_mode"))] = hard
    bools[s("W.hard_deterministic_mode")] = hard
    preds = []
    if lang == "py":
        bools[V_.eq(s("v.specified_route"), NONE)] = True
        bools[V_.eq(s("v.mode"), const("taxi"))] = False
        bools[V_.eq(s("v.mode"), const("single_trip"))] = True
        bools[V_.eq(s("v.link.end_node"), s("v.dest"))] = False
        for t in ("x.end_node in set([l[1].start_node for l in v.log_t_link[1:]])", "x.end_node in [l[1].start_node for l in v.log_t_link[1:]]"):
            preds.append((V_.truthy(s(t, x=X)), lambda it: it.c))
        # home, then the links entered: from the origin over a middle node to the node where the choice is made
        L = lambda a, b: {"start_node": a, "end_node": b}
        containers[s("v.log_t_link")] = [[Fraction(i), x] for i, x in enumerate(["home"] + [L(a, b) for a, b in zip(NODES, NODES[1:] + ["here"])])]
        back = [x for x in B + ext if x.c]
        nd = {id(x): NODES[(i * 4) % 9] for i, x in enumerate(back)}
        preds.append((s("x.end_node", x=X), lambda it: nd.get(id(it), "new%x" % id(it))))
        bools[s("v.orig")] = "orig"
    else:
        containers[s("v.specified_route")] = []
        preds.append((V_.truthy(s("v._traveled_nodes[x.end_node.id]", x=X)), lambda it: it.c))
        preds.append((V_.le(V_.sub(s("len(v._traveled_nodes)"), s("x.end_node.id", x=X))), lambda it: False))
    preds.append((s(weight, x=X), lambda it: it.w))
    # the shares of other destinations and other weights are different numbers
    k = 0
    for base_, new in (("v.dest.id", ("v.orig.id", "v.link.end_node.id", "v.link.start_node.id", "v.id", "v.link.id")), ("[v.dest.id][x.id]", ("[x.id][v.dest.id]", "[v.dest.id][x.end_node.id]", "[v.dest.id][x.start_node.id]", "[x.end_node.id][x.id]")), ("v.route_pref[x.id]", ("W.ROUTECHOICE.route_pref[v.orig.id][x.id]", "W.ROUTECHOICE.route_pref[v.link.end_node.id][x.id]", "v.route_pref[x.end_node.id]", "x.length", "x.capacity", "x.number_of_lanes", "x.merge_priority"))):
        for nw in new if base_ in weight else ():
            k += 1
            preds.append((s(weight.replace(base_, nw), x=X), lambda it, k=k: Fraction(1 + (hash_(it) * (k + 3)) % 7, 3)))
    for b, x in extra_bools:
        bools[b] = x
    return Model(containers, preds, bools, attrs=True)


def judge(m, evs, raises, ref, hard, what):
    """None ok, text = violation"""
    hit = [e for e in evs if all(m.truth(m.ev(g)) for g in e.g)]
    rs = [e for e in raises if all(m.truth(m.ev(g)) for g in e.g)]
    if rs:
        return None if not ref else "an error is raised although links are left"
    if not hit:
        return None if not ref else "no link is chosen although links are left"
    v = hit[-1].value
    if v is NONE:
        return None if not ref else "no link is chosen although links are left"
    if v.kind == "ite":
        while v.kind == "ite":
            v = v.a[1] if m.truth(m.ev(v.a[0])) else v.a[2]
    if v.kind == "rnd":
        args = v.a[3]
        C = m.ev(args[0])
        kw = dict(v.a[4]) if v.a[4] else {}
        if set(map(id, C)) != set(map(id, ref)) or len(C) != len(ref):
            return "chooses among %s instead of %s" % (sorted(map(str, C)), sorted(map(str, ref)))
        if not C:
            return None
        w = None
        if "p" in kw:
            w = m.ev(kw["p"])
        elif len(args) > 1 and args[1].kind != "p":
            w = m.ev(args[1])
        tot = sum(x.w for x in C)
        if w is None:
            return None if tot == 0 or len(C) == 1 else "choice not weighted by the route shares"
        if len(w) != len(C):
            return "weights do not match the links"
        sw = sum(w)
        if tot == 0:
            return None if sw == 0 or len(set(w)) == 1 else "choice not weighted by the route shares"
        if sw == 0 or any(Fraction(a) / sw != x.w / tot for a, x in zip(w, C)):
            return "choice not weighted by the route shares"
        return None
    x = m.ev(v)
    if not isinstance(x, Item):
        raise Undecided("choice")
    if id(x) not in set(map(id, ref)):
        return "chooses %s, allowed are %s" % (x, sorted(map(str, ref)))
    if hard and x.w != max(y.w for y in ref):
        return "does not choose the link with the largest share"
    if not hard and len(ref) > 1:
        return "choice is not random"
    return None


def check(c, lang, r, evs, raises, who, base, weight, cyc=True, extra=()):
    n = 0
    bad = {}
    und = None
    for B, ext, zero in models(c.tier):
        for nocyc in (False, True) if cyc else (False,):
            for hard in (False, True):
                if zero and hard:
                    continue
                m = setup(lang, r, who, base, B, ext, nocyc, hard, weight, extra)
                ref = reference(B, nocyc)
                try:
                    t = judge(m, evs, raises, ref, hard, "")
                except Raises:
                    t = None if not ref else "fails although links are left"
                except Undecided as ex:
                    und = ex
                    break
                n += 1
                if t:
                    bad.setdefault(t.split(" [")[0].split(" [")[0] if not t.startswith("chooses") else "chooses a link that is not allowed or leaves out an allowed one", (t, B, nocyc, hard))
            if und:
                break
        if und:
            break
    if und is not None and not bad:
        c.ob(None, head(r), "selection of the next link not comparable: %s" % und, key="%s|select" % r.qual)
        return
    if bad:
        for k, (t, B, nocyc, hard) in bad.items():
            c.ob(False, head(r), "selection of the next link: %s (outgoing links %s; P/p preferred or not, A/a avoided, C/c leading back; no_cyclic_routing=%s, deterministic=%s)" % (t, B, nocyc, hard), key="%s|select" % r.qual)
    else:
        c.ob(True, head(r), "selection of the next link agrees with the reference in %d models" % n, key="%s|select" % r.qual)
    c.floor(n, 100 if not bad else 0, "models of the selection")


PW = "v.route_pref[x.id]"
CW = "W.route_preference[v.dest.id][x.id]"


@rule("P15", "R1", "next link at a node: preferred ones if any, never an avoided one, no way back if another choice exists, weighted by the route shares")
def r1(c):
    r = R(c, "py", "Vehicle.route_next_link_choice")
    who = r.self
    evs = [e for e in r.events if e.kind == "set" and e.loc is r.spec("s.route_next_link")]
    c.floor(len(evs), 2, "choices")
    check(c, "py", r, evs, r.raises(), who, r.spec("s.link.end_node.outlinks"), PW)
    r = R(c, "cpp", "Vehicle.route_next_link_choice")
    evs = [e for e in r.events if e.kind == "set" and e.loc is r.spec("s.route_next_link")]
    c.floor(len(evs), 2, "choices")
    check(c, "cpp", r, evs, r.raises(), r.self, mk("p", "linkset"), CW)


@rule("P15", "R2", "the same selection at departure")
def r2(c):
    r = R(c, "py", "Node.generate")
    ent = entries(r)
    c.floor(len(ent), 1, "departures")
    for e, L, v in ent:
        # choice value, independent of acceptance
        class E:
            pass
        x = E()
        x.value = L
        x.g = []
        base = r.spec("s.outlinks")
        check(c, "py", r, [x], [], v, base, PW, cyc=False)
    r = R(c, "cpp", "Node.generate")
    ch = r.calls("route_next_link_choice")
    for e, L, v in entries(r):
        ok = [p for p in ch if p.recv is v and p.seq < e.seq and p.args and same(p.args[0], r.spec("s.outlinks"))]
        c.ob(bool(ok) and covers(e, ok), where(e), "a departing vehicle selects among the outgoing links of its origin", key="cpp|generate")
        if L.kind in ("a", "ucall") or True:
            c.ob(L is mk("a", v, "route_next_link") or same(L, mk("a", v, "route_next_link")), where(e), "a departing vehicle enters the selected link", key="cpp|generatelink")


@rule("P15", "R3", "preferred and avoided links given by the user are the links of these names, in both modes")
def r3(c):
    for f, fld in (("set_links_prefer", "links_prefer"), ("set_links_avoid", "links_avoid")):
        r = R(c, "py", "Vehicle." + f)
        formula(c, r, "s." + fld, "[W.get_link(l) for l in links]", "%s keeps every given link" % f, extra=())
        r = run("wrap", "CppVehicle." + f)
        c.used(r)
        cf = "links_preferred" if fld == "links_prefer" else "links_avoid"
        ev = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == cf and e.loc.a[0] is r.spec("s._cpp_vehicle")]
        c.ob(bool(ev), head(r), "%s hands the links to the engine" % f, key="wrap|" + f)
        for e in ev:
            v = e.value
            ok = None
            if v.kind == "comp":
                ok = v.a[3] is TRUE and v.a[1].kind == "a" and v.a[1].a[1] == "_cpp_link" and same(stripc(v.a[2]), mk("p", "links")) or (v.a[3] is TRUE and v.a[2] is r.heap("s." + fld))
            c.ob(ok, where(e), "every given link is handed to the engine", key="wrap|each|" + f)


@rule("P15", "R4", "C++: the nodes a vehicle left are recorded at every link entry")
def r4(c):
    for fn in ("Node.generate", "Node.transfer"):
        r = R(c, "cpp", fn)
        ent = entries(r)
        c.floor(len(ent), 1, "entries")
        for e, L, v in ent:
            ev = [p for p in r.events if p.kind == "set" and p.loc.kind == "i" and V_.contains_v(p.loc.a[0], lambda y: y is mk("a", v, "_traveled_nodes")) and V_.truthy(p.value) is TRUE]
            ok = [p for p in ev if same(p.loc.a[1], mk("a", mk("a", L, "start_node"), "id"))]
            c.ob(covers(e, ok), where(e), "the start node of the entered link is recorded as left", key="%s|trav" % fn)




@rule("P15", "R5", "C++: the weighted draw returns element i with probability proportional to weight i, and uniformly if all weights vanish")
def r5(c):
    r = R(c, "cpp", "random_choice")
    I, Wt = mk("p", "items"), mk("p", "weights")
    rets = r.r.returns
    c.floor(len(rets), 3, "results of the draw")
    tot = mk("sum", mk("elem", Wt), Wt)
    n = 0
    for s, v in rets:
        if v.kind == "search":
            n += 1
            el, cnd, it = v.a[0], v.a[1], v.a[2]
            ok = (el is mk("elem", I) or el is mk("i", I, mk("elem", it)))
            c.ob(ok, head(r), "the drawn element comes from the items", key="rc|elem")
            d = [x for x in V_.walk(cnd) if x.kind == "mcall" and "uniform_real" in V_.show(x)[:80]]
            okd = bool(d) and any(same(y, tot) for x in d for y in [dist_args(x)[1]] if y is not None) and all(V_.is_zero(dist_args(x)[0]) for x in d if dist_args(x)[0] is not None)
            c.ob(okd, head(r), "the draw covers exactly the range from 0 to the sum of the weights", key="rc|range")
            lv = [x for x in V_.walk(cnd) if x.kind == "lv"]
            oka = None
            if len(lv) == 1 and d:
                rec = [x for (lid, l), x in r.ev.looprec.items() if l is lv[0]]
                w = [x for x in V_.walk(cnd) if x.kind == "i" and x.a[0] is Wt]
                w = w[0] if w else mk("elem", Wt)
                if rec:
                    init, endv, _ = rec[0]
                    oka = V_.is_zero(init) and same(endv, V_.add(lv[0], w)) and any(cnd is f(V_.sub(d[0], V_.add(lv[0], w))) for f in (V_.le, V_.lt))
                    ix = w.a[1] if w.kind == "i" else None
                    if ix is not None:
                        oka = oka and ix is mk("elem", it) and it.kind == "range" and V_.is_zero(it.a[0])
            c.ob(oka, head(r), "an element is taken when the draw falls into its weight interval", key="rc|interval")
        elif v.kind == "i" and v.a[0] is I and V_.num(v.a[1]) is None:
            a = [x for x in V_.walk(v.a[1]) if x.kind == "mcall"]
            ok = None
            if a and dist_args(a[0])[0] is not None:
                lo, hi = dist_args(a[0])
                ok = V_.is_zero(lo) and same(hi, V_.sub(mk("call", "len", (I,), ()), ONE))
            c.ob(ok, head(r), "with vanishing weights every element can be drawn equally", key="rc|uniform")
            c.ob(implied(list(s.g), V_.le(tot)), head(r), "the uniform draw is used only if all weights vanish", key="rc|fallback")
    c.floor(n, 1, "weighted draws")


def dist_args(x):
    for y in V_.walk(x):
        if y.kind in ("ucall", "call", "new") and "distribution" in str(y.a[0]):
            a = [z for z in y.a if isinstance(z, tuple)]
            if a and len(a[0]) == 2:
                return a[0]
    return (None, None)


@rule("P15", "R6", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P15"), 1, "properties of the elements of the C++ mode")
