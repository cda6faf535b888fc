"""Structured value-numbering evaluator (gated SSA over the mini-IR).

Walks each function once (loops twice), inlining project helpers, and produces effect events
(heap writes, container mutations, calls, raises, returns) whose targets, values and guards are
canonical terms of `val`.  Nothing of the analysed project is executed.
"""
from . import val as V_
from .val import V, mk, const, NONE, TRUE, FALSE, ZERO, ONE, add, sub, mul, div, neg
from .ir import Func, stmts_walk, stmt_exprs, expr_walk

CHAIN = {"grown", "appended", "prepended", "popped0", "poppedlast", "removed", "extended", "inserted", "sorted_", "keyset", "keydel"}
MUTATORS = {"append": "append", "push_back": "append", "emplace_back": "append", "appendleft": "appendleft", "push_front": "appendleft",
            "pop": "pop", "popleft": "popleft", "pop_front": "popleft", "pop_back": "poplast", "popitem": "popitem",
            "remove": "remove", "insert": "insert", "extend": "extend", "clear": "clear", "add": "add", "discard": "remove",
            "update": "update", "setdefault": "setdefault", "sort": "sort", "reverse": "reverse", "erase": "erase", "push": "append",
            "resize": "resize", "assign": "assign", "reserve": "reserve", "swap": "swap"}
CONTAINERISH_CPP = ("vector", "deque", "map", "set", "unordered", "queue", "string", "basic_string")


class Event:
    __slots__ = ("kind", "loc", "value", "old", "name", "recv", "args", "kw", "g", "loops", "line", "file", "func", "stack", "seq", "ret", "inl", "lids", "lg")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        gs = " & ".join(V_.show(x) for x in self.g)
        if self.kind == "set":
            t = "%s := %s" % (V_.show(self.loc), V_.show(self.value))
        elif self.kind == "mut":
            t = "%s.%s(%s)" % (V_.show(self.loc), self.name, ", ".join(V_.show(a) for a in self.args))
        elif self.kind in ("call", "new"):
            t = "%s %s%s(%s)" % (self.kind, (V_.show(self.recv) + ".") if self.recv is not None else "", self.name, ", ".join([V_.show(a) for a in self.args] + ["%s=%s" % (n, V_.show(a)) for n, a in self.kw]))
        else:
            t = "%s %s" % (self.kind, V_.show(self.value) if self.value is not None else "")
        return "L%s[%s] %s   if {%s}%s" % (self.line, self.func.split(".")[-1] if self.func else "", t, gs, ("  loops " + " / ".join(V_.show(l) for l in self.loops)) if self.loops else "")


class St:
    __slots__ = ("env", "heap", "g", "alive")

    def __init__(self, env, heap, g):
        self.env = env
        self.heap = heap
        self.g = g
        self.alive = True

    def copy(self):
        s = St(dict(self.env), dict(self.heap), list(self.g))
        s.alive = self.alive
        return s

    def become(self, o):
        self.env = o.env
        self.heap = o.heap
        self.g = o.g
        self.alive = o.alive


class Frame:
    def __init__(self, func, selfcls, depth):
        self.func = func
        self.selfcls = selfcls
        self.depth = depth
        self.returns = []      # (St, value)
        self.loops = []        # list of dict(breaks=[], conts=[])
        self.globals = set()
        self.ptypes = {}


CONTAINERS = ("ddict", "defaultdict", "dict", "list", "set", "deque", "OrderedDict")


def fresh_container(v):
    if v.kind in ("list", "dict", "set"):
        return not v.a or not v.a[0]
    if v.kind == "call":
        f = v.a[0]
        return (f if isinstance(f, str) else str(f)).split(".")[-1] in CONTAINERS
    return False


def root(v):
    while isinstance(v, V):
        if v.kind in CHAIN:
            v = v.a[0]
        elif v.kind == "rec" and _rhochain(v.a[1]):
            v = v.a[0]
        else:
            break
    return v


def _rhochain(v, d=0):
    """loop-carried container that is only grown/shrunk in place"""
    if v.kind == "rho":
        return True
    if v.kind in CHAIN:
        return _rhochain(v.a[0], d)
    if v.kind == "ite" and d < 6:
        return _rhochain(v.a[1], d + 1) and _rhochain(v.a[2], d + 1)
    return False


def field_of(loc):
    """field name owning a location: a(base,f) -> f ; i(container, k) -> field of the container"""
    while isinstance(loc, V):
        if loc.kind == "a":
            return loc.a[1]
        if loc.kind == "i" or loc.kind in CHAIN:
            loc = loc.a[0]
            continue
        if loc.kind == "p":
            return loc.a[0]
        if loc.kind == "new":
            return "new:" + loc.a[0]
        return None
    return None


def base_of(loc):
    while isinstance(loc, V):
        if loc.kind == "a":
            return loc.a[0]
        if loc.kind == "i" or loc.kind in CHAIN:
            loc = loc.a[0]
            continue
        return None
    return None


class Result:
    def __init__(self):
        self.events = []
        self.st = None
        self.ret = None
        self.inlined = set()
        self.opaque = set()

    def heap(self, loc):
        return self.st.heap.get(loc, loc)


class Evaluator:
    def __init__(self, proj, inline=(), stop=None, maxdepth=6, inline_all=False, noinline=()):
        self.P = proj
        self.inline = set(inline)
        self.noinline = set(noinline)
        self.inline_all = inline_all
        self.maxdepth = maxdepth
        self.ev = []
        self.mute = 0
        self.loopstack = []
        self.loopinfo = {}
        self.loopbrk = {}
        self.looprec = {}     # loop instance id -> True if the loop can be left early
        self.lids = []         # (loop instance id, guards at the start of the loop body)
        self.stack = []
        self.uid = 0
        self.writes = []       # stack of sets for loop discovery
        self.inlined = set()
        self.opaque = set()
        self.funcs = {}        # closure table
        self.steps = 0

    # ------------------------------------------------------------------ entry
    def run(self, func, selfcls=None, args=None, env=None, guards=()):
        e = {}
        fr = Frame(func, selfcls if selfcls is not None else func.cls, 0)
        names = [p for p, _ in func.params]
        for p in names:
            e[p] = mk("p", p)
        fr.selfname = names[0] if (func.cls is not None and func.lang == "py" and names and not func.static) else ("self" if func.cls is not None else None)
        if func.cls is not None:
            sv = mk("p", "self")
            if func.lang == "cpp":
                e["self"] = sv
            elif names and not func.static:
                e[names[0]] = sv
        if func.vararg:
            e[func.vararg] = mk("p", "*" + func.vararg)
        if func.kwarg:
            e[func.kwarg] = mk("p", "**" + func.kwarg)
        if args:
            e.update(args)
        if env:
            e.update(env)
        wf = self.P.world_field
        self.world = mk("p", "self") if (func.cls is not None and func.cls.name in ("World", "CppWorld")) else mk("p", "W")
        if wf and wf in names and e[wf].kind == "p":
            e[wf] = self.world
        for p in names:
            if e[p].kind == "p":
                fr.ptypes[e[p].a[0]] = self.P.param_type(func, p)
        self.topptypes = fr.ptypes
        st = St(e, {}, list(guards))
        self.frames = [fr]
        self.stack.append(func.qual)
        self.block(func.body, st, fr)
        self.stack.pop()
        outs = list(fr.returns)
        if st.alive:
            outs.append((st, NONE))
        r = Result()
        r.events = self.ev
        r.inlined = self.inlined
        r.opaque = self.opaque
        if outs:
            r.st, r.ret = self.merge_many(outs, list(guards))
        else:
            r.st = St({}, {}, [])
            r.ret = None
        r.returns = outs
        return r

    # ------------------------------------------------------------------ merging
    def rel(self, st, base):
        n = len(base)
        if st.g[:n] == base:
            return V_.and_(st.g[n:])
        bs = set(base)
        return V_.and_([x for x in st.g if x not in bs])

    def merge_many(self, outs, base):
        """outs: list of (St, value)"""
        outs = [o for o in outs]
        st, val = outs[-1]
        cond = self.rel(st, base)
        conds = [cond]
        env, heap = st.env, st.heap
        for s2, v2 in reversed(outs[:-1]):
            c = self.rel(s2, base)
            conds.append(c)
            env = self.merge_map(c, s2.env, env, False)
            heap = self.merge_map(c, s2.heap, heap, True)
            val = V_.ite(c, v2, val) if (v2 is not None and val is not None) else val
        g = V_.or_(conds)
        st = St(env, heap, base + [x for x in V_.conj(g) if x not in base])
        return st, val

    def merge_map(self, c, a, b, heap):
        if a is b:
            return dict(a)
        out = {}
        for k in list(a.keys()) + [k for k in b.keys() if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is y:
                out[k] = x
                continue
            if heap:
                x = k if x is None else x
                y = k if y is None else y
                out[k] = V_.ite(c, x, y)
            else:
                if x is None or y is None:
                    out[k] = x if y is None else y
                    if x is not None or y is not None:
                        pass
                else:
                    if isinstance(x, V) and isinstance(y, V):
                        out[k] = V_.ite(c, x, y)
                    else:
                        out[k] = x
        return out

    # ------------------------------------------------------------------ events
    def emit(self, **k):
        if self.mute:
            return None
        fr = self.frames[-1]
        e = Event(loops=tuple(self.loopstack), lids=tuple(x[0] for x in self.lids), lg=tuple(x[1] for x in self.lids), func=fr.func.qual, file=fr.func.file, stack=tuple(self.stack), seq=len(self.ev), **k)
        self.ev.append(e)
        return e

    def logwrite(self, loc):
        for w in self.writes:
            w.add(loc)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if not st.alive:
                return
            self.steps += 1
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        t = s[0]
        line = s[-1] if isinstance(s[-1], int) else None
        if t == "while":
            line = s[4]
        self.line = line
        if t == "assign":
            v = self.expr(s[2], st, fr)
            if getattr(self, "alloc", False) and len(s[1]) == 1 and s[1][0][0] in ("name", "attr") and (v.kind in ("comp", "list") or v.kind == "call" and v.a[0] in ("np.zeros", "ddict", "defaultdict", "np.full", "np.ones")):
                n = s[1][0][-1] if s[1][0][0] == "attr" else s[1][0][1]
                self.allocdepth.setdefault(n, []).append(len(self.lids))
                v = mk("new", n, v)
            for tg in s[1]:
                self.store(tg, v, st, fr, line)
        elif t == "aug":
            cur = self.expr(s[1], st, fr)
            r = self.expr(s[3], st, fr)
            if s[2] == "+" and (cur.kind in ("list", "comp", "concat", "grown") or r.kind in ("list", "comp")) and s[1][0] in ("name", "attr", "idx"):
                self.mutate(s[1], "extend", [r], st, fr, line, cur)
            else:
                self.store(s[1], self.binop(s[2], cur, r), st, fr, line, aug=True)
        elif t == "expr":
            self.expr(s[1], st, fr)
        elif t == "if":
            self.do_if(s, st, fr)
        elif t == "for":
            self.do_for(s, st, fr)
        elif t == "while":
            self.do_while(s, st, fr)
        elif t == "return":
            v = self.expr(s[1], st, fr) if s[1] is not None else NONE
            fr.returns.append((st.copy(), v))
            self.emit(kind="return", value=v, g=list(st.g), line=line)
            st.alive = False
        elif t == "break":
            if fr.loops:
                fr.loops[-1]["breaks"].append(st.copy())
            st.alive = False
        elif t == "continue":
            if fr.loops:
                fr.loops[-1]["conts"].append(st.copy())
            st.alive = False
        elif t == "raise":
            v = self.expr(s[1], st, fr) if s[1] is not None else NONE
            self.emit(kind="raise", value=v, g=list(st.g), line=line)
            if getattr(fr, "raises", None) is not None:
                fr.raises.append(st.copy())
            st.alive = False
        elif t == "assert":
            c = V_.truthy(self.expr(s[1], st, fr))
        elif t == "try":
            self.do_try(s, st, fr)
        elif t == "with":
            for e, tg in s[1]:
                v = self.expr(e, st, fr)
                if tg is not None:
                    self.store(tg, v, st, fr, line)
            self.block(s[2], st, fr)
        elif t == "def":
            f = s[1]
            fid = mk("func", f.qual, f.line)
            self.funcs[fid] = (f, st.env, fr)
            st.env[f.name] = fid
        elif t == "class":
            st.env[s[1].name] = mk("localclass", s[1].name)
            self.P.local_classes[s[1].name] = s[1]
        elif t == "del":
            for tg in s[1]:
                if tg[0] == "idx":
                    self.mutate(tg[1], "del", [self.expr(tg[2], st, fr)], st, fr, line)
                elif tg[0] == "name":
                    st.env.pop(tg[1], None)
        elif t == "global":
            fr.globals.update(s[1])
        elif t == "block":
            self.block(s[1], st, fr)

    def do_if(self, s, st, fr):
        c = V_.truthy(self.simp(self.expr(s[1], st, fr), st))
        c = self.simp_bool(c, st)
        if c is TRUE:
            self.block(s[2], st, fr)
            return
        if c is FALSE:
            self.block(s[3], st, fr)
            return
        base = list(st.g)
        a = st.copy()
        b = st.copy()
        a.g = base + [x for x in V_.conj(c) if x not in base]
        nc = V_.not_(c)
        b.g = base + [x for x in V_.conj(nc) if x not in base]
        self.block(s[2], a, fr)
        self.block(s[3], b, fr)
        self.join(st, a, b, c, base)

    def join(self, st, a, b, c, base):
        if a.alive and b.alive:
            ca = self.rel(a, base)
            m_env = self.merge_map(c, a.env, b.env, False)
            m_heap = self.merge_map(c, a.heap, b.heap, True)
            st.env = m_env
            st.heap = m_heap
            g = V_.or_([ca, self.rel(b, base)])
            st.g = base + [x for x in V_.conj(g) if x not in base]
        elif a.alive:
            st.become(a)
        elif b.alive:
            st.become(b)
        else:
            st.alive = False

    def do_try(self, s, st, fr):
        _, body, handlers, orelse, final, line = s
        pre = st.copy()
        a = st.copy()
        base = list(st.g)
        # calls in the body may raise: every fact established before is kept, effects are as in the body
        self.block(body, a, fr)
        if a.alive:
            self.block(orelse, a, fr)
        outs = []
        if a.alive:
            outs.append(a)
        for i, h in enumerate(handlers):
            hb = pre.copy()
            hb.g = base + [mk("exc", line or 0, i)]
            if h[1]:
                hb.env[h[1]] = mk("p", "exc")
            self.block(h[2], hb, fr)
            if hb.alive:
                outs.append(hb)
        if not outs:
            st.alive = False
            if final:
                f = pre.copy()
                self.block(final, f, fr)
            return
        cur = outs[0]
        for o in outs[1:]:
            c = self.rel(o, base)
            m = cur.copy()
            m.env = self.merge_map(c, o.env, cur.env, False)
            m.heap = self.merge_map(c, o.heap, cur.heap, True)
            m.g = list(base)
            cur = m
        st.become(cur)
        self.block(final, st, fr)

    # ------------------------------------------------------------------ loops
    def do_for(self, s, st, fr):
        _, target, it, body, orelse, line = s
        itv = self.expr(it, st, fr)
        itv = self.strip_iter(itv, st)
        if itv.kind in ("list", "tuple") and 0 < len(itv.a[0]) <= 4 and not orelse:
            # constant short list: unroll unless the body can leave the loop
            if not any(x[0] in ("break", "continue") for x in stmts_walk(body)):
                for x in itv.a[0]:
                    if not st.alive:
                        return
                    self.store(target, x, st, fr, line)
                    self.block(body, st, fr)
                return
        self.loop(lambda s2: self.bind_iter(target, itv, s2, fr, line), itv, body, orelse, st, fr)

    def strip_iter(self, v, st):
        while True:
            if v.kind == "call" and v.a[0] in ("list", "tuple", "iter", "reversed_") and len(v.a[1]) == 1:
                v = v.a[1][0]
                continue
            if v.kind == "mcall" and v.a[1] in ("keys", "copy") and not v.a[2]:
                v = v.a[0]
                continue
            if v.kind == "mcall" and v.a[1] == "values":
                return mk("values", v.a[0])
            if v.kind == "mcall" and v.a[1] == "items":
                return mk("items", v.a[0])
            return v

    def elem(self, itv):
        on = [itv in self.binds(l) for l in self.loopstack]
        n = sum(on[:-1])
        return mk("elem", itv) if n == 0 else mk("elem", itv, n)

    def binds(self, l):
        """the collections a loop takes its elements from"""
        if l.kind == "call" and l.a[0] == "enumerate" and l.a[1]:
            x = self.strip_iter(l.a[1][0], None)
            return {l, mk("range", ZERO, self.length(x))} | self.binds(x)
        if l.kind == "call" and l.a[0] == "zip":
            return {l}.union(*[self.binds(self.strip_iter(x, None)) for x in l.a[1]])
        if l.kind == "items":
            return {l, l.a[0], mk("values", l.a[0])}
        return {l}

    def iter_value(self, itv):
        """value of one loop element"""
        if itv.kind == "call" and itv.a[0] == "enumerate":
            x = self.strip_iter(itv.a[1][0], None)
            start = itv.a[1][1] if len(itv.a[1]) > 1 else dict(itv.a[2]).get("start", ZERO)
            idx = self.elem(mk("range", ZERO, self.length(x)))
            return mk("tuple", (add(idx, start), self.iter_value(x)))
        if itv.kind == "call" and itv.a[0] == "zip":
            return mk("tuple", tuple(self.iter_value(self.strip_iter(x, None)) for x in itv.a[1]))
        if itv.kind == "items":
            return mk("tuple", (self.elem(itv.a[0]), self.elem(mk("values", itv.a[0]))))
        if itv.kind == "comp" and itv.a[0] in ("list", "gen"):
            # element of a filtered list: the guard is added by the caller
            return itv.a[1]
        return self.elem(itv)

    def bind_iter(self, target, itv, st, fr, line):
        self.store(target, self.iter_value(itv), st, fr, line, bind=True)
        if itv.kind == "comp" and itv.a[0] in ("list", "gen"):
            st.g = st.g + [x for x in V_.conj(itv.a[3]) if x not in st.g]

    def do_while(self, s, st, fr):
        _, cond, body, orelse, line = s[:5]
        inc = s[5] if len(s) > 5 else []
        # counted while -> for over range
        if cond[0] == "cmp" and cond[1] in ("<", "!=") and cond[2][0] == "name" and not inc and body and body[-1][0] == "aug" and body[-1][1] == cond[2] and body[-1][2] == "+" and body[-1][3] == ("const", 1):
            var = cond[2]
            inner = body[:-1]
            bad = False
            for x in stmts_walk(inner):
                if x[0] in ("continue",) or (x[0] == "aug" and x[1] == var) or (x[0] == "assign" and var in x[1]):
                    bad = True
            if not bad and cond[2][1] in st.env:
                start = st.env[cond[2][1]]
                end = self.expr(cond[3], st, fr)
                itv = self.mkrange([start, end])
                hasbreak = any(x[0] == "break" for x in inner)
                self.loop(lambda s2: self.bind_iter(var, itv, s2, fr, line), itv, inner, orelse, st, fr)
                if not hasbreak and st.alive:
                    st.env[var[1]] = V_.mx([start, end]) if start is not ZERO else end
                return
        itv = mk("whileiter", self.uidv("w") if False else const("w"))

        def bind(s2):
            c = V_.truthy(self.expr(cond, s2, fr))
            c = self.simp_bool(c, s2)
            s2.g = s2.g + [x for x in V_.conj(c) if x not in s2.g]
        body2 = body
        if inc:
            body2 = body
        self.loop(bind, None, body2, orelse, st, fr, cond=cond, inc=inc)

    def uidv(self, p):
        self.uid += 1
        return mk("u", p, self.uid)

    def loop(self, bind, itv, body, orelse, st, fr, cond=None, inc=None):
        pre = st.copy()
        depth = len(self.loopstack)
        tag = itv if itv is not None else mk("while", depth)
        self.loopstack.append(tag)
        self.uid += 1
        self.lids.append((self.uid, ()))
        # pass 1: discover what the body changes
        self.mute += 1
        self.writes.append(set())
        s1 = pre.copy()
        fr.loops.append({"breaks": [], "conts": []})
        nret = len(fr.returns)
        bind(s1)
        self.block(body, s1, fr)
        lp = fr.loops.pop()
        if inc and (s1.alive or lp["conts"]):
            q = s1 if s1.alive else lp["conts"][0].copy()
            self.block(inc, q, fr)
            s1 = q
        changed = set()
        for o in ([s1] if True else []) + lp["conts"] + lp["breaks"]:
            for k, v in o.env.items():
                if k in pre.env and pre.env[k] is not v:
                    changed.add(k)
        w1 = self.writes.pop()
        for w in self.writes:
            w |= w1
        del fr.returns[nret:]
        self.mute -= 1
        # pass 2
        s2 = pre.copy()
        lvs = {}
        for n in changed:
            if isinstance(pre.env[n], V) and pre.env[n].kind in ("func", "localclass"):
                continue
            lv = mk("lv", n, depth)
            lvs[n] = lv
            s2.env[n] = lv
        self.kill(s2, w1)
        base = list(s2.g)
        fr.loops.append({"breaks": [], "conts": []})
        nret = len(fr.returns)
        nraise = len(fr.raises) if getattr(fr, "raises", None) is not None else 0
        ev0 = len(self.ev)
        bind(s2)
        inner_base = list(s2.g)
        self.lids[-1] = (self.lids[-1][0], tuple(inner_base))
        self.block(body, s2, fr)
        lp = fr.loops.pop()
        ends = ([(s2, NONE)] if s2.alive else []) + [(c, NONE) for c in reversed(lp["conts"])]
        if ends:
            # order: conts first
            end, _ = self.merge_many([(c, NONE) for c in lp["conts"]] + ([(s2, NONE)] if s2.alive else []), base)
            if inc:
                self.block(inc, end, fr)
        else:
            end = None
        self.loopstack.pop()
        lid = self.lids.pop()[0]
        brks = lp["breaks"]
        self.loopinfo[lid] = bool(brks) or len(fr.returns) > nret
        # raises in the loop body narrow nothing here (kept as events)
        out = pre.copy()
        bcond = V_.or_([self.rel(b, base) for b in brks]) if brks else FALSE
        self.loopbrk[lid] = bcond
        for n, lv in lvs.items():
            init = pre.env[n]
            endv = end.env.get(n, lv) if end is not None else lv
            bv = None
            if brks:
                bv = brks[-1].env.get(n, lv)
                for b in reversed(brks[:-1]):
                    bv = V_.ite(self.rel(b, base), b.env.get(n, lv), bv)
            self.looprec[(lid, lv)] = (init, endv, bcond)
            out.env[n] = self.recur(init, lv, endv, tag, bcond, bv)
        # new variables visible after the loop
        src = end if end is not None else (brks[-1] if brks else None)
        if src is not None:
            for n, v in src.env.items():
                if n not in pre.env:
                    if brks and end is not None:
                        bvv = brks[-1].env.get(n)
                        out.env[n] = mk("search", bvv, bcond, tag, v) if bvv is not None and bvv is v else v
                    else:
                        out.env[n] = v
        # heap after the loop
        self.kill(out, w1)
        for loc in w1:
            if self.mentions_elem(loc, tag) or getattr(self, "alloc", False):
                continue
            init = pre.heap.get(loc, loc)
            endv = end.heap.get(loc) if end is not None else None
            if endv is None:
                continue
            if self.mentions_lv(loc):
                continue
            bv = None
            if brks:
                bv = brks[-1].heap.get(loc, loc)
            out.heap[loc] = self.recur(init, loc, endv, tag, bcond, bv)
        # returns from inside the loop
        retc = []
        for i in range(nret, len(fr.returns)):
            s, v = fr.returns[i]
            c = self.rel(s, base)
            c2 = self.anyof(c, tag)
            retc.append(c2)
            if self.mentions_elem(v, tag) or any(self.vhas(v, lv) for lv in lvs.values()):
                v = mk("search", v, c, tag, NONE)
            s = s.copy()
            s.g = list(pre.g) + [x for x in V_.conj(c2) if x not in pre.g]
            fr.returns[i] = (s, v)
        if retc:
            for x in retc:
                nx = V_.not_(x)
                out.g = out.g + [y for y in V_.conj(nx) if y not in out.g]
        if cond is not None and cond == ("const", True) and not brks:
            out.alive = False
        elif cond is not None and not brks and not retc:
            pass
        st.become(out)
        if orelse and st.alive:
            if brks:
                e = st.copy()
                nb = V_.not_(self.anyof(bcond, tag))
                base2 = list(st.g)
                e.g = base2 + [x for x in V_.conj(nb) if x not in base2]
                o = st.copy()
                o.g = base2 + [x for x in V_.conj(V_.not_(nb)) if x not in base2]
                self.block(orelse, e, fr)
                self.join(st, e, o, nb, base2)
            else:
                self.block(orelse, st, fr)

    def anyof(self, c, tag):
        if c is TRUE:
            return mk("nonempty", tag)
        if c is FALSE:
            return FALSE
        if not self.mentions_elem(c, tag) and not V_.contains_v(c, lambda x: x.kind == "lv"):
            return c
        return mk("any", c, tag)

    def mentions_elem(self, v, tag):
        if v is None:
            return False
        return V_.contains_v(v, lambda x: x.kind == "elem" and (x.a[0] is tag or self.subiter(x.a[0], tag)))

    def subiter(self, it, tag):
        if tag.kind == "call" and tag.a[0] in ("enumerate", "zip"):
            for x in tag.a[1]:
                y = self.strip_iter(x, None) if isinstance(x, V) else x
                if it is y or (it.kind == "range"):
                    return True
                if isinstance(y, V) and self.subiter(it, y):
                    return True
        if tag.kind == "items":
            return it is tag.a[0] or (it.kind == "values" and it.a[0] is tag.a[0])
        if tag.kind == "comp":
            return it is tag.a[2]
        if tag.kind == "range" and it.kind not in ("range",):
            # elem(range(0,len(L))) has been canonicalised to elem(L)
            n = tag.a[1]
            return n.kind == "call" and n.a[0] == "len" and n.a[1][0] is it
        return False

    def mentions_lv(self, v):
        return V_.contains_v(v, lambda x: x.kind == "lv")

    def vhas(self, v, at):
        return V_.contains_v(v, lambda x: x is at)

    def recur(self, init, lv, endv, tag, bcond, bv):
        if endv is lv and (bv is None or bv is lv):
            return init
        if bcond is not FALSE and bv is not None and endv is lv:
            return mk("search", bv if not self.vhas(bv, lv) else V_.subst(bv, lambda x: init if x is lv else None), bcond, tag, init)
        if bcond is not FALSE:
            rho = mk("rho")
            more = () if bv is None or bv is lv else (V_.subst(bv, lambda x: rho if x is lv else None),)
            return mk("rec", init, V_.subst(endv, lambda x: rho if x is lv else None), tag, V_.subst(bcond, lambda x: rho if x is lv else None), *more)
        d = self.delta(endv, lv)
        if d is not None:
            return add(init, self.mksum(d, tag))
        ld = self.listdelta(endv, lv)
        if ld is not None:
            c = mk("comp", "list", ld[1], tag, ld[0])
            if init.kind == "list" and not init.a[0]:
                return c
            return mk("grown", init, c)
        if endv.kind in ("min", "max") and lv in endv.a:
            rest = [x for x in endv.a if x is not lv]
            if not any(self.vhas(x, lv) for x in rest):
                return V_.mn([init, mk(endv.kind + "over", V_.mn(rest, endv.kind), tag)], endv.kind)
        if V_.is_bool(endv) and endv.kind == "or":
            parts = list(endv.a[0])
            t = V_.truthy(lv)
            if t in parts or lv in parts:
                rest = [x for x in parts if x is not t and x is not lv]
                if not any(self.vhas(x, lv) for x in rest):
                    return V_.or_([init, self.anyof(V_.or_(rest), tag)])
        if V_.is_bool(endv) and endv.kind == "and":
            parts = list(endv.a[0])
            t = V_.truthy(lv)
            if t in parts or lv in parts:
                rest = [x for x in parts if x is not t and x is not lv]
                if not any(self.vhas(x, lv) for x in rest):
                    return V_.and_([init, V_.not_(self.anyof(V_.not_(V_.and_(rest)), tag))])
        if endv.kind == "ite" and not self.vhas(endv.a[0], lv):
            c, a, b = endv.a
            if b is lv and not self.vhas(a, lv) and V_.is_bool(a) and V_.is_bool(init):
                if a is TRUE:
                    return V_.or_([init, self.anyof(c, tag)])
                if a is FALSE:
                    return V_.and_([init, V_.not_(self.anyof(c, tag))])
            if a is lv and not self.vhas(b, lv) and V_.is_bool(b) and V_.is_bool(init):
                if b is TRUE:
                    return V_.or_([init, self.anyof(V_.not_(c), tag)])
                if b is FALSE:
                    return V_.and_([init, V_.not_(self.anyof(V_.not_(c), tag))])
        rho = mk("rho")
        return mk("rec", init, V_.subst(endv, lambda x: rho if x is lv else None), tag, FALSE)

    def mksum(self, d, tag):
        n = V_.num(d)
        if n is not None:
            return mul(d, self.length(tag))
        return mk("sum", d, tag)

    def delta(self, v, lv):
        if v is lv:
            return ZERO
        if v.kind == "ite":
            if self.vhas(v.a[0], lv):
                return None
            a = self.delta(v.a[1], lv)
            b = self.delta(v.a[2], lv)
            if a is None or b is None:
                return None
            return V_.ite(v.a[0], a, b)
        if v.kind == "poly":
            d = V_.sub(v, lv)
            if not self.vhas(d, lv):
                return d
            # an ite hidden in the sum
        return None

    def listdelta(self, v, lv):
        if v.kind == "appended" and v.a[0] is lv and not self.vhas(v.a[1], lv):
            return (TRUE, v.a[1])
        if v.kind == "ite" and not self.vhas(v.a[0], lv):
            c, a, b = v.a
            if b is lv:
                r = self.listdelta(a, lv)
                return (V_.and_([c, r[0]]), r[1]) if r else None
            if a is lv:
                r = self.listdelta(b, lv)
                return (V_.and_([V_.not_(c), r[0]]), r[1]) if r else None
        return None

    def kill(self, st, locs):
        if not locs:
            return
        fields = set()
        for l in locs:
            fields.add(field_of(l))
        dead = [k for k in st.heap if field_of(k) in fields]
        for k in dead:
            del st.heap[k]

    def kill_fields(self, st, fields):
        dead = [k for k in st.heap if field_of(k) in fields]
        for k in dead:
            del st.heap[k]
            self.logwrite(k)

    # ------------------------------------------------------------------ stores
    def store(self, tg, v, st, fr, line, aug=False, bind=False):
        t = tg[0]
        if t == "name":
            n = tg[1]
            if n in fr.globals:
                loc = mk("p", n)
                self.emit(kind="set", loc=mk("a", mk("p", "@global"), n), value=v, old=st.env.get(n, loc), g=list(st.g), line=line)
            elif n not in st.env and fr.func.lang == "cpp" and n in self.P.module_globals(fr.func):
                self.emit(kind="set", loc=mk("a", mk("p", "@global"), n), value=v, old=mk("p", n), g=list(st.g), line=line)
            elif fr.func.lang == "cpp" and n in st.env and self.cpp_ref(st.env[n], fr, n):
                # assignment through a reference to a heap scalar
                loc = st.env[n]
                self.write(loc, v, st, line)
                return
            if getattr(self, "named", False) and fresh_container(v):
                v = mk("p", n)
            st.env[n] = v
            return
        if t in ("tuple", "list"):
            items = tg[1]
            if v.kind in ("tuple", "list") and len(v.a[0]) == len(items) and not any(x[0] == "star" for x in items):
                for x, y in zip(items, v.a[0]):
                    self.store(x, y, st, fr, line, bind=bind)
            else:
                for k, x in enumerate(items):
                    if x[0] == "star":
                        self.store(x[1], mk("rest", v, k), st, fr, line, bind=bind)
                    else:
                        self.store(x, self.index(v, const(k), st), st, fr, line, bind=bind)
            return
        if t == "attr":
            b = self.expr(tg[1], st, fr)
            b = self.simp(b, st)
            # property setter
            cls = self.P.typeof(b, self)
            if cls:
                f = self.P.setter(cls, tg[2])
                if f is not None and self.should_inline(f):
                    self.call_func(f, b, [v], [], st, fr, line)
                    return
            self.write(mk("a", b, tg[2]), v, st, line)
            return
        if t == "idx":
            if tg[2][0] == "slice":
                c = self.expr(tg[1], st, fr)
                lo = self.expr(tg[2][1], st, fr) if tg[2][1] is not None else NONE
                hi = self.expr(tg[2][2], st, fr) if tg[2][2] is not None else NONE
                self.write(mk("i", root(c), mk("slice", lo, hi)), v, st, line)
                return
            c = self.expr(tg[1], st, fr)
            k = self.expr(tg[2], st, fr)
            self.store_index(tg[1], c, k, v, st, fr, line)
            return
        if t == "star":
            self.store(tg[1], v, st, fr, line)
            return
        if t == "deref":
            self.store(tg[1], v, st, fr, line)
            return
        # e.g. assignment to a call result
        self.emit(kind="set", loc=mk("a", self.expr(tg, st, fr), "*"), value=v, old=NONE, g=list(st.g), line=line)

    def cpp_ref(self, v, fr, n):
        return False

    def store_index(self, cexpr, c, k, v, st, fr, line):
        k = self.canon_index(c, k)
        r = root(c)
        if c.kind == "appended" and V_.num(k) == -1:
            nc = mk("appended", c.a[0], v)
            self.emit(kind="set", loc=mk("i", r, k), value=v, old=c.a[1], g=list(st.g), line=line)
            self.set_container(cexpr, r, nc, st, fr)
            return
        if r.kind in ("a", "i", "p", "elem", "new"):
            self.write(mk("i", r, k), v, st, line)
            return
        # local container value
        if cexpr[0] == "name" and cexpr[1] in st.env:
            cur = st.env[cexpr[1]]
            self.emit(kind="set", loc=mk("i", mk("local", cexpr[1]), k), value=v, old=self.index(cur, k, st), g=list(st.g), line=line)
            st.env[cexpr[1]] = mk("keyset", cur, k, v)
            return
        self.emit(kind="set", loc=mk("i", c, k), value=v, old=self.index(c, k, st), g=list(st.g), line=line)

    def set_container(self, cexpr, r, nc, st, fr):
        if r.kind in ("a", "i", "new"):
            self.logwrite(r)
            st.heap[r] = nc
        elif cexpr is not None and cexpr[0] == "name":
            st.env[cexpr[1]] = nc

    def write(self, loc, v, st, line):
        old = st.heap.get(loc, loc)
        self.emit(kind="set", loc=loc, value=v, old=old, g=list(st.g), line=line)
        self.logwrite(loc)
        if getattr(self, "named", False) and loc.kind == "a" and fresh_container(v):
            v = loc
        f = field_of(loc)
        dead = []
        for k in st.heap:
            if k is loc:
                continue
            if field_of(k) == f:
                if k.kind == "a" and loc.kind == "a":
                    if self.distinct(k.a[0], loc.a[0]):
                        continue
                    dead.append(k)
                elif k.kind == "i" and loc.kind == "i":
                    if k.a[0] is loc.a[0]:
                        d = sub(k.a[1], loc.a[1])
                        if V_.is_num(d) and d is not ZERO and (V_.num(k.a[1]) is not None) and ((V_.num(k.a[1]) < 0) == (V_.num(loc.a[1]) < 0)):
                            continue
                        if k.a[1].kind == "c" and loc.a[1].kind == "c" and isinstance(k.a[1].a[0], str) and isinstance(loc.a[1].a[0], str):
                            continue
                        dead.append(k)
                    elif self.distinct(base_of(k), base_of(loc)):
                        continue
                    else:
                        dead.append(k)
                elif loc.kind == "a":
                    # container replaced
                    if k.kind == "i" and (base_of(k) is loc.a[0]):
                        dead.append(k)
                else:
                    # element written, container chain value stays
                    pass
        for k in dead:
            st.heap[k] = None
            del st.heap[k]
        st.heap[loc] = v

    def distinct(self, a, b):
        """provably different objects"""
        if a is None or b is None:
            return False
        if a is b:
            return False
        if a.kind == "new" and b.kind == "new":
            return True
        ta, tb = self.P.typeof(a, self), self.P.typeof(b, self)
        if ta and tb and ta != tb:
            return True
        if (a.kind == "new") != (b.kind == "new"):
            # a freshly created object is not reachable from entry-state values
            o = b if a.kind == "new" else a
            return not V_.contains_v(o, lambda x: x.kind == "new")
        return False

    # ------------------------------------------------------------------ container mutation
    def mutate(self, cexpr, m, args, st, fr, line, cur=None):
        if cur is None:
            cur = self.expr(cexpr, st, fr)
        if cur.kind == "ite" and root(cur.a[1]).kind in ("a",) and root(cur.a[2]).kind == "a" and root(cur.a[1]) is not root(cur.a[2]):
            pass
        r = self.rootx(cur)
        if r.kind not in ("a", "i") and cexpr is not None and cexpr[0] == "attr" and fr.func.lang == "cpp":
            # a member whose current content is a plain value: the member itself is the location
            r = mk("a", self.simp(self.expr(cexpr[1], st, fr), st), cexpr[2])
        ret = NONE
        nv = None
        if m == "append":
            x = args[0] if len(args) == 1 else mk("tuple", tuple(args))
            nv = mk("appended", cur, x)
            if getattr(self, "alloc", False) and x.kind in ("list", "comp"):
                n = "@%s" % line
                self.allocdepth.setdefault(n, []).append(len(self.lids))
                x = mk("new", n, x)
                nv = mk("appended", cur, x)
            args = [x]
        elif m == "appendleft":
            nv = mk("prepended", cur, args[0])
        elif m in ("popleft",) or (m == "pop" and args and V_.num(args[0]) == 0 and self.P.kind_of(r) != "dict"):
            ret = self.index(cur, ZERO, st)
            nv = mk("popped0", cur)
            m = "popleft"
        elif m == "poplast" or (m == "pop" and (not args or V_.num(args[0]) == -1)):
            ret = self.index(cur, const(-1), st)
            nv = cur.a[0] if cur.kind == "appended" else mk("poppedlast", cur)
            m = "poplast"
        elif m == "pop":
            ret = self.index(cur, args[0], st)
            nv = mk("keydel", cur, args[0])
        elif m == "del":
            nv = mk("keydel", cur, args[0])
        elif m == "remove":
            nv = mk("removed", cur, args[0])
        elif m == "clear":
            nv = mk("list", ())
        elif m == "extend":
            nv = mk("extended", cur, args[0])
            if cur.kind == "list" and not cur.a[0]:
                nv = args[0]
        elif m == "insert":
            if len(args) == 3:      # C++ range insert at end
                src = args[1]
                if src.kind == "mcall" and src.a[1] in ("begin", "cbegin"):
                    nv = mk("extended", cur, src.a[0]) if not (cur.kind == "list" and not cur.a[0]) else mk("call", "list", (src.a[0],), ())
            elif len(args) == 1:
                nv = mk("appended", cur, args[0])
            if nv is None:
                nv = mk("inserted", cur, *args[:2]) if len(args) >= 2 else mk("inserted", cur, *args)
        elif m == "add":
            nv = mk("appended", cur, args[0])
        elif m == "sort":
            nv = cur
        elif m == "assign" and len(args) == 2 and args[0].kind == "mcall" and args[0].a[1] in ("begin", "cbegin"):
            nv = mk("call", "list", (args[0].a[0],), ())
        elif m == "erase":
            nv = mk("keydel", cur, args[0]) if len(args) == 1 else mk("removed", cur, mk("tuple", tuple(args)))
        elif m in ("update", "setdefault", "popitem", "reverse", "resize", "assign"):
            nv = None
        loc = r if r.kind in ("a", "i", "p", "elem", "ite", "search", "new") else (mk("local", cexpr[1]) if cexpr is not None and cexpr[0] == "name" else r)
        self.emit(kind="mut", loc=loc, name=m, args=list(args), old=cur, value=nv, g=list(st.g), line=line, kw=[])
        if m == "reserve":
            return ret
        if nv is None:
            nv = mk("mutated", cur, m, tuple(args))
        if r.kind in ("a", "i", "new"):
            self.logwrite(r)
            # may-alias kill of other containers with the same field
            f = field_of(r)
            for k in [k for k in st.heap if k is not r and field_of(k) == f and k.kind == "a" and r.kind == "a" and not self.distinct(k.a[0], r.a[0])]:
                del st.heap[k]
            # element facts recorded by negative index become stale
            for k in [k for k in st.heap if k.kind == "i" and k.a[0] is r]:
                del st.heap[k]
            st.heap[r] = nv
        elif cexpr is not None and cexpr[0] == "name" and cexpr[1] in st.env:
            st.env[cexpr[1]] = nv
        return ret

    def rootx(self, v):
        v = root(v)
        return v

    # ------------------------------------------------------------------ simplification under guards
    def simp(self, v, st):
        n = 0
        while isinstance(v, V) and v.kind == "ite" and n < 8:
            c = v.a[0]
            if self.known(c, st):
                v = v.a[1]
            elif self.known(V_.not_(c), st):
                v = v.a[2]
            else:
                break
            n += 1
        return v

    def known(self, c, st):
        gs = set(st.g)
        return all(x in gs for x in V_.conj(c))

    def simp_bool(self, c, st):
        gs = set(st.g)
        if c.kind == "c":
            return c
        if all(x in gs for x in V_.conj(c)):
            return TRUE
        n = V_.not_(c)
        if n.kind != "and" and n in gs:
            return FALSE
        if c.kind == "and":
            return V_.and_([TRUE if x in gs else self.simp_bool(x, st) if x.kind in ("or",) else x for x in c.a[0]]) if not any(V_.not_(x) in gs for x in c.a[0]) else FALSE
        if c.kind == "or":
            if any(all(y in gs for y in V_.conj(x)) for x in c.a[0]):
                return TRUE
            return V_.or_([x for x in c.a[0] if V_.not_(x) not in gs])
        return c

    # ------------------------------------------------------------------ expressions
    def expr(self, e, st, fr):
        if e is None:
            return NONE
        t = e[0]
        m = getattr(self, "x_" + t, None)
        if m is None:
            return mk("unk", t)
        return m(e, st, fr)

    def x_const(self, e, st, fr):
        return const(e[1])

    def x_name(self, e, st, fr):
        n = e[1]
        v = st.env.get(n)
        if v is not None:
            return self.refresh(v, st)
        if n in ("True", "False", "None"):
            return {"True": TRUE, "False": FALSE, "None": NONE}[n]
        if n.startswith("@enum:"):
            return const(self.P.enum(n[6:]))
        g = self.P.global_value(n, fr.func)
        if g is not None:
            return g
        return mk("p", n)

    def refresh(self, v, st):
        if v.kind in ("a", "i", "new"):
            h = st.heap.get(v)
            if h is not None and h is not v and h.kind in CHAIN and root(h) is v:
                return h
            return v
        if v.kind in CHAIN:
            r = root(v)
            if r.kind in ("a", "i", "new"):
                h = st.heap.get(r)
                if h is not None:
                    return h
        return v

    def x_attr(self, e, st, fr):
        b = self.expr(e[1], st, fr)
        return self.attr(b, e[2], st, fr)

    def attr(self, b, f, st, fr, depth=0):
        b = self.simp(b, st)
        if f == self.P.world_field and not (getattr(self, "worlds", False) and (b.kind != "p" or b.a[0] not in ("self", "s"))):
            return self.world
        if b.kind == "ite" and depth < 4 and b._n < 400:
            return V_.ite(b.a[0], self.attr(b.a[1], f, st, fr, depth + 1), self.attr(b.a[2], f, st, fr, depth + 1))
        loc = mk("a", b, f)
        h = st.heap.get(loc)
        if h is not None:
            return self.simp(h, st)
        if b.kind == "tuple" and f in ("first", "second") and len(b.a[0]) == 2:
            return b.a[0][0 if f == "first" else 1]
        if f in ("first", "second") and fr.func.lang == "cpp":
            return self.index(b, const(0 if f == "first" else 1), st)
        cls = self.P.typeof(b, self)
        p = self.P.property(cls, f)
        if p is not None and self.should_inline(p):
            return self.call_func(p, b, [], [], st, fr, self.line)
        return loc

    def x_idx(self, e, st, fr):
        c = self.expr(e[1], st, fr)
        if e[2][0] == "slice":
            lo = self.expr(e[2][1], st, fr) if e[2][1] is not None else NONE
            hi = self.expr(e[2][2], st, fr) if e[2][2] is not None else NONE
            sp = self.expr(e[2][3], st, fr) if e[2][3] is not None else NONE
            if lo is NONE and hi is NONE and sp is NONE:
                return mk("call", "list", (c,), ())
            if sp is not NONE:
                return mk("i", c, mk("slice", lo, hi, sp))
            return mk("i", c, mk("slice", lo, hi))
        k = self.expr(e[2], st, fr)
        return self.index(c, k, st)

    def x_slice(self, e, st, fr):
        return mk("slice", *[self.expr(x, st, fr) if x is not None and x != ("none",) else NONE for x in (e[1], e[2], e[3] if len(e) > 3 else None)])

    def canon_index(self, c, k):
        # len(c)-n  ->  -n
        n = self.length(c)
        d = sub(k, n)
        if d._n < k._n or (V_.num(d) is not None and V_.num(d) < 0):
            dd = V_.to_poly(k)
            nn = V_.to_poly(n)
            if V_.num(n) is None and all(dd.get(m_, 0) == c_ for m_, c_ in nn.items() if m_ != ()):
                return d
        return k

    def index(self, c, k, st, depth=0):
        c = self.simp(c, st) if st is not None else c
        if c.kind == "ite" and depth < 3 and c._n < 300:
            return V_.ite(c.a[0], self.index(c.a[1], k, st, depth + 1), self.index(c.a[2], k, st, depth + 1))
        k = self.canon_index(c, k)
        n = V_.num(k)
        if n is not None and n.denominator == 1:
            n = int(n)
            if c.kind in ("list", "tuple") and -len(c.a[0]) <= n < len(c.a[0]):
                return c.a[0][n]
            if c.kind == "appended":
                if n == -1:
                    return c.a[1]
                if n < -1:
                    return self.index(c.a[0], const(n + 1), st)
            if c.kind == "poppedlast" and n < 0:
                return self.index(c.a[0], const(n - 1), st)
            if c.kind == "popped0" and n >= 0:
                return self.index(c.a[0], const(n + 1), st)
            if c.kind == "prepended":
                if n == 0:
                    return c.a[1]
                if n > 0:
                    return self.index(c.a[0], const(n - 1), st)
        if c.kind == "keyset":
            if c.a[1] is k:
                return c.a[2]
            if c.a[1].kind == "c" and k.kind == "c" and c.a[1] is not k:
                return self.index(c.a[0], k, st)
        if c.kind == "keydel" and k.kind == "c" and c.a[1].kind == "c" and isinstance(k.a[0], str):
            return self.index(c.a[0], k, st)
        if c.kind == "dict":
            for kk, vv in c.a[0]:
                if kk is k:
                    return vv
        # element of a counted loop
        if k.kind == "elem" and k.a[0].kind == "range":
            lo, hi = k.a[0].a[0], k.a[0].a[1]
            if lo is ZERO and len(k.a[0].a) == 2 and hi.kind == "call" and hi.a[0] == "len" and root(hi.a[1][0]) is root(c):
                return mk("elem", c) if len(k.a) == 1 else mk("elem", c, k.a[1])
        if k.kind == "elem" and k.a[0] is root(c):
            return mk("elem", mk("values", root(c)))
        loc = mk("i", c if c.kind not in CHAIN else c, k)
        if st is not None:
            h = st.heap.get(loc)
            if h is None and c.kind in CHAIN:
                pass
            if h is not None:
                return self.simp(h, st)
        return loc

    def length(self, v):
        if v.kind in ("list", "tuple", "set") and not any(isinstance(x, V) and x.kind == "star" for x in v.a[0]):
            return const(len(v.a[0]))
        if v.kind == "appended" or v.kind == "prepended":
            return add(self.length(v.a[0]), ONE)
        if v.kind in ("popped0", "poppedlast", "removed"):
            return sub(self.length(v.a[0]), ONE)
        if v.kind == "comp" and v.a[0] in ("list", "gen") and v.a[3] is TRUE and v.a[2].kind != "tuple":
            return self.length(v.a[2])
        if v.kind == "range" and len(v.a) == 2:
            return sub(v.a[1], v.a[0]) if v.a[0] is ZERO else mk("call", "len", (v,), ())
        if v.kind in ("values", "items"):
            return self.length(v.a[0])
        if v.kind == "mcall" and v.a[1] in ("values", "keys", "items", "copy") and not v.a[2]:
            return self.length(v.a[0])
        if v.kind == "call" and v.a[0] in ("list", "tuple", "sorted", "enumerate", "np.array") and len(v.a[1]) >= 1:
            return self.length(v.a[1][0])
        if v.kind == "c" and isinstance(v.a[0], str):
            return const(len(v.a[0]))
        if v.kind == "keyset":
            return mk("call", "len", (v,), ())
        if v.kind == "ite" and v._n < 200:
            return V_.ite(v.a[0], self.length(v.a[1]), self.length(v.a[2]))
        if v.kind in ("concat", "grown"):
            return add(self.length(v.a[0]), self.length(v.a[1]))
        return mk("call", "len", (v,), ())

    def x_bin(self, e, st, fr):
        return self.binop(e[1], self.expr(e[2], st, fr), self.expr(e[3], st, fr))

    STRK = {"fstr", "cat"}

    def isstr(self, v):
        return v.kind in self.STRK or (v.kind == "c" and isinstance(v.a[0], str)) or (v.kind == "call" and v.a[0] in ("str",)) or (v.kind == "mcall" and v.a[1] in ("join", "format"))

    def binop(self, op, a, b):
        if op == "+":
            if self.isstr(a) or self.isstr(b):
                pa = a.a[0] if a.kind == "cat" else (a,)
                pb = b.a[0] if b.kind == "cat" else (b,)
                return mk("cat", tuple(pa) + tuple(pb))
            if a.kind in ("list", "comp", "concat", "grown") or b.kind in ("list", "comp", "concat", "grown") or (a.kind == "call" and a.a[0] in ("list", "sorted")) or (b.kind == "call" and b.a[0] in ("list", "sorted")):
                if a.kind == "list" and b.kind == "list":
                    return mk("list", a.a[0] + b.a[0])
                return mk("concat", a, b)
            return add(a, b)
        if op == "-":
            if a.kind == "call" and a.a[0] == "set":
                return mk("call", "setsub", (a, b), ())
            return sub(a, b)
        if op == "*":
            if a.kind == "list" or b.kind == "list" or self.isstr(a) or self.isstr(b):
                return mk("repeat", a, b)
            return mul(a, b)
        if op == "/":
            return div(a, b)
        if op == "//":
            if V_.is_num(a) and V_.is_num(b) and V_.num(b) != 0:
                return const(V_.num(a) // V_.num(b))
            return mk("fdiv", a, b)
        if op == "%":
            if self.isstr(a):
                return mk("cat", (a, b))
            if V_.is_num(a) and V_.is_num(b) and V_.num(b) != 0:
                return const(V_.num(a) % V_.num(b))
            return mk("mod", a, b)
        if op == "**":
            return V_.power(a, b)
        if op == "&":
            if V_.is_bool(a) or V_.is_bool(b):
                return V_.and_([a, b])
            return mk("call", "setand", tuple(sorted([a, b], key=lambda v: v.h)), ())
        if op == "|":
            if V_.is_bool(a) or V_.is_bool(b):
                return V_.or_([a, b])
            return mk("call", "setor", tuple(sorted([a, b], key=lambda v: v.h)), ())
        return mk("bin", op, a, b)

    def x_un(self, e, st, fr):
        v = self.expr(e[2], st, fr)
        if e[1] == "-":
            return neg(v)
        if e[1] == "~" and V_.is_bool(v):
            return V_.not_(v)
        return mk("un", e[1], v)

    def x_not(self, e, st, fr):
        return V_.not_(V_.truthy(self.expr(e[1], st, fr)))

    def x_cmp(self, e, st, fr):
        a = self.expr(e[2], st, fr)
        b = self.expr(e[3], st, fr)
        return self.cmp(e[1], a, b, st)

    def cmp(self, op, a, b, st):
        # C++ find idiom:  it != end
        for x, y in ((a, b), (b, a)):
            if x.kind == "mcall" and x.a[1] in ("end", "cend") and op in ("==", "!="):
                if y.kind == "mcall" and y.a[1] == "find":
                    r = V_.contains(y.a[0], y.a[2][0])
                    return r if op == "!=" else V_.not_(r)
                if y.kind == "call" and y.a[0] in ("find", "std::find") and len(y.a[1]) == 3:
                    r = V_.contains(y.a[1][0].a[0] if y.a[1][0].kind == "mcall" else y.a[1][0], y.a[1][2])
                    return r if op == "!=" else V_.not_(r)
        if op in ("==", "!=", "is", "is not"):
            # type(x) == C / isinstance
            for x, y in ((a, b), (b, a)):
                if x.kind == "call" and x.a[0] == "type":
                    r = mk("in", x.a[1][0], mk("type", y)) if False else mk("isinst", x.a[1][0], y)
                    r = mk("truthy", r)
                    return r if op in ("==", "is") else V_.not_(r)
            # an ordered comparison with list literals such as x == []
            for x, y in ((a, b), (b, a)):
                if y.kind == "list" and not y.a[0]:
                    r = V_.not_(V_.le(sub(ONE, self.length(x))))
                    return r if op in ("==", "is") else V_.not_(r)
        a = self.simp(a, st)
        b = self.simp(b, st)
        return V_.cmp_(op, a, b)

    def x_and(self, e, st, fr):
        out = []
        s2 = st
        vals = []
        raw = []
        for x in e[1]:
            v = self.expr(x, s2, fr)
            raw.append(v)
            c = V_.truthy(v)
            vals.append(c)
            # later operands are evaluated knowing the earlier ones
            if x is not e[1][-1]:
                s3 = s2.copy() if s2 is st else s2
                s3.g = s3.g + [y for y in V_.conj(c) if y not in s3.g]
                s2 = s3
        if s2 is not st:
            for k, v in s2.heap.items():
                if st.heap.get(k) is not v:
                    st.heap[k] = v
        return V_.and_(vals)

    def x_or(self, e, st, fr):
        vals = []
        raw = []
        s2 = st
        for x in e[1]:
            v = self.expr(x, s2, fr)
            raw.append(v)
            c = V_.truthy(v)
            vals.append(c)
            if x is not e[1][-1]:
                s3 = s2.copy() if s2 is st else s2
                nc = V_.not_(c)
                s3.g = s3.g + [y for y in V_.conj(nc) if y not in s3.g]
                s2 = s3
        if all(V_.is_bool(r) for r in raw):
            return V_.or_(vals)
        # value-or (x or default)
        r = raw[-1]
        for v, c in zip(reversed(raw[:-1]), reversed(vals[:-1])):
            r = V_.ite(c, v, r)
        return r

    def x_ite(self, e, st, fr):
        c = self.simp_bool(V_.truthy(self.expr(e[1], st, fr)), st)
        if c is TRUE:
            return self.expr(e[2], st, fr)
        if c is FALSE:
            return self.expr(e[3], st, fr)
        a = st.copy()
        a.g = st.g + [x for x in V_.conj(c) if x not in st.g]
        b = st.copy()
        nc = V_.not_(c)
        b.g = st.g + [x for x in V_.conj(nc) if x not in st.g]
        va = self.expr(e[2], a, fr)
        vb = self.expr(e[3], b, fr)
        if a.heap != st.heap or b.heap != st.heap:
            st.heap = self.merge_map(c, a.heap, b.heap, True)
        return V_.ite(c, va, vb)

    def x_list(self, e, st, fr):
        return mk("list", tuple(self.expr(x, st, fr) for x in e[1]))

    def x_tuple(self, e, st, fr):
        return mk("tuple", tuple(self.expr(x, st, fr) for x in e[1]))

    def x_set(self, e, st, fr):
        return mk("set", tuple(self.expr(x, st, fr) for x in e[1]))

    def x_dict(self, e, st, fr):
        out = []
        for k, v in e[1]:
            out.append((self.expr(k, st, fr) if k is not None else mk("dstar"), self.expr(v, st, fr)))
        return mk("dict", tuple(out))

    def x_star(self, e, st, fr):
        return mk("star", self.expr(e[1], st, fr))

    def x_fstr(self, e, st, fr):
        return mk("fstr", tuple(self.expr(x, st, fr) for x in e[1]))

    def x_walrus(self, e, st, fr):
        v = self.expr(e[2], st, fr)
        self.store(e[1], v, st, fr, self.line)
        return v

    def x_augx(self, e, st, fr):
        v = self.binop(e[2], self.expr(e[1], st, fr), self.expr(e[3], st, fr))
        self.store(e[1], v, st, fr, self.line)
        return v

    def x_incdec(self, e, st, fr):
        cur = self.expr(e[1], st, fr)
        v = self.binop(e[2], cur, ONE)
        self.store(e[1], v, st, fr, self.line)
        return cur if e[3] else v

    def x_deref(self, e, st, fr):
        return self.expr(e[1], st, fr)

    def x_yield(self, e, st, fr):
        v = self.expr(e[1], st, fr)
        self.emit(kind="yield", value=v, g=list(st.g), line=self.line)
        return mk("p", "@sent")

    def x_throw(self, e, st, fr):
        return mk("unk", "throw")

    def x_seq(self, e, st, fr):
        r = NONE
        for x in e[1]:
            r = self.expr(x, st, fr)
        return r

    def x_unk(self, e, st, fr):
        return mk("unk", e[1])

    def x_lambda(self, e, st, fr):
        ps = [p for p, _ in e[1]]
        s2 = st.copy()
        for i, p in enumerate(ps):
            s2.env[p] = mk("p", "\u03bb%d" % i)
        body = self.expr(e[2], s2, fr)
        return mk("lam", len(ps), body)

    def x_lambdaf(self, e, st, fr):
        f = e[1]
        # single-return lambdas become value lambdas
        if len(f.body) == 1 and f.body[0][0] == "return" and f.body[0][1] is not None:
            s2 = st.copy()
            for i, (p, _) in enumerate(f.params):
                s2.env[p] = mk("p", "\u03bb%d" % i)
            return mk("lam", len(f.params), self.expr(f.body[0][1], s2, fr))
        fid = mk("func", f.qual, f.line)
        self.funcs[fid] = (f, st.env, fr)
        return fid

    def x_comp(self, e, st, fr):
        _, kind, elt, gens = e
        s2 = st.copy()
        conds = []
        tags = []
        npush = 0
        for tg, it, ifs in gens:
            itv = self.strip_iter(self.expr(it, s2, fr), s2)
            self.loopstack.append(itv)
            self.uid += 1
            self.lids.append((self.uid, tuple(s2.g)))
            npush += 1
            g0 = len(s2.g)
            self.bind_iter(tg, itv, s2, fr, self.line)
            conds += s2.g[g0:]
            if itv.kind == "comp":
                itv = itv.a[2]
            tags.append(itv)
            for c in ifs:
                cv = V_.truthy(self.expr(c, s2, fr))
                conds.append(cv)
                s2.g = s2.g + [x for x in V_.conj(cv) if x not in s2.g]
        v = self.expr(elt, s2, fr)
        for _ in range(npush):
            self.loopstack.pop()
            self.lids.pop()
        tag = tags[0] if len(tags) == 1 else mk("tuple", tuple(tags))
        c = V_.and_(conds)
        return mk("comp", kind, v, tag, c)

    # ------------------------------------------------------------------ calls
    def should_inline(self, f):
        q = f.qual
        if q in self.stack or len(self.stack) > self.maxdepth:
            return False
        if q in self.noinline or f.name in self.noinline:
            return False
        if self.inline_all or q in self.inline or f.name in self.inline:
            return True
        return not self.P.is_known(f)

    def x_call(self, e, st, fr):
        fexpr, args_e, kw_e, line = e[1], e[2], e[3], e[4]
        self.line = line
        hint = e[5] if len(e) > 5 else None
        # ---- method style
        if fexpr[0] == "attr":
            mname = fexpr[2]
            recv = None
            # super().m(...)
            if fexpr[1][0] == "call" and fexpr[1][1] == ("name", "super"):
                args = [self.expr(a, st, fr) for a in args_e]
                kw = [(n, self.expr(a, st, fr)) for n, a in kw_e]
                return self.opaque_call("super." + mname, None, args, kw, st, line)
            dotted = self.dotted(fexpr, st)
            if dotted is not None:
                args = [self.expr(a, st, fr) for a in args_e]
                kw = [(n, self.expr(a, st, fr)) for n, a in kw_e]
                return self.builtin(dotted, args, kw, st, fr, line)
            recv = self.expr(fexpr[1], st, fr)
            recv = self.simp(recv, st)
            iscont = hint is not None and any(c in hint for c in CONTAINERISH_CPP)
            cls = hint if (hint and not iscont and hint in self.P.all_classes(fr.func)) else None
            if cls is None and not iscont:
                cls = self.P.typeof(recv, self)
            f = self.P.method(cls, mname) if cls else None
            if f is None and not iscont and fr.func.lang == "py" and mname not in MUTATORS and mname not in ("copy", "keys", "values", "items", "get", "index", "count", "format", "join", "split", "sum", "mean", "any", "all", "max", "min", "replace", "print", "save", "close", "write", "read"):
                f = self.P.unique_method(mname, fr.func)
            args = []
            for a in args_e:
                v = self.expr(a, st, fr)
                if v.kind == "star" and v.a[0].kind in ("tuple", "list"):
                    args.extend(v.a[0].a[0])
                else:
                    args.append(v)
            kw = [(n, self.expr(a, st, fr)) for n, a in kw_e]
            if f is not None:
                return self.project_call(f, recv, args, kw, st, fr, line)
            # ---- container methods
            if iscont or (cls is None):
                if mname in ("size", "length") and not args and fr.func.lang == "cpp":
                    return self.length(recv)
                if mname == "empty" and not args and fr.func.lang == "cpp":
                    return V_.le(self.length(recv))
                if mname in ("front", "top") and not args and fr.func.lang == "cpp":
                    return self.index(recv, ZERO, st)
                if mname == "back" and not args and fr.func.lang == "cpp":
                    return self.index(recv, const(-1), st)
                if mname == "at" and len(args) == 1:
                    return self.index(recv, args[0], st)
                if mname == "count" and len(args) == 1 and fr.func.lang == "cpp":
                    return V_.ite(V_.contains(recv, args[0]), ONE, ZERO)
                if mname == "swap" and len(args) == 1 and fr.func.lang == "cpp":
                    return self.swap(fexpr[1], args_e[0], st, fr, line)
                if mname in MUTATORS and (iscont or self.containerlike(recv, mname)):
                    m = MUTATORS[mname]
                    if mname == "update" and recv.kind not in CHAIN | {"a", "dict", "p", "set", "call"}:
                        pass
                    else:
                        return self.mutate(fexpr[1], m, args, st, fr, line, recv)
            # attribute holding a callable (user function, closures)
            fv = st.heap.get(mk("a", recv, mname))
            if fv is not None and fv.kind in ("func", "lam"):
                return self.apply(fv, args, kw, st, fr, line)
            if mname == "get" and len(args) in (1, 2):
                d = args[1] if len(args) == 2 else NONE
                return V_.ite(V_.contains(recv, args[0]), self.index(recv, args[0], st), d)
            return self.opaque_call(mname, recv, args, kw, st, line)
        # ---- plain call
        args = []
        kw = [(n, self.expr(a, st, fr)) for n, a in kw_e]
        if fexpr[0] == "name":
            n = fexpr[1]
            lv = st.env.get(n)
            for a in args_e:
                v = self.expr(a, st, fr)
                if v.kind == "star" and v.a[0].kind in ("tuple", "list"):
                    args.extend(v.a[0].a[0])
                else:
                    args.append(v)
            if lv is not None:
                if lv.kind in ("func", "lam"):
                    return self.apply(lv, args, kw, st, fr, line)
                if lv.kind == "localclass":
                    return self.new_object(lv.a[0], args, kw, st, fr, line)
                if lv.kind == "boundmethod":
                    pass
                return self.opaque_call("*call", lv, args, kw, st, line)
            if n in ("remove_from_vector",) and len(args) == 2 and fr.func.lang == "cpp":
                self.mutate(args_e[0], "remove", [args[1]], st, fr, line, args[0])
                return NONE
            if n == "contains" and len(args) == 2 and fr.func.lang == "cpp":
                return V_.contains(args[0], args[1])
            if n == "@sized":
                return mk("call", "@sized", tuple(args), ())
            f = self.P.function(n, fr.func)
            if f is not None:
                return self.project_call(f, None, args, kw, st, fr, line)
            if self.P.is_class(n, fr.func):
                return self.new_object(n, args, kw, st, fr, line)
            return self.builtin(n, args, kw, st, fr, line)
        fv = self.expr(fexpr, st, fr)
        args = [self.expr(a, st, fr) for a in args_e]
        if fv.kind in ("func", "lam"):
            return self.apply(fv, args, kw, st, fr, line)
        return self.opaque_call("*call", fv, args, kw, st, line)

    def containerlike(self, recv, mname):
        if mname in ("update", "insert", "remove", "pop", "clear", "add", "assign", "sort", "reverse", "swap", "push", "resize", "reserve", "erase"):
            k = recv.kind
            if k in CHAIN or k in ("list", "dict", "set", "comp", "call", "lv", "concat", "keyset", "mutated", "rec"):
                return True
            if k in ("a", "i", "p", "elem", "search", "ite", "new"):
                return True
            return False
        return True

    def swap(self, e1, e2, st, fr, line):
        v1 = self.expr(e1, st, fr)
        v2 = self.expr(e2, st, fr)
        l1, l2 = self.container_loc(e1, st, fr), self.container_loc(e2, st, fr)
        v1 = mk("call", "list", (v1,), ()) if v1 is l1 else v1
        v2 = mk("call", "list", (v2,), ()) if v2 is l2 else v2
        self.emit(kind="mut", loc=l1 or mk("unk", "swap"), name="swap", args=[v2], old=v1, value=v2, g=list(st.g), line=line, kw=[])
        for l, v, ee in ((l1, v2, e1), (l2, v1, e2)):
            if v is l:
                v = mk("call", "list", (v,), ())
            if l is not None:
                st.heap[l] = v
                self.logwrite(l)
            elif ee[0] == "name":
                st.env[ee[1]] = v
        return NONE

    def container_loc(self, e, st, fr):
        if e[0] == "name":
            v = st.env.get(e[1])
            if v is None:
                return None
            r = root(v)
            return r if r.kind in ("a", "i") else None
        if e[0] == "attr":
            return mk("a", self.expr(e[1], st, fr), e[2])
        if e[0] == "idx":
            return mk("i", self.expr(e[1], st, fr), self.expr(e[2], st, fr))
        return None

    def dotted(self, e, st):
        parts = []
        while e[0] == "attr":
            parts.append(e[2])
            e = e[1]
        if e[0] == "name" and e[1] not in st.env:
            n = e[1]
            imp = self.P.import_of(n, self.frames[-1].func)
            if imp is not None:
                return ".".join([imp] + parts[::-1])
        return None

    def apply(self, fv, args, kw, st, fr, line):
        if fv.kind == "lam":
            n, body = fv.a
            mp = {mk("p", "\u03bb%d" % i): a for i, a in enumerate(args[:n])}
            return V_.subst(body, lambda x: mp.get(x))
        f, env, ffr = self.funcs[fv]
        if f.qual in self.stack or len(self.stack) > self.maxdepth + 2:
            return self.opaque_call(f.qual, None, args, kw, st, line)
        self.emit(kind="call", name=f.name, recv=None, args=args, kw=kw, g=list(st.g), line=line, inl=True)
        return self.call_func(f, None, args, kw, st, fr, line, cenv=env)

    def bind(self, f, recv, args, kw):
        """bind arguments to parameter names; returns dict or None"""
        names = [p for p, _ in f.params]
        if f.cls is not None and f.lang == "py" and not f.static and names:
            names = names[1:]
        b = {}
        extra = []
        for i, a in enumerate(args):
            if isinstance(a, V) and a.kind == "star":
                return b, True
            if i < len(names):
                b[names[i]] = a
            else:
                extra.append(a)
        extra_kw = []
        for n, a in kw:
            if n is None:
                return b, True
            b[n] = a
        return b, False

    def project_call(self, f, recv, args, kw, st, fr, line):
        b, fuzzy = self.bind(f, recv, args, kw)
        inl = self.should_inline(f) and not fuzzy and not any(s[0] == "expr" and s[1] and s[1][0] == "yield" for s in stmts_walk(f.body))
        self.emit(kind="call", name=f.qual, recv=recv, args=list(args), kw=sorted(b.items()), g=list(st.g), line=line, inl=inl)
        if inl:
            return self.call_func(f, recv, args, kw, st, fr, line)
        self.opaque.add(f.qual)
        self.kill_fields(st, self.P.modset(f))
        if f.qual in self.P.pure_names:
            return mk("mcall", recv if recv is not None else NONE, f.name, tuple(args), tuple(kw))
        # same call, same arguments, same term (rng draws get a fresh name)
        if self.P.uses_rng(f):
            return mk("rnd", f.name, self.uidv("r"), recv if recv is not None else NONE, tuple(args), tuple((n, v) for n, v in kw))
        return mk("mcall", recv if recv is not None else NONE, f.name, tuple(args), tuple((n, v) for n, v in kw))

    def call_func(self, f, recv, args, kw, st, fr, line, cenv=None):
        self.inlined.add(f.qual)
        env = dict(cenv) if cenv is not None else {}
        names = [p for p, _ in f.params]
        nf = Frame(f, f.cls, fr.depth + 1)
        ismethod = f.cls is not None and not f.static
        pos = list(names)
        if ismethod:
            if f.lang == "cpp":
                env["self"] = recv if recv is not None else mk("p", "self")
            elif pos:
                env[pos[0]] = recv if recv is not None else mk("p", "self")
                pos = pos[1:]
        rest = []
        for i, a in enumerate(args):
            if i < len(pos):
                env[pos[i]] = a
            else:
                rest.append(a)
        if f.vararg:
            env[f.vararg] = mk("tuple", tuple(rest))
        kwx = []
        bound = set(pos[:len(args)])
        for n, a in kw:
            if n in names:
                env[n] = a
                bound.add(n)
            else:
                kwx.append((const(n) if n is not None else mk("dstar"), a))
        if f.kwarg:
            env[f.kwarg] = mk("dict", tuple(kwx))
        for p, d in f.params:
            if p in pos and p not in bound:
                env[p] = self.expr(d, St({}, st.heap, []), nf) if d is not None else mk("p", p)
        s2 = St(env, st.heap, list(st.g))
        base = list(st.g)
        self.frames.append(nf)
        self.stack.append(f.qual)
        savedline = self.line
        self.block(f.body, s2, nf)
        self.stack.pop()
        self.frames.pop()
        self.line = savedline
        outs = list(nf.returns)
        if s2.alive:
            outs.append((s2, NONE))
        if not outs:
            st.alive = False
            return mk("unk", "noreturn")
        m, v = self.merge_many(outs, base)
        st.heap = m.heap
        st.g = m.g
        return v

    def new_object(self, cname, args, kw, st, fr, line):
        f = self.P.method(cname, "__init__")
        b, fuzzy = ({}, True)
        if f is not None:
            b, fuzzy = self.bind(f, None, args, kw)
        obj = mk("new", cname, self.uidv("o"))
        inl = f is not None and not fuzzy and self.should_inline(f)
        self.emit(kind="new", name=cname, recv=None, args=list(args), kw=sorted(b.items()), g=list(st.g), line=line, ret=obj, inl=inl)
        if inl:
            self.call_func(f, obj, args, kw, st, fr, line)
        elif f is not None:
            self.kill_fields(st, self.P.modset(f))
        return obj

    def opaque_call(self, name, recv, args, kw, st, line):
        if recv is not None and name in getattr(self.P, "fresh_names", ()):
            self.uid += 1
            res = mk("rnd", name, self.uid, recv, tuple(args), tuple(kw))
            self.emit(kind="call", name=name, recv=recv, args=list(args), kw=list(kw), g=list(st.g), line=line, ret=res)
            return res
        self.emit(kind="call", name=name, recv=recv, args=list(args), kw=list(kw), g=list(st.g), line=line)
        if recv is not None:
            if self.is_rng(recv) or name in ("shuffle",):
                self.uid += 1
                return mk("rnd", name, self.uid, recv, tuple(args), tuple(kw))
            if name in ("tolist", "item", "copy", "astype") and not args:
                return recv
            return mk("mcall", recv, name, tuple(args), tuple((n if n is not None else "**", v) for n, v in kw))
        return mk("call", name, tuple(args), tuple((n if n is not None else "**", v) for n, v in kw))

    def is_rng(self, v):
        return (v.kind == "a" and "rng" in v.a[1].lower()) or (v.kind == "i" and self.is_rng(v.a[0])) or (v.kind == "p" and "rng" in v.a[0].lower())

    def mkrange(self, args):
        if len(args) == 1:
            return mk("range", ZERO, args[0])
        if len(args) == 3 and args[2] is ONE:
            args = args[:2]
        return mk("range", *args)

    def builtin(self, n, args, kw, st, fr, line):
        a = args
        base = n.split(".")[-1] if n.startswith(("std", "math.")) else n
        base = base.replace("std::", "")
        kwd = dict((k, v) for k, v in kw if k is not None)
        if base in ("min", "max") and not n.startswith("np."):
            if len(a) >= 2 and not kw:
                return V_.mn(a, base)
            if len(a) == 1 and not kw:
                x = a[0]
                if x.kind in ("list", "tuple", "set") and x.a[0]:
                    return V_.mn(list(x.a[0]), base)
                if x.kind == "comp" and x.a[3] is TRUE:
                    return mk(base + "over", x.a[1], x.a[2])
        if n in ("np.max", "np.amax", "np.min", "np.amin", "numpy.max", "numpy.min") and len(a) == 1:
            b = "max" if "max" in n else "min"
            x = a[0]
            if x.kind == "comp" and x.a[3] is TRUE:
                return mk(b + "over", x.a[1], x.a[2])
            if x.kind in ("list", "tuple"):
                return V_.mn(list(x.a[0]), b)
        if base == "len" and len(a) == 1:
            return self.length(a[0])
        if base in ("abs", "fabs") or n in ("np.abs",):
            if V_.is_num(a[0]):
                return const(abs(V_.num(a[0])))
            return mk("call", "abs", (a[0],), ())
        if base == "float" and len(a) == 1:
            if a[0].kind == "c" and isinstance(a[0].a[0], str):
                return mk("call", "float", (a[0],), ())
            return a[0]
        if base in ("int",) and len(a) == 1:
            if V_.is_int(a[0]):
                return a[0] if not V_.is_bool(a[0]) else mk("call", "int", (a[0],), ())
            return mk("call", "int", (a[0],), ())
        if base == "bool" and len(a) == 1:
            return V_.truthy(a[0])
        if base == "sqrt":
            return mk("call", "sqrt", (a[0],), ())
        if base == "pow" and len(a) == 2:
            return V_.power(a[0], a[1])
        if base == "range":
            return self.mkrange(a)
        if base in ("sum",) or n in ("np.sum",):
            if len(a) == 1 and a[0].kind == "comp" and a[0].a[0] in ("list", "gen"):
                e = a[0].a[1]
                if V_.is_bool(e):
                    e = V_.ite(e, ONE, ZERO)
                return self.mksum(V_.ite(a[0].a[3], e, ZERO), a[0].a[2])
            if len(a) == 1 and a[0].kind in ("list", "tuple"):
                r = ZERO
                for x in a[0].a[0]:
                    r = add(r, x)
                return r
            if len(a) == 1:
                x = self.strip_iter(a[0], st)
                return mk("sum", mk("elem", x), x) if not kw else mk("call", "sum", tuple(a), tuple(kw))
        if n in ("np.average", "np.mean") and len(a) == 1 and not kw:
            x = a[0]
            if x.kind == "comp" and x.a[3] is TRUE:
                return div(self.mksum(x.a[1], x.a[2]), self.length(x.a[2]))
            if x.kind in ("list", "tuple") and x.a[0]:
                r = ZERO
                for y in x.a[0]:
                    r = add(r, y)
                return div(r, const(len(x.a[0])))
        if base in ("any", "all") and len(a) == 1 and a[0].kind == "comp":
            c = V_.truthy(a[0].a[1])
            if base == "any":
                return self.anyof(V_.and_([a[0].a[3], c]), a[0].a[2])
            return V_.not_(self.anyof(V_.and_([a[0].a[3], V_.not_(c)]), a[0].a[2]))
        if base in ("list", "tuple", "set", "dict", "frozenset", "deque", "sorted", "iter") and len(a) <= 1 and not kw:
            if not a:
                return mk("dict", ()) if base == "dict" else mk("list", ())
            x = a[0]
            if x.kind == "comp" and base in ("list", "set", "tuple", "dict"):
                return mk("comp", x.a[0] if base == "tuple" else base, x.a[1], x.a[2], x.a[3])
            if base == "list" and x.kind in ("list", "tuple"):
                return mk("list", x.a[0])
            return mk("call", base, (x,), ())
        if base == "isinstance" and len(a) == 2:
            if a[1].kind == "tuple":
                return V_.or_([mk("truthy", mk("isinst", a[0], y)) for y in a[1].a[0]])
            return mk("truthy", mk("isinst", a[0], a[1]))
        if base in ("floor", "ceil", "round") and len(a) == 1 and not kw:
            return mk("call", base, (a[0],), ())
        if base in ("getattr",) and len(a) >= 2 and a[1].kind == "c" and isinstance(a[1].a[0], str):
            return self.attr(a[0], a[1].a[0], st, fr)
        if base == "setattr" and len(a) == 3 and a[1].kind == "c" and isinstance(a[1].a[0], str):
            self.write(mk("a", a[0], a[1].a[0]), a[2], st, line)
            return NONE
        if base == "swap" and len(a) == 2 and fr.func.lang == "cpp":
            self.emit(kind="call", name="swap", recv=None, args=a, kw=[], g=list(st.g), line=line)
            return NONE
        if base in ("fill",) and fr.func.lang == "cpp":
            pass
        if base == "print" or n == "print":
            self.emit(kind="call", name="print", recv=None, args=list(a), kw=list(kw), g=list(st.g), line=line)
            return NONE
        # constructors of analysed classes through a module alias
        last = n.split(".")[-1]
        f = self.P.function_dotted(n)
        if f is not None:
            return self.project_call(f, None, a, kw, st, fr, line)
        if self.P.is_class(last, fr.func) and "." in n:
            return self.new_object(last, a, kw, st, fr, line)
        self.emit(kind="call", name=n, recv=None, args=list(a), kw=list(kw), g=list(st.g), line=line)
        if "rand" in n or n.endswith(("shuffle", "choice", "default_rng", "time.time", "perf_counter")):
            self.uid += 1
            return mk("rnd", n, self.uid, tuple(a))
        return mk("call", n, tuple(a), tuple((k if k is not None else "**", v) for k, v in kw))
