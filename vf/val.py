"""Hash-consed value normal forms used by the value-numbering evaluator.

Every expression of the analysed source is mapped to one canonical term:
  arithmetic  -> Laurent polynomials over atoms (exact rationals)
  comparisons -> poly <= 0 / poly < 0 / poly == 0, integer-tightened
  booleans    -> flattened and/or in negation normal form
  conditionals-> ite, with min/max recognised
Two source fragments that compute the same thing in a different spelling get the same term.
"""
import hashlib
from fractions import Fraction
from math import gcd

_tab = {}


class V:
    __slots__ = ("kind", "a", "h", "_int", "_n")

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, V):
        return x.h
    if isinstance(x, tuple):
        return "(" + ",".join(_key(y) for y in x) + ")"
    return type(x).__name__ + ":" + repr(x)


def mk(kind, *a):
    k = kind + "|" + "|".join([_key(x) for x in a])
    v = _tab.get(k)
    if v is None:
        v = V()
        v.kind = kind
        v.a = a
        v.h = hashlib.md5(k.encode()).hexdigest()[:20]
        v._int = None
        n = 1
        for x in a:
            n += _size(x)
        v._n = n
        _tab[k] = v
    return v


def _size(x):
    if isinstance(x, V):
        return x._n
    if isinstance(x, tuple):
        return sum(_size(y) for y in x)
    return 0


def const(x):
    if isinstance(x, bool) or x is None or isinstance(x, (str, bytes)):
        return mk("c", x)
    if isinstance(x, int):
        return mk("c", Fraction(x))
    if isinstance(x, Fraction):
        return mk("c", x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("c", repr(x) + "#f")
        return mk("c", Fraction(repr(x)))
    return mk("c", repr(x))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(v, x=None):
    return v.kind == "c"


def cval(v):
    return v.a[0]


def is_num(v):
    return v.kind == "c" and isinstance(v.a[0], Fraction)


def num(v):
    return v.a[0] if is_num(v) else None


# ---------------------------------------------------------------- polynomials

def to_poly(v):
    if v.kind == "poly":
        return dict(v.a[0])
    if v.kind == "c":
        x = v.a[0]
        if isinstance(x, bool):
            return {(): Fraction(int(x))} if x else {}
        if isinstance(x, Fraction):
            return {(): x} if x != 0 else {}
    return {((v, 1),): Fraction(1)}


def mono_key(m):
    return tuple((a.h, p) for a, p in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: mono_key(mc[0]))))


def _mmul(m1, m2):
    d = {}
    for a, p in m1 + m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p != 0), key=lambda ap: ap[0].h))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


def add(x, y):
    p = to_poly(x)
    for m, c in to_poly(y).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(x):
    return from_poly({m: -c for m, c in to_poly(x).items()})


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    p, q = to_poly(x), to_poly(y)
    if len(p) * len(q) > 80:
        return mk("mul", *sorted([x, y], key=lambda v: v.h))
    r = _pmul(p, q)
    # an inverse of a multi-term sum times that same sum cancels (atoms carry it)
    return from_poly(r)


def inv(y):
    p = to_poly(y)
    if len(p) == 0:
        return mk("inv0")
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -k) for a, k in m): 1 / c})
    items = sorted(p.items(), key=lambda mc: mono_key(mc[0]))
    c0 = items[0][1]
    q = from_poly({m: c / c0 for m, c in items})
    return from_poly({((q, -1),): 1 / c0})


def div(x, y):
    if y.kind == "poly" and len(y.a[0]) > 1:
        # exact cancellation when x is a multiple of y
        if x is y:
            return ONE
    return mul(x, inv(y))


def clear_denominators(v):
    """multiply by every multi-term denominator; used only for zero tests"""
    for _ in range(8):
        p = to_poly(v)
        den = None
        for m in p:
            for a, k in m:
                if k < 0 and a.kind == "poly":
                    den = a
        if den is None:
            return v
        q = to_poly(den)
        r = {}
        for m, c in p.items():
            if any(a is den for a, k in m):
                mm = _mmul(m, ((den, 1),))
                r[mm] = r.get(mm, 0) + c
            else:
                for m2, c2 in q.items():
                    mm = _mmul(m, m2)
                    r[mm] = r.get(mm, 0) + c * c2
        # positive powers of the multi-term atom are expanded
        out = {}
        for m, c in r.items():
            k = dict(m).get(den, 0)
            if k > 0:
                base = tuple((a, e) for a, e in m if a is not den)
                cur = {base: c}
                for _i in range(k):
                    cur = _pmul(cur, q)
                for mm, cc in cur.items():
                    out[mm] = out.get(mm, 0) + cc
            else:
                out[m] = out.get(m, 0) + c
        v = from_poly(out)
    return v


def is_zero(v):
    if v is ZERO:
        return True
    return clear_denominators(v) is ZERO


def power(x, y):
    n = num(y)
    if n is not None and n.denominator == 1 and 0 <= n <= 4:
        r = ONE
        for _ in range(int(n)):
            r = mul(r, x)
        return r
    if n is not None and n.denominator == 1 and -4 <= n < 0:
        return inv(power(x, const(-n)))
    if n == Fraction(1, 2):
        return mk("call", "sqrt", (x,), ())
    return mk("pow", x, y)


# ---------------------------------------------------------------- integrality
INT_FIELDS = set()
NONNEG_INT_CALLS = {"len"}


def is_int(v):
    if v._int is not None:
        return v._int
    r = False
    if v.kind == "c":
        r = isinstance(v.a[0], bool) or (isinstance(v.a[0], Fraction) and v.a[0].denominator == 1)
    elif v.kind == "poly":
        r = all(c.denominator == 1 and all(k > 0 and is_int(a) for a, k in m) for m, c in v.a[0])
    elif v.kind == "call":
        r = v.a[0] in ("len", "int", "floor", "ceil", "round", "count")
    elif v.kind == "a":
        r = v.a[1] in INT_FIELDS
    elif v.kind == "elem":
        r = v.a[0].kind == "range"
    elif v.kind in ("fdiv", "mod"):
        r = all(is_int(x) for x in v.a)
    elif v.kind in ("min", "max"):
        r = all(is_int(x) for x in v.a)
    elif v.kind == "ite":
        r = is_int(v.a[1]) and is_int(v.a[2])
    v._int = r
    return r


# ---------------------------------------------------------------- comparisons

def _scale(p):
    """positive scaling to coprime integer coefficients"""
    p = dict(p)
    if not p:
        return p
    l = 1
    for c in p.values():
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for m, c in p.items():
        g = gcd(g, int(c * l))
    f = Fraction(l, g if g else 1)
    return {m: c * f for m, c in p.items()}


def _scale_nc(p):
    return _scale(p)


NUMERIC_SAFE = True


def le(p):
    """p <= 0"""
    d = to_poly(p)
    if all(m == () for m in d):
        return TRUE if d.get((), 0) <= 0 else FALSE
    d = _scale(d)
    v = from_poly(d)
    if is_int(v):
        # tighten the constant by the gcd of the non-constant coefficients
        g = 0
        for m, c in d.items():
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            c0 = d.get((), Fraction(0))
            import math
            d = {m: c / g for m, c in d.items() if m != ()}
            d[()] = Fraction(math.ceil(c0 / g))
            v = from_poly(d)
    return mk("le", v)


def lt(p):
    d = to_poly(p)
    if all(m == () for m in d):
        return TRUE if d.get((), 0) < 0 else FALSE
    d = _scale(d)
    v = from_poly(d)
    if is_int(v):
        return le(add(v, ONE))
    return mk("lt", v)


def eqz(p):
    d = to_poly(p)
    if all(m == () for m in d):
        return TRUE if d.get((), 0) == 0 else FALSE
    d = _scale(d)
    items = sorted(d.items(), key=lambda mc: mono_key(mc[0]))
    lead = [c for m, c in items if m != ()][0]
    if lead < 0:
        d = {m: -c for m, c in d.items()}
    v = from_poly(d)
    if v.kind == "call" and v.a[0] == "len":
        return le(v)
    if v.kind in ("ite",):
        r = _push_eq(v, ZERO)
        if r is not None:
            return r
    return mk("eqz", v)


def _push_eq(v, k):
    a, b = v.a[1], v.a[2]
    if (is_num(a) or a.kind == "c") or (is_num(b) or b.kind == "c"):
        return ite(v.a[0], eq(a, k), eq(b, k))
    return None


def nonnum_const(v):
    return v.kind == "c" and not isinstance(v.a[0], Fraction)


OBJ_KINDS = {"new", "list", "tuple", "dict", "set", "appended", "comp", "dictcomp", "lam", "fstr", "cat", "popped0", "concat", "func"}
_TRUTHY_LIST_FIELDS = set()


ENTITY_QUEUES = {"vehicles", "generation_queue", "incoming_vehicles", "LINKS", "NODES", "links", "nodes", "in_links", "out_links"}


def entity_queue(c):
    while c.kind in ("values", "appended", "popped0"):
        c = c.a[0]
    if c.kind == "call" and c.a[0] == "list" and c.a[1]:
        return entity_queue(c.a[1][0])
    return c.kind == "a" and c.a[1] in ENTITY_QUEUES


def eq(a, b):
    if a is b:
        return TRUE
    if b.kind == "c" and isinstance(b.a[0], bool) and not (a.kind == "c"):
        return truthy(a) if b.a[0] else not_(truthy(a))
    if a.kind == "c" and isinstance(a.a[0], bool) and not (b.kind == "c"):
        return eq(b, a)
    if a.kind == "c" and b.kind == "c":
        x, y = a.a[0], b.a[0]
        if isinstance(x, bool):
            x = Fraction(int(x))
        if isinstance(y, bool):
            y = Fraction(int(y))
        return TRUE if x == y and type(x) == type(y) else FALSE
    if nonnum_const(a):
        a, b = b, a
    if nonnum_const(b):
        if a.kind == "ite":
            x, y = a.a[1], a.a[2]
            return ite(a.a[0], eq(x, b), eq(y, b))
        if a.kind in OBJ_KINDS and b is NONE:
            return FALSE
        if a.kind in ("poly", "min", "max", "lt", "le", "eqz", "eq") and b is NONE:
            return FALSE
        if b is NONE and a.kind in ("i", "elem") and entity_queue(a.a[0]):
            return FALSE            # queues and registries hold entities only
        return mk("eq", a, b)
    if is_flag(a) and is_num(b):
        if num(b) == 1:
            return truthy(a)
        if num(b) == 0:
            return not_(truthy(a))
    if is_flag(b) and is_num(a):
        return eq(b, a)
    if (a.kind in OBJ_KINDS or b.kind in OBJ_KINDS):
        # an empty list compared with a container
        x, y = sorted([a, b], key=lambda v: v.h)
        return mk("eq", x, y)
    return eqz(sub(a, b))


FLAG_FIELDS = set()
OBJ_FIELDS = set()
LIST_FIELDS = set()


def is_flag(v):
    return (v.kind == "a" and v.a[1] in FLAG_FIELDS)


def cmp_(op, a, b):
    if op in ("==", "is"):
        return eq(a, b)
    if op in ("!=", "is not"):
        return not_(eq(a, b))
    if op == "<":
        return lt(sub(a, b)) if not _infcmp(a, b) else mk("cmp", "<", a, b)
    if op == "<=":
        return le(sub(a, b)) if not _infcmp(a, b) else mk("cmp", "<=", a, b)
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return not_(contains(b, a))
    return mk("cmp", op, a, b)


def _infcmp(a, b):
    return (a.kind == "c" and not isinstance(a.a[0], (Fraction, bool))) or (b.kind == "c" and not isinstance(b.a[0], (Fraction, bool)))


def contains(container, x):
    c = container
    if c.kind in ("list", "tuple", "set"):
        items = c.a[0]
        if len(items) <= 6:
            return or_([eq(x, i) for i in items])
    # strip views/copies that do not change membership
    while True:
        if c.kind == "call" and c.a[0] in ("list", "set", "tuple", "sorted") and len(c.a[1]) >= 1:
            c = c.a[1][0]
            continue
        if c.kind == "mcall" and c.a[1] == "keys":
            c = c.a[0]
            continue
        break
    return mk("in", x, c)


BOOL_KINDS = {"le", "lt", "eqz", "eq", "in", "and", "or", "not", "truthy", "cmp"}


def is_bool(v):
    return v.kind in BOOL_KINDS or (v.kind == "c" and isinstance(v.a[0], bool))


def truthy(v):
    if is_bool(v):
        return v
    if v.kind == "c":
        x = v.a[0]
        return TRUE if x else FALSE
    if v.kind == "call" and v.a[0] == "len":
        return le(sub(ONE, v))
    if v.kind == "call" and v.a[0] in ("bool",):
        return truthy(v.a[1][0])
    if v.kind in ("list", "tuple", "set"):
        return TRUE if v.a[0] else FALSE
    if v.kind == "ite":
        return ite(v.a[0], truthy(v.a[1]), truthy(v.a[2]))
    if v.kind == "new":
        return TRUE if v.a[1].kind == "u" else mk("truthy", v)      # a container made here may be empty
    if v.kind == "a":
        if v.a[1] in OBJ_FIELDS:
            return not_(eq(v, NONE))
        if v.a[1] in LIST_FIELDS:
            return le(sub(ONE, mk("call", "len", (v,), ())))
    if v.kind == "poly" and is_int(v):
        if len(v.a[0]) == 2:
            nc = [(m, c) for m, c in v.a[0] if m]
            if len(nc) == 1 and nc[0][1] == 1 and len(nc[0][0]) == 1 and nc[0][0][0][1] == 1 and nc[0][0][0][0].kind == "call" and nc[0][0][0][0].a[0] == "len":
                return le(sub(ONE, v))     # length of a shortened/extended container
        return not_(eqz(v))
    if v.kind in ("comp", "concat", "appended", "call") and (v.kind != "call" or v.a[0] in ("list", "set", "tuple", "sorted", "setand", "setsub")):
        return le(sub(ONE, mk("call", "len", (v,), ())))
    return mk("truthy", v)


_nm = {}
_am = {}
_om = {}


def not_(v):
    r = _nm.get(v)
    if r is None:
        r = _nm[v] = _not(v)
    return r


def and_(xs):
    k = frozenset(xs)
    r = _am.get(k)
    if r is None:
        r = _am[k] = _and(sorted(k, key=lambda v: v.h))
    return r


def or_(xs):
    k = frozenset(xs)
    r = _om.get(k)
    if r is None:
        r = _om[k] = _or(sorted(k, key=lambda v: v.h))
    return r


def _not(v):
    if v.kind == "c":
        return TRUE if not v.a[0] else FALSE
    if v.kind == "not":
        return v.a[0]
    if v.kind == "le":
        return lt(neg(v.a[0]))
    if v.kind == "lt":
        return le(neg(v.a[0]))
    if v.kind == "and":
        return or_([not_(x) for x in v.a[0]])
    if v.kind == "or":
        return and_([not_(x) for x in v.a[0]])
    if v.kind == "ite":
        return ite(v.a[0], not_(v.a[1]), not_(v.a[2]))
    if not is_bool(v):
        return not_(truthy(v))
    return mk("not", v)


def _and(xs):
    out = []
    seen = set()
    for x in xs:
        x = truthy(x)
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a[0] if x.kind == "and" else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if not_(y) in seen:
            return FALSE
    # unit absorption: x and (x or y) -> x ; x and (not x or y) -> x and y
    res = []
    changed = False
    for y in out:
        if y.kind == "or":
            alts = []
            sat = False
            for z in y.a[0]:
                if z in seen:
                    sat = True
                    break
                if not_(z) in seen:
                    changed = True
                    continue
                if z.kind == "and" and all(q in seen for q in z.a[0]):
                    sat = True
                    break
                alts.append(z)
            if sat:
                changed = True
                continue
            if len(alts) != len(y.a[0]):
                y = or_(alts)
        res.append(y)
    if changed:
        return and_(res)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", tuple(sorted(res, key=lambda v: v.h)))


def _or(xs):
    out = []
    seen = set()
    for x in xs:
        x = truthy(x)
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a[0] if x.kind == "or" else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        if not_(y) in seen:
            return TRUE
    res = []
    changed = False
    for y in out:
        if y.kind == "and":
            alts = []
            drop = False
            for z in y.a[0]:
                if z in seen:
                    drop = True
                    break
                if not_(z) in seen:
                    changed = True
                    continue
                alts.append(z)
            if drop:
                changed = True
                continue
            if len(alts) != len(y.a[0]):
                y = and_(alts)
        res.append(y)
    # (a and b) or (not a and b) -> b
    ands = [y for y in res if y.kind == "and"]
    for i in range(len(ands)):
        for j in range(i + 1, len(ands)):
            A, B = set(ands[i].a[0]), set(ands[j].a[0])
            d1, d2 = A - B, B - A
            if len(d1) == 1 and len(d2) == 1:
                x, = d1
                y, = d2
                if not_(x) is y:
                    rest = [z for z in res if z is not ands[i] and z is not ands[j]]
                    return or_(rest + [and_(list(A & B))])
    if changed:
        return or_(res)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk("or", tuple(sorted(res, key=lambda v: v.h)))


def conj(v):
    """list of top-level conjuncts"""
    if v.kind == "and":
        return list(v.a[0])
    if v is TRUE:
        return []
    return [v]


def mn(xs, op="min"):
    out = []
    for x in xs:
        for y in (x.a if x.kind == op else (x,)):
            if y not in out:
                out.append(y)
    nums = [x for x in out if is_num(x)]
    if len(nums) > 1:
        f = min if op == "min" else max
        k = const(f(num(x) for x in nums))
        out = [x for x in out if not is_num(x)] + [k]
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda v: v.h))


def mx(xs):
    return mn(xs, "max")


def assume(v, c, val, depth=6):
    """simplify ite terms in v knowing that condition c has truth value val"""
    if depth == 0 or not isinstance(v, V):
        return v
    if v is c:
        return TRUE if val else FALSE
    if v.kind == "ite":
        if v.a[0] is c:
            return assume(v.a[1] if val else v.a[2], c, val, depth - 1)
        nc = not_(c)
        if v.a[0] is nc:
            return assume(v.a[2] if val else v.a[1], c, val, depth - 1)
        x, y = assume(v.a[1], c, val, depth - 1), assume(v.a[2], c, val, depth - 1)
        if x is not v.a[1] or y is not v.a[2]:
            return ite(v.a[0], x, y)
    return v


def ite(c, a, b):
    c = truthy(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "not":
        return ite(c.a[0], b, a)
    if is_bool(a) and is_bool(b):
        return or_([and_([c, a]), and_([not_(c), b])])
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if c.kind in ("lt", "le"):
        # p <(=) 0 with p ~ a-b  -> min ; p ~ b-a -> max
        p = c.a[0]
        if not nonnum_const(a) and not nonnum_const(b):
            d = from_poly(_scale(to_poly(sub(a, b))))
            cands = [d]
            if is_int(d):
                cands.append(add(d, ONE))
            if any(p is x for x in cands):
                return mn([a, b])
            d2 = neg(d)
            cands = [d2]
            if is_int(d2):
                cands.append(add(d2, ONE))
            if any(p is x for x in cands):
                return mx([a, b])
        # canonical orientation: choose the smaller digest of c / not c
    nc = not_(c)
    if nc.kind in ("lt", "le") and nc.h < c.h and c.kind in ("lt", "le"):
        return mk("ite", nc, b, a)
    if c.kind == "or" and nc.kind == "and":
        return mk("ite", nc, b, a)
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- structure helpers

def walk(v, seen=None):
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def contains_v(v, pred):
    return any(pred(x) for x in walk(v))


def subst(v, f, memo=None):
    """bottom-up rebuild; f(V)->V|None applied to each node first"""
    if memo is None:
        memo = {}
    return _subst(v, f, memo)


def _subst(v, f, memo):
    if isinstance(v, tuple):
        return tuple(_subst(x, f, memo) for x in v)
    if not isinstance(v, V):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    r = f(v)
    if r is None:
        if v.kind == "poly":
            r = ZERO
            for m, c in v.a[0]:
                t = const(c)
                for at, k in m:
                    x = _subst(at, f, memo)
                    if k < 0:
                        x = inv(x)
                    for _ in range(abs(k)):
                        t = mul(t, x)
                r = add(r, t)
        else:
            na = tuple(_subst(x, f, memo) for x in v.a)
            if all(x is y or x == y for x, y in zip(na, v.a)):
                r = v
            else:
                r = rebuild(v.kind, na)
    memo[v] = r
    return r


def rebuild(kind, a):
    if kind == "and":
        return and_(a[0])
    if kind == "or":
        return or_(a[0])
    if kind == "not":
        return not_(a[0])
    if kind == "le":
        return le(a[0])
    if kind == "lt":
        return lt(a[0])
    if kind == "eqz":
        return eqz(a[0])
    if kind == "eq":
        return eq(a[0], a[1])
    if kind == "ite":
        return ite(*a)
    if kind in ("min", "max"):
        return mn(a, kind)
    if kind == "truthy":
        return truthy(a[0])
    if kind == "in":
        return contains(a[1], a[0])
    return mk(kind, *a)


def show(v, d=0):
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
    if not isinstance(v, V):
        return str(v)
    if d > 14:
        return "..."
    k = v.kind
    if k == "c":
        x = v.a[0]
        if isinstance(x, Fraction):
            return str(int(x)) if x.denominator == 1 else str(float(x))
        return repr(x)
    if k == "p":
        return v.a[0]
    if k == "a":
        return show(v.a[0], d + 1) + "." + v.a[1]
    if k == "i":
        return show(v.a[0], d + 1) + "[" + show(v.a[1], d + 1) + "]"
    if k == "poly":
        ts = []
        for m, c in v.a[0]:
            t = "*".join((show(a, d + 1) if a.kind != "poly" else "(" + show(a, d + 1) + ")") + ("" if p == 1 else "^%d" % p) for a, p in m)
            cs = str(int(c)) if c.denominator == 1 else str(float(c))
            if not t:
                ts.append(cs)
            elif c == 1:
                ts.append(t)
            elif c == -1:
                ts.append("-" + t)
            else:
                ts.append(cs + "*" + t)
        return "(" + " + ".join(ts) + ")"
    if k == "le":
        return show(v.a[0], d + 1) + "<=0"
    if k == "lt":
        return show(v.a[0], d + 1) + "<0"
    if k == "eqz":
        return show(v.a[0], d + 1) + "==0"
    if k == "eq":
        return show(v.a[0], d + 1) + "==" + show(v.a[1], d + 1)
    if k == "not":
        return "!(" + show(v.a[0], d + 1) + ")"
    if k in ("and", "or"):
        return "(" + (" & " if k == "and" else " | ").join(show(x, d + 1) for x in v.a[0]) + ")"
    if k == "call":
        return "%s(%s)" % (v.a[0], ", ".join([show(x, d + 1) for x in v.a[1]] + ["%s=%s" % (n, show(x, d + 1)) for n, x in v.a[2]]))
    if k == "mcall":
        return "%s.%s(%s)" % (show(v.a[0], d + 1), v.a[1], ", ".join([show(x, d + 1) for x in v.a[2]] + ["%s=%s" % (n, show(x, d + 1)) for n, x in v.a[3]]))
    return k + "(" + ", ".join(show(x, d + 1) for x in v.a) + ")"
