"""Polyhedral abstract domain with disjunctive completion.

`infeasible(lits)`  : the conjunction of canonical conditions describes the empty set
`implies(gs, r)`    : every state allowed by the guards satisfies r
`same(v, w, gs)`    : two value terms denote the same value in every state allowed by the guards
Emptiness is decided by case-splitting or/ite/min/max and Fourier-Motzkin elimination over
monomials (non-linear monomials are independent variables).  Answers are one-sided: True is a
proof over the abstraction, False means "not shown".
"""
from fractions import Fraction
from . import val as v_
from .val import V, ZERO, ONE, TRUE, FALSE, NONE

POS_FIELDS = set()      # fields known to be > 0
NONNEG_FIELDS = set()   # fields known to be >= 0
BUDGET = 6000


class Over(Exception):
    pass


def _find_split(v):
    """first ite/min/max atom inside an arithmetic term"""
    for x in v_.walk(v):
        if x.kind in ("ite", "min", "max"):
            return x
    return None


def _linear_split(p):
    """find ite/min/max among the atoms (at top level of monomials) of polynomial p"""
    d = v_.to_poly(p)
    for m in d:
        for a, k in m:
            if a.kind in ("ite", "min", "max"):
                return a
            if a.kind == "call" and a.a[0] == "abs":
                return a
    return None


def _innermost(p):
    """a conditional value reachable through arithmetic that contains no other reachable one"""
    at = _linear_split(p)
    while at is not None:
        nxt = None
        if at.kind == "ite":
            for x in at.a[1:]:
                nxt = _linear_split(x)
                if nxt is not None:
                    break
            if nxt is None and at.a[0].kind in ("le", "lt", "eqz"):
                nxt = _linear_split(at.a[0].a[0])
        else:
            for x in (at.a if at.kind != "call" else at.a[1]):
                nxt = _linear_split(x)
                if nxt is not None:
                    break
        if nxt is None:
            return at
        at = nxt
    return None


def _assume(v, c, nc):
    def f(x):
        if x is c:
            return TRUE
        if x is nc:
            return FALSE
        return None
    return v_.subst(v, f)


def _replace(p, at, w):
    return v_.subst(p, lambda x: w if x is at else None)


class Ctx:
    def __init__(self, extra_pos=(), extra_facts=()):
        self.pos = set(extra_pos)
        self.facts = list(extra_facts)


def _atom_sign(a, pos):
    """'+' positive, '0+' nonneg, None"""
    if a in pos:
        return "+"
    if a.kind == "a":
        if a.a[1] in POS_FIELDS:
            return "+"
        if a.a[1] in NONNEG_FIELDS:
            return "0+"
    if a.kind == "call":
        if a.a[0] in ("len", "sqrt", "abs", "count"):
            return "0+"
    if a.kind == "poly":
        d = v_.to_poly(a)
        s = "0+"
        for m, c in d.items():
            if c < 0:
                return None
            sg = _mono_sign(m, pos)
            if sg is None:
                return None
            if sg == "+":
                s = "+"
        return s
    return None


def _mono_sign(m, pos):
    s = "+"
    for a, k in m:
        sg = _atom_sign(a, pos)
        if k % 2 == 0:
            if sg != "+":
                s = "0+" if s else s
            continue
        if sg is None:
            return None
        if sg == "0+":
            s = "0+"
    return s


def infeasible(lits, pos=(), budget=None):
    cnt = [0]
    lim = budget or BUDGET

    def run(todo, cons, atoms):
        # todo: list of V bool; cons: list of (poly, strict) meaning p<=0 / p<0 ; atoms: dict V->bool
        cnt[0] += 1
        if cnt[0] > lim:
            raise Over()
        todo = list(todo)
        cons = list(cons)
        atoms = dict(atoms)
        ors = []
        while todo:
            x = todo.pop()
            if x is TRUE:
                continue
            if x is FALSE:
                return True
            k = x.kind
            if k == "and":
                todo.extend(x.a[0])
                continue
            if k == "or":
                ors.append(x)
                continue
            if k == "ite":
                ors.append(v_.mk("or", (v_.and_([x.a[0], x.a[1]]), v_.and_([v_.not_(x.a[0]), x.a[2]]))))
                continue
            if k in ("le", "lt"):
                at = _linear_split(x.a[0])
                if at is not None:
                    ors.append(x)
                else:
                    cons.append((x.a[0], k == "lt"))
                continue
            if k == "eqz":
                at = _linear_split(x.a[0])
                if at is not None:
                    ors.append(x)
                else:
                    cons.append((x.a[0], False))
                    cons.append((v_.neg(x.a[0]), False))
                    if atoms.get(x) is False:
                        return True
                    atoms[x] = True
                continue
            neg = False
            y = x
            if k == "not":
                y = x.a[0]
                neg = True
                if y.kind == "eqz":
                    # p != 0 -> split
                    if atoms.get(y) is True:
                        return True
                    atoms[y] = False
                    ors.append(x)
                    continue
            if y.kind in ("eq", "truthy", "in") and any(z.kind == "ite" for z in y.a if isinstance(z, V)):
                i = [z for z in y.a if isinstance(z, V) and z.kind == "ite"][0]
                c, p, q = i.a
                yp = v_.rebuild(y.kind, tuple(p if z is i else z for z in y.a))
                yq = v_.rebuild(y.kind, tuple(q if z is i else z for z in y.a))
                if neg:
                    yp, yq = v_.not_(yp), v_.not_(yq)
                ors.append(v_.mk("or", (v_.and_([c, yp]), v_.and_([v_.not_(c), yq]))))
                continue
            if atoms.get(y, not neg) is not (not neg):
                return True
            atoms[y] = not neg
            # x == const excludes other constants
            if not neg and y.kind == "eq" and y.a[1].kind == "c":
                for z, t in atoms.items():
                    if t and z.kind == "eq" and z is not y and z.a[0] is y.a[0] and z.a[1].kind == "c" and z.a[1] is not y.a[1]:
                        return True
        # simplification of the disjunctions with known boolean atoms
        if _fm_infeasible(cons, pos):
            return True
        if not ors:
            return False
        # split on the innermost conditional value, everywhere at once; else on the smallest disjunction
        at = None
        for o in ors:
            if o.kind != "or":
                p = o.a[0].a[0] if o.kind == "not" else o.a[0]
                at = _innermost(p)
                if at is not None:
                    break
        if at is not None:
            alts = []
            if at.kind == "ite":
                c, a, b = at.a
                nc = v_.not_(c)
                alts.append([c] + [_assume(_replace(o, at, a), c, nc) for o in ors])
                alts.append([nc] + [_assume(_replace(o, at, b), nc, c) for o in ors])
            elif at.kind == "call":
                a = at.a[1][0]
                alts.append([v_.le(v_.neg(a))] + [_replace(o, at, a) for o in ors])
                alts.append([v_.lt(a)] + [_replace(o, at, v_.neg(a)) for o in ors])
            else:
                items = at.a
                for i, a in enumerate(items):
                    cs = []
                    for j, b in enumerate(items):
                        if i != j:
                            d = v_.sub(a, b) if at.kind == "min" else v_.sub(b, a)
                            cs.append(v_.le(d))
                    alts.append(cs + [_replace(o, at, a) for o in ors])
            rest = []
        else:
            ors.sort(key=lambda o: len(o.a[0]) if o.kind == "or" else 2)
            o = ors[0]
            rest = ors[1:]
            if o.kind == "or":
                alts = [[z] for z in o.a[0]]
            else:
                p = o.a[0].a[0]
                alts = [[v_.lt(p)], [v_.lt(v_.neg(p))]]
        base = []
        for t, val in atoms.items():
            if t.kind != "eqz":
                base.append(t if val else v_.not_(t))
            elif not val:
                pass
        for alt in alts:
            if not run(list(alt) + rest, cons, atoms):
                return False
        return True

    return run(list(lits), [], {})


def _fm_infeasible(cons, pos=()):
    if not cons:
        return False
    rows = []
    varset = set()
    for p, strict in cons:
        d = v_.to_poly(v_.clear_denominators(p)) if False else v_.to_poly(p)
        row = {}
        c0 = Fraction(0)
        for m, c in d.items():
            if m == ():
                c0 = c
            else:
                row[m] = c
                varset.add(m)
        rows.append((row, c0, strict))
    # sign facts for monomials
    for m in varset:
        s = _mono_sign(m, pos)
        if s == "+":
            rows.append(({m: Fraction(-1)}, Fraction(0), True))
        elif s == "0+":
            rows.append(({m: Fraction(-1)}, Fraction(0), False))
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == "mod":
                rows.append(({m: Fraction(-1)}, Fraction(0), False))
            # x // d with integer... no fact
    return _fm(rows, list(varset))


def _fm(rows, vs):
    # row: sum + c0 (<|<=) 0
    seen = set()

    def norm(row, c0, st):
        if not row:
            return None
        k = max(abs(c) for c in row.values())
        return ({m: c / k for m, c in row.items()}, c0 / k, st)

    cur = []
    for row, c0, st in rows:
        row = {m: c for m, c in row.items() if c != 0}
        if not row:
            if c0 > 0 or (st and c0 >= 0):
                return True
            continue
        cur.append(norm(row, c0, st))
    while True:
        vs = set()
        for row, _, _ in cur:
            vs.update(row)
        if not vs:
            return False
        # choose variable minimising products
        best = None
        for v in vs:
            p = sum(1 for r in cur if r[0].get(v, 0) > 0)
            n = sum(1 for r in cur if r[0].get(v, 0) < 0)
            s = p * n - p - n
            if best is None or s < best[0]:
                best = (s, v)
        v = best[1]
        P = [r for r in cur if r[0].get(v, 0) > 0]
        N = [r for r in cur if r[0].get(v, 0) < 0]
        new = [r for r in cur if r[0].get(v, 0) == 0]
        for rp in P:
            for rn in N:
                a, b = rp[0][v], -rn[0][v]
                row = {}
                for m, c in rp[0].items():
                    row[m] = row.get(m, 0) + c * b
                for m, c in rn[0].items():
                    row[m] = row.get(m, 0) + c * a
                row = {m: c for m, c in row.items() if c != 0}
                c0 = rp[1] * b + rn[1] * a
                st = rp[2] or rn[2]
                if not row:
                    if c0 > 0 or (st and c0 >= 0):
                        return True
                    continue
                new.append(norm(row, c0, st))
        # dedupe
        ded = {}
        for row, c0, st in new:
            k = frozenset(row.items())
            o = ded.get(k)
            if o is None or c0 > o[1] or (c0 == o[1] and st and not o[2]):
                ded[k] = (row, c0, st)
        cur = list(ded.values())
        if len(cur) > 400:
            return False


def implies(gs, r, pos=()):
    gs = list(gs)
    r = v_.truthy(r)
    if r is TRUE:
        return True
    flat = set()
    for g in gs:
        flat.update(v_.conj(g))
    if r in flat:
        return True
    if all(x in flat for x in v_.conj(r)):
        return True
    try:
        return infeasible(gs + [v_.not_(r)], pos)
    except Over:
        return False


def possible(gs, pos=()):
    try:
        return not infeasible(list(gs), pos)
    except Over:
        return True


def _leaves(v, cond, out, lim):
    if v.kind == "ite":
        _leaves(v.a[1], cond + [v.a[0]], out, lim)
        _leaves(v.a[2], cond + [v_.not_(v.a[0])], out, lim)
    else:
        out.append((cond, v))
        if len(out) > lim:
            raise Over()


def leaves(v, lim=64):
    out = []
    _leaves(v, [], out, lim)
    return out


def _numeric(v):
    return v.kind in ("poly", "min", "max") or v_.is_num(v)


def same(a, b, gs=(), pos=()):
    """True if shown equal under guards"""
    gs = list(gs)
    if a is b:
        return True
    if v_.is_bool(a) and v_.is_bool(b):
        return implies(gs + [a], b, pos) and implies(gs + [b], a, pos)
    try:
        la, lb = leaves(a), leaves(b)
        for ca, va in la:
            if infeasible(gs + ca, pos):
                continue
            for cb, vb in lb:
                if va is vb:
                    continue
                if infeasible(gs + ca + cb, pos):
                    continue
                if v_.nonnum_const(va) or v_.nonnum_const(vb):
                    return False
                d = v_.sub(va, vb)
                if v_.is_zero(d):
                    continue
                c = gs + ca + cb
                if not (infeasible(c + [v_.lt(d)], pos) and infeasible(c + [v_.lt(v_.neg(d))], pos)):
                    return False
        return True
    except Over:
        return False
