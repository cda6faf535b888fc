"""Columns of the tables a function returns: what each column holds, per row."""
from . import val as V_
from .val import V, mk

_ = None


def alternative(v):
    """value that is grown onto a list by a loop iteration: rho() = the list before"""
    if v.kind == "appended":
        return [(v.a[1], ())]
    if v.kind == "ite":
        out = []
        for x, c in ((v.a[1], v.a[0]), (v.a[2], V_.not_(v.a[0]))):
            sub = alternative(x)
            if sub is None:
                if x.kind in ("rho",) or str(x) == "rho()":
                    continue
                return None
            out += [(y, tuple(V_.conj(c)) + tuple(p)) for y, p in sub]
        return out
    if v.kind in ("grown", "extended") and v.a[1].kind == "comp":
        return [(v.a[1].a[1], tuple(V_.conj(v.a[1].a[3])) if isinstance(v.a[1].a[3], V) else ())]
    return None


def merge(alts):
    v = alts[-1][0]
    for x, c in reversed(alts[:-1]):
        v = V_.ite(V_.and_(list(c)), x, v)
    return v


def row(v):
    """(per-row value, domain) of a list built row by row"""
    if v.kind == "comp":
        x = v.a[1]
        return x, v.a[2]
    if v.kind == "rec":
        alts = alternative(v.a[1])
        if alts:
            return merge(alts), v.a[2]
    if v.kind in ("grown", "extended") and v.a[1].kind == "comp":
        return v.a[1].a[1], v.a[1].a[2]
    return None, None


def flat(x):
    """elements of row lists by position stand for the value of the row"""
    def f(v):
        if v.kind == "elem" and v.a[0].kind in ("comp", "rec", "grown"):
            y, d = row(v.a[0])
            if y is not None:
                return flat(y)
        if v.kind == "i" and v.a[1].kind == "elem" and v.a[1].a[0].kind == "call" and v.a[1].a[0].a[0] == "range":
            ar = v.a[1].a[0].a[1]
            if v.a[0].kind in ("comp", "rec", "grown"):
                y, d = row(v.a[0])
                if y is not None:
                    return flat(y)
            n = ar[-1] if ar else None
            if n is not None and n.kind == "call" and n.a[0] == "len" and n.a[1][0] is v.a[0]:
                return mk("elem", v.a[0])
        return None
    return V_.subst(x, f)


def columns(r):
    """{column name: value in a row} of the table returned by the run, or None"""
    rets = [e for e in r.events if e.kind == "return" and e.value.kind == "call" and str(e.value.a[0]).split(".")[-1] == "DataFrame"]
    if not rets:
        return None
    v = rets[-1].value
    arg = v.a[1][0]
    out = {}
    if arg.kind == "dict":
        for k, x in arg.a[0]:
            y, d = row(x)
            out[k if isinstance(k, str) else V_.cval(k)] = flat(y) if y is not None else x
        return out
    kw = dict(v.a[2])
    cols = kw.get("columns")
    body = arg
    if body.kind == "i" and body.a[1].kind == "slice":
        body = body.a[0]
    hdr = None

    def heads(x):
        if x.kind == "list" and x.a[0] and x.a[0][0].kind == "list":
            return x.a[0][0]
        if x.kind in ("grown", "extended", "rec") and x.a:
            return heads(x.a[0])
        return None
    hdr = heads(body)
    if hdr is None and cols is not None and cols.kind == "list":
        hdr = cols
    if hdr is None:
        return None
    names = [V_.cval(x) for x in hdr.a[0]]
    if body.kind == "list":
        rows = [x for x in body.a[0] if x is not hdr]
        if len(rows) != 1 or rows[0].kind != "list":
            return None
        y = rows[0]
    else:
        y, d = row(body)
    if y is None or y.kind != "list":
        return None
    vals = list(y.a[0])
    if len(vals) != len(names):
        return {"#": "%d values in %d columns" % (len(vals), len(names))}
    return {n: flat(x) for n, x in zip(names, vals)}
