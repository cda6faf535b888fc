from .common import *
from .. import stats
from ..live import LModel, Mat, DD, Obj, model, final
from ..setmodel import Undecided, Raises
from ..bridge import agree
from fractions import Fraction as F


@rule("P31", "R1", "trajectories, traffic states of cells and areas and their tables are, on models of links and logs, those of their definitions")
def r1(c):
    c.floor(stats.check(c, "P31"), 7, "analyses of traffic states")


def at(r):
    return "%s:%s (%s)" % (r.func.file.replace(P.REPO + "/", ""), r.func.line, r.qual)


@rule("P31", "R2", "cells are as long as requested, or a tenth of the link and at least one step of a vehicle at free-flow speed")
def r2(c):
    n = 0
    for lang, qn in (("py", "Link.__init__"), ("wrap", "CppLink.__init__")):
        r = run(lang, qn, all=True)
        c.used(r)
        n += 1
        evs = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "edie_dx" and e.loc.a[0] is mk("p", "self")]
        if not evs:
            raise P.AnchorMissing("%s edie_dx" % qn)

        def cases():
            for L, u, dt, dx in ((1000, 20, 5, None), (1000, 20, 10, None), (400, 20, 5, None), (1000, 20, 5, 50), (300, 10, 1, None), (90, 30, 5, 20), (600, 15, 4, None)):
                def go(L=L, u=u, dt=dt, dx=dx):
                    m = LModel({}, [], {}, attrs=True, recs=r.ev.looprec, listeq=True)
                    W = Obj(DELTAT=F(dt), DELTAN=F(dt), REACTION_TIME=F(1))
                    s = Obj(W=W, length=F(L), u=F(u), eular_dx=None if dx is None else F(dx))
                    m.bools.update({mk("p", "self"): s, mk("p", "W"): W, mk("p", "length"): F(L), mk("p", "free_flow_speed"): F(u), mk("p", "eular_dx"): None if dx is None else F(dx)})
                    for e in evs:
                        if all(m.truth(m.ev(g)) for g in e.g if V_.contains_v(g, lambda y: y.kind in ("p", "a") and y.a[-1] in ("eular_dx", "length", "edie_dx", "u"))):
                            s["edie_dx"] = m.ev(e.value)
                    return s.get("edie_dx")
                yield go, F(dx) if dx is not None else max(F(L, 10), F(u * dt)), "length %s, speed %s, step %s, requested %s" % (L, u, dt, dx)
        agree(c, at(r), "edie_dx", "length of the cells", cases())
    c.floor(n, 2, "constructors")


@rule("P31", "R3", "the periods are those requested, and the states of an area start empty for each of them")
def r3(c):
    n = 0
    for lang, qn in (("py", "World.__init__"), ("wrap", "CppWorld.__init__")):
        r = run(lang, qn, all=True)
        c.used(r)
        evs = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "EULAR_DT"]
        if not evs:
            raise P.AnchorMissing("%s EULAR_DT" % qn)
        v = evs[-1].value
        n += 1
        c.ob(True if v is mk("p", "eular_dt") else None if V_.contains_v(v, lambda y: y is mk("p", "eular_dt")) else False, where(evs[-1]), "the period of the traffic states is the requested one", key="%s eular_dt" % qn)
    for pr, lang, f in area_makers():
        r = run(lang, f.qual, all=True, project=pr)
        c.used(r)
        for fld in ("Q_AREA", "K_AREA"):
            for e in [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == fld]:
                n += 1
                W = e.loc.a[0]

                def cases():
                    for T, dt in ((1200, 120), (1300, 120), (600, 600), (1000, 300)):
                        def go(T=T, dt=dt):
                            w = Obj(TMAX=F(T), EULAR_DT=F(dt))
                            m = LModel({}, [], {W: w, mk("p", "W"): w}, attrs=True, recs=r.ev.looprec, listeq=True)
                            d = m.ev(e.value)
                            if not isinstance(d, DD):
                                raise Undecided("not a table by area")
                            x = d["area"]
                            return x.shape == (T // dt,) and set(x.cells().values()) == {F(0)}
                        yield go, True, "%s s in periods of %s s" % (T, dt)
                agree(c, where(e), "%s %s" % (f.qual, fld), "one empty state per period", cases())
    c.floor(n, 8, "periods and tables of areas")


def area_makers():
    import ast
    out = []
    for pr, lang in ((proj("py"), "py"), (proj("wrap"), "wrap"), (P.py_mod("DTAsolvers/DTAsolvers_cpp_adapter.py"), "py")):
        for f in pr.allf:
            if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ("Q_AREA", "K_AREA") for t in x.targets) for x in ast.walk(f.node)):
                out.append((pr, lang, f))
    return out
