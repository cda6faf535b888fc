from .common import *


@rule("P05", "R1", "vehicles join a link at its end and leave it at its front")
def r1(c):
    for lang in LANGS:
        n = 0
        pr = proj(lang)
        fld = "vehicles"
        for f, e in writers(lang, "Link", fld, pr):
            if e.kind == "mut":
                n += 1
                ok = e.name in ("append", "popleft")
                c.ob(ok, where(e), "the queue of a link is changed by appending at the end or removing at the front" + ("" if ok else ", found %s" % e.name), key="%s|%s" % (norm_q(f.qual), e.name if ok else "bad"))
            elif f.name not in ("__init__", "Link"):
                n += 1
                c.ob(False, where(e), "the queue of a link is overwritten or reordered", key="%s|set" % norm_q(f.qual))
        c.floor(n, 4, "queue operations (%s)" % lang)
        for f, e in writers(lang, "Node", "generation_queue", pr):
            if e.kind == "mut":
                ok = e.name in ("append", "popleft")
                c.ob(ok, where(e), "the waiting queue is changed by appending at the end or removing at the front" + ("" if ok else ", found %s" % e.name), key="gq|%s|%s" % (norm_q(f.qual), e.name if ok else "bad"))
            elif f.name not in ("__init__", "Node"):
                c.ob(False, where(e), "the waiting queue is overwritten or reordered", key="gq|%s|set" % norm_q(f.qual))


@rule("P05", "R2", "the vehicle leaving a link is the one at its front; departures take the first waiting vehicle")
def r2(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        for e, L, v in entries(r):
            hd = V_.eq(v, r.spec("v.link.vehicles[0]", v=v))
            ok = implied_by_origin(e.g, v, hd)
            c.ob(ok, where(e), "the transferred vehicle is at the front of its link" + ("" if ok else " (not guaranteed)"), key="%s|head" % r.qual)
        r = R(c, lang, "Node.generate")
        for e, L, v in entries(r):
            ok = same(v, r.spec("s.generation_queue[0]")) or implied(e.g, V_.eq(v, r.spec("s.generation_queue[0]")))
            c.ob(ok, where(e), "the departing vehicle is the first of the waiting queue" + ("" if ok else " (not guaranteed)"), key="%s|first" % r.qual)
        for nm in ("Vehicle.update", "Node.transfer"):
            t = R(c, lang, nm)
            from .p01 import head_of_queue
            for e in t.calls("end_trip"):
                ok = head_of_queue(t, e, e.recv)
                c.ob(ok, where(e), "trips end only at the front of the link" + ("" if ok else " (not guaranteed)"), key="%s|end|%s" % (t.qual, "loop" if e.loops else "flat"))
