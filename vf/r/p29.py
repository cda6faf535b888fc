"""Vehicle logs: what one call of the recording function appends is compared with the reference on every case of vehicle
state, logging mode, leader and link change; the columns are written nowhere else; the C++ log arrays are handed over
column by column."""
import itertools
import re
from fractions import Fraction as F
from .common import *
from ..setmodel import Model, Undecided, Raises, X
from .. import binds
from .p28 import term_of, params

COLS = ("log_t", "log_state", "log_link", "log_x", "log_s", "log_v", "log_lane")
CCOLS = ("log_link", "log_x", "log_v", "log_lane", "log_s")
HERR = (Undecided, KeyError, TypeError, ValueError, AttributeError)


def pvals(r, m):
    """[(event, evaluated arguments)] of the events that happen in the model, in order"""
    out = []
    for e in r.events:
        if e.loops or e.kind not in ("mut", "set"):
            continue
        if all(m.truth(m.ev(g)) for g in e.g):
            out.append(e)
    return out


def eq(a, b):
    if a is None or b is None or isinstance(a, dict) or isinstance(b, dict):
        return a is b
    return a == b


@rule("P29", "R1", "one recording appends one entry to every column: time, state, link, position, spacing, speed and lane of this step")
def r1(c):
    r = R(c, "py", "Vehicle.record_log")
    A, B = {"name": "a"}, {"name": "b"}
    bad, und, n = None, None, 0
    for state, iv, T, enf, lead, lk, old in itertools.product(("home", "wait", "run", "end", "abort"), (1, 3, 5, -1), (6, 7), (0, 1), (None, "same", "other"), (A, None), (A, B, None)):
        if state == "run" and lk is None:
            continue
        if state != "run" and (lead is not None or lk is not None):
            continue
        ld = None if lead is None else {"x": F(90), "link": A if lead == "same" else B, "length": F(3)}
        me = {"state": state, "link": lk, "x": F(40), "v": F(13), "lane": F(2), "leader": ld, "link_old": old, "x_old": F(31), "x_next": F(55), "v_old": F(9), "name": "v", "id": F(77), "follower": None, "departure_time": F(5), "arrival_time": F(-1), "travel_time": F(-1), "log_t": [], "log_state": [], "log_link": [], "log_t_link": []}
        bools = {mk("p", "self"): me, mk("p", "s"): me}
        for x in list(V_.walk(r.r.ret)) if r.r.ret is not None else []:
            pass
        W = mk("p", "W")
        bools[W] = {"DELTAT": F(5), "T": F(T), "TIME": F(T * 5), "vehicle_logging_timestep_interval": F(iv), "DELTAN": F(2), "TSIZE": F(1000), "analyzer": {"average_speed_count": F(4), "average_speed": F(8)}}
        ps = [p for p in params(r) if p not in ("self", "s")]
        if ps:
            bools[mk("p", ps[0])] = F(enf)
        m = Model({}, [], bools, attrs=True)
        try:
            evs = pvals(r, m)
            got = {}
            for e in evs:
                if e.kind == "mut" and e.name == "append" and field_of(root(e.loc)) in COLS + ("log_t_link",):
                    got.setdefault(field_of(root(e.loc)), []).append(m.ev(e.args[0]))
            rec = iv != -1 and (iv == 1 or T % iv == 0 or enf)
            run_ = state == "run"
            want = {"log_t": F(T * 5), "log_state": state, "log_link": lk if run_ else F(-1), "log_x": F(40) if run_ else F(-1), "log_v": F(13) if run_ else F(-1), "log_lane": F(2) if run_ else F(-1), "log_s": F(50) if run_ and lead == "same" else F(-1)}
            n += 1
            desc = "state %s, logging interval %s, step %s%s%s" % (state, iv, T, ", final record" if enf else "", ", leader on %s link" % lead if lead else "")
            for col in COLS:
                g = got.get(col, [])
                if len(g) != (1 if rec else 0):
                    bad = bad or "%s gets %d entries instead of %d for %s" % (col, len(g), 1 if rec else 0, desc)
                elif rec and not eq(g[0], want[col]):
                    bad = bad or "%s records %s instead of %s for %s" % (col, show(g[0]), show(want[col]), desc)
            ent = got.get("log_t_link", [])
            ch = lk is not old
            wl = [[F(T * 5), lk]] if ch and run_ else ([[F(T * 5), "end"]] if ch and state == "end" else [])
            if len(ent) != len(wl) or any(not (len(a) == 2 and eq(a[0], b[0]) and eq(a[1], b[1])) for a, b in zip(ent, wl)):
                bad = bad or "log_t_link gets %s instead of %s for %s with the link %s" % ([show(y) for x in ent for y in x], [show(y) for x in wl for y in x], desc, "changed" if ch else "unchanged")
            last = [e for e in evs if e.kind == "set" and field_of(e.loc) == "link_old" and e.loc.kind == "a"]
            now = m.ev(last[-1].value) if last else old
            if now is not lk:
                bad = bad or "the last recorded link is not updated for %s" % desc
        except Raises as ex:
            bad = bad or "fails (%s) for state %s" % (ex, state)
        except HERR as ex:
            und = ex
    c.floor(n, 50, "cases")
    c.ob(False if bad else (None if und else True), head(r), "record_log appends one entry of this step to every column" + (": " + bad if bad else " (undecided: %s)" % und if und else ""), key="py|record")


def show(x):
    return "link %s" % x["name"] if isinstance(x, dict) and "name" in x else str(x)


@rule("P29", "R2", "C++: one recording appends one entry to every column and counts it")
def r2(c):
    r = R(c, "cpp", "Vehicle.log_data")
    S = {"home": "vsHOME", "wait": "vsWAIT", "run": "vsRUN", "end": "vsEND", "abort": "vsABORT"}
    bad, und, n = None, None, 0
    lk = {"id": F(3), "vmax": F(20), "length": F(500), "name": "a"}
    ps = [p for p in params(r) if p not in ("self", "this")]
    for st, mode, lead, size in itertools.product(S, (0, 1), (None, "lower", "lower-ended", "higher"), (0, 5)):
        if st != "run" and lead:
            continue
        ld = None if lead is None else {"id": F(1) if lead.startswith("lower") else F(9), "state": S["end"] if lead.endswith("ended") else S["run"], "x": F(90), "x_old": F(70)}
        me = {"state": S[st], "link": lk if st == "run" else None, "id": F(4), "x": F(40), "v": F(13), "lane": F(2), "leader": ld, "x_old": F(31), "x_next": F(55), "log_size": F(size), "log_first_ts": F(2), "log_last_ts": F(6), "log_wait_count": F(1), "log_end_count": F(0), "orig": {"id": F(0)}, "name": "v"}
        bools = {mk("p", "self"): me, mk("p", "W"): {"timestep": F(7), "delta_t": F(5), "vehicle_log_mode": F(mode), "time": F(35), "delta_n": F(2)}}
        if ps:
            bools[mk("p", ps[0])] = ld
        m = Model({}, [], bools, attrs=True)
        try:
            evs = []
            for e in r.events:
                f = field_of(root(e.loc)) if e.kind in ("mut", "set") else None
                if f and f.startswith("log_") and all(m.truth(m.ev(g)) for g in e.g):
                    evs.append(e)
            got = {}
            for e in evs:
                if e.kind == "mut":
                    if e.name not in ("append", "push_back"):
                        bad = bad or "%s of %s" % (e.name, field_of(root(e.loc)))
                        continue
                    got.setdefault(field_of(root(e.loc)), []).append(m.ev(e.args[0]))
            run_ = st == "run"
            sp = F(-1) if not run_ or lead is None or lead == "lower-ended" else (F(50) if lead == "lower" else F(30))
            want = {"log_link": F(3) if run_ else F(-1), "log_x": F(40) if run_ else F(-1), "log_v": F(13) if run_ else F(-1), "log_lane": F(2) if run_ else F(-1), "log_s": sp}
            n += 1
            desc = "state %s, logging %s%s" % (st, "on" if mode else "off", ", leader with %s index" % lead if lead else "")
            for col in CCOLS:
                g = got.get(col, [])
                if len(g) != mode:
                    bad = bad or "%s gets %d entries instead of %d for %s" % (col, len(g), mode, desc)
                elif mode and not eq(g[0], want[col]):
                    bad = bad or "%s records %s instead of %s for %s" % (col, g[0], want[col], desc)
            fin = {"log_size": F(size + mode), "log_last_ts": F(7) if mode else F(6), "log_first_ts": F(7) if mode and size == 0 else F(2), "log_wait_count": F(1 + (1 if mode and st == "wait" else 0)), "log_end_count": F(1 if mode and st in ("end", "abort") else 0)}
            for f, w in fin.items():
                g = me[f]
                for e in evs:
                    if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == f:
                        g = m.ev(e.value)
                if g != w:
                    bad = bad or "%s becomes %s instead of %s for %s" % (f, g, w, desc)
        except Raises as ex:
            bad = bad or "fails (%s) for state %s" % (ex, st)
        except HERR as ex:
            und = ex
    c.floor(n, 10, "cases")
    c.ob(False if bad else (None if und else True), head(r), "log_data appends one entry of this step to every column" + (": " + bad if bad else " (undecided: %s)" % und if und else ""), key="cpp|record")
    # entries read back
    for q, what in (("Vehicle.log_t_at", "time"), ("Vehicle.log_state_at", "state")):
        a = R(c, "cpp", q)
        bad = und = None
        n = 0
        ps = [p for p in params(a) if p not in ("self", "this")]
        for first, waits, runs, ends in itertools.product((0, 3), (0, 1, 3), (0, 2, 4), (0, 1)):
            if ends and not runs:
                continue
            for end in ((S["end"], S["abort"]) if ends else (None,)):
                seq = ["home"] + ["wait"] * waits + ["run"] * runs
                size = len(seq) + ends
                for i in range(size):
                    last = first + len(seq) - 1
                    cur = end if ends else S[seq[-1]]
                    me = {"state": cur, "log_size": F(size), "log_first_ts": F(first), "log_last_ts": F(last), "log_wait_count": F(waits), "log_end_count": F(ends)}
                    m = Model({}, [], {mk("p", "self"): me, mk("p", "W"): {"delta_t": F(5)}, mk("p", ps[0]): F(i)}, attrs=True)
                    want = (F(5) * (first + i if i < len(seq) else last)) if what == "time" else (S[seq[i]] if i < len(seq) else end)
                    try:
                        n += 1
                        g = m.ev(a.r.ret)
                        if not eq(g, want):
                            bad = bad or "entry %d of a log of %s%s gives %s instead of %s" % (i, "/".join(seq), "/end" if ends else "", g, want)
                    except Raises as ex:
                        bad = bad or str(ex)
                    except HERR as ex:
                        und = ex
        c.floor(n, 50, "cases")
        c.ob(False if bad else (None if und else True), head(a), "%s reads back the recorded %s" % (q, what) + (": " + bad if bad else " (undecided: %s)" % und if und else ""), key="cpp|%s" % q)


def recorder(lang):
    return "record_log" if lang == "py" else "log_data"


@rule("P29", "R3", "vehicles are recorded once per update and once at the trip end, after their final state is known")
def r3(c):
    for lang in LANGS:
        u = R(c, lang, "Vehicle.update")
        rec = [e for e in u.calls("record_log", "log_data")]
        ok = len(rec) == 1 and not rec[0].g and not rec[0].loops
        c.ob(ok, where(rec[0]) if rec else head(u), "every update of a vehicle records it exactly once" + ("" if ok else " (%d calls, under %s)" % (len(rec), [V_.show(g)[:80] for e in rec for g in e.g])), key="%s|update" % u.qual)
        if ok:
            i = u.events.index(rec[0])
            bad = [e for e in u.events[:i] if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] in ("state", "x", "v", "link", "lane") and same_obj(e.loc.a[0], u)]
            c.ob(not bad, where(bad[0]) if bad else where(rec[0]), "the entry of a step describes the vehicle at the begin of its update" + ("" if not bad else ", but %s changes before" % V_.show(bad[0].loc)), key="%s|first" % u.qual)
        t = R(c, lang, "Vehicle.end_trip")
        rec = [e for e in t.calls("record_log", "log_data")]
        ok = len(rec) == 1 and not rec[0].g
        c.ob(ok, where(rec[0]) if rec else head(t), "the end of a trip is recorded exactly once" + ("" if ok else " (%d calls)" % len(rec)), key="%s|end" % t.qual)
        if ok:
            i = t.events.index(rec[0])
            bad = [e for e in t.events[i:] if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] in ("state", "link") and same_obj(e.loc.a[0], t)]
            done = [e for e in t.events[:i] if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "link"]
            c.ob(not bad and bool(done), where(bad[0]) if bad else where(rec[0]), "the final entry is recorded when the final state is set" + ("" if not bad and done else " (state or link change later)"), key="%s|final" % t.qual)
            if lang == "py":
                p = [x for x in t.events if x is rec[0]][0]
                args = list(p.args) + [v for _, v in (p.kw or ())] if hasattr(p, "kw") else list(p.args)
                src = ast_call(t, "record_log")
                ok2 = src is not None and src
                c.ob(ok2, where(rec[0]), "the final entry is recorded regardless of the logging interval", key="%s|enforced" % t.qual)


def same_obj(v, r):
    return v.kind == "p" and v.a[0] in ("self", "s", "this")


def ast_call(r, name):
    """does the call of name in the function pass a true argument?"""
    for st in stmts_walk(r.func.body):
        for e in stmt_exprs(st):
            for x in expr_walk(e):
                if isinstance(x, tuple) and x and x[0] in ("call", "mcall") and name in str(x[1:3]):
                    consts = [y for y in flat(x) if isinstance(y, tuple) and len(y) == 2 and y[0] == "const"]
                    return any(bool(y[1]) for y in consts)
    return None


def flat(x):
    yield x
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)


@rule("P29", "R4", "log columns are written only by the recording function")
def r4(c):
    for lang, cols in (("py", COLS + ("log_t_link",)), ("cpp", CCOLS + ("log_size", "log_first_ts", "log_last_ts", "log_wait_count", "log_end_count"))):
        pr = proj(lang)
        n = 0
        for fld in cols:
            for f, e in writers(lang, "Vehicle", fld, pr):
                ini = f.name in ("__init__", "Vehicle")
                rec = f.name == recorder(lang)
                n += 1
                b = base_of(root(e.loc))
                if (e.kind == "mut" and e.name == "reserve") or isinstance(b, V) and b.kind in ("new", "call", "undef"):
                    continue
                ok = rec or ini
                c.ob(ok, where(e), "%s is written by the recording function only" % fld + ("" if ok else ", found in %s" % norm_q(f.qual)), key="%s|%s|%s" % (lang, fld, norm_q(f.qual)))
        c.floor(n, len(cols), "writes of log columns (%s)" % lang)
    # the analyzer and the tools read the columns only
    pr = proj("py")
    r = R(c, "py", "Vehicle.__init__")
    for col in COLS:
        v = r.heap("s.%s" % col) if hasattr(r, "heap") else None
        ok = v is not None and (v.kind == "list" and not v.a[0])
        c.ob(True if ok else (None if v is None or v.kind not in ("list", "dict", "c") else False), head(r), "column %s starts empty" % col, key="init|%s" % col)
    v = r.heap("s.log_t_link")
    ok = V_.show(v).startswith("list((list((") and "home" in V_.show(v) and V_.show(v).count("list(") == 2
    c.ob(True if ok else None if v.kind != "list" else False, head(r), "the link sequence starts with the departure from home" + ("" if ok else ", found %s" % V_.show(v)[:120]), key="init|log_t_link")


def same_index(a, b):
    return a is b or V_.show(a) == V_.show(b)


@rule("P29", "R5", "the log arrays handed to Python hold every entry of every vehicle at its place, column by column")
def r5(c):
    r = R(c, "cpp", "World.build_all_vehicle_logs_flat_compact")
    n = 0
    wr = {}
    for e in r.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loops:
            f = container_name(e.loc.a[0])
            if f:
                wr.setdefault(f, []).append(e)
    want = {"log_t": "log_t_at", "log_state": "log_state_at", "log_x": "log_x", "log_v": "log_v", "log_s": "log_s", "log_lane": "log_lane", "log_link": "log_link"}
    bases = set()
    for col, src in want.items():
        es = wr.get(col, [])
        n += len(es)
        if not es:
            # not even handed to another function
            used = [e for e in r.events if e.kind in ("set", "mut", "call") and not (e.kind == "mut" and e.name in ("resize", "reserve", "assign", "clear")) and any(isinstance(x, V_.V) and re.search(r"\)\.%s\b" % col, V_.show(x)) for x in [e.loc, e.value] + list(e.args or []))]
            c.ob(False if wr and not used else None, head(r), "column %s is filled" % col, key="fill|%s" % col)
            continue
        for e in es:
            s = V_.show(e.value)
            others = [o for o in set(want.values()) if o != src and re.search(r"\b%s\b[\[(]" % o, s) and o not in ("log_state_at",)]
            ok = re.search(r"\b%s\b[\[(]" % src, s) is not None and not others and not e.g
            if not ok and e.g and len(es) > 1:
                if not others and re.search(r"\b%s\b[\[(]" % src, s) is not None:
                    # the other case has its own entry
                    ok = None
                elif V_.num(e.value) is not None and any(re.search(r"\b%s\b[\[(]" % src, V_.show(x.value)) for x in es if x is not e):
                    continue
            if ok and e.value.kind == "ite":
                own_ = [x for x in V_.walk(e.value) if x.kind == "i" and re.search(r"\.%s$" % src, V_.show(x.a[0]))]
                if any(y is x for x in own_ for y in V_.walk(e.value.a[0])):
                    ok = False     # an entry is replaced because of its own value
            c.ob(ok, where(e), "column %s takes the entries of %s" % (col, src) + ("" if ok else ", found %s" % s[:120]), key="fill|%s" % col)
            # every entry read and the place written advance together
            idx = e.loc.a[1]
            inner = []
            for x in V_.walk(idx):
                if x.kind == "elem" and x.a[0].kind == "range" and V_.show(x.a[0].a[1]).endswith("log_size") and x not in inner:
                    inner.append(x)
            other = [x for x in V_.walk(e.value) if x.kind == "elem" and x.a[0].kind == "range" and x not in inner and "vehicles" not in V_.show(x)]
            rest = [V_.sub(idx, x) for x in inner]
            okr = len(inner) == 1 and all(not any(y is inner[0] for y in V_.walk(b)) for b in rest)
            same_i = len(inner) == 1 and any(y is inner[0] for y in V_.walk(e.value)) and not other
            rd = [x for x in V_.walk(e.value) if x.kind == "i" and re.search(r"\.%s$" % src, V_.show(x.a[0]))]
            at = all(x.a[1] is inner[0] for x in rd) if inner else False
            full = len(inner) == 1 and V_.num(inner[0].a[0].a[0]) == 0
            c.ob(True if okr and same_i and full and at else False if inner and not (same_i and full and at) else None, where(e), "every entry of column %s is copied to its place" % col, key="place|%s" % col)
            for b in rest:
                bases.add(V_.show(b))
    c.floor(n, 5, "column copies")
    c.ob(len(bases) == 1, head(r), "all columns of a vehicle start at the same offset" + ("" if len(bases) == 1 else ": %s" % [b[:60] for b in bases]), key="base")
    # first entry missing: home entries up to the first recorded step
    nm = wr.get("n_missing", [])
    if nm:
        bad = und = None
        for size, first, st, ts, mode in itertools.product((0, 4), (0, 3), ("vsHOME", "vsRUN", "vsEND"), (6,), (0, 1)):
            if (size == 0) != (st == "vsHOME" or mode == 0):
                continue
            veh = {"log_size": F(size), "state": st, "log_first_ts": F(first)}
            cont = {}
            bools = {}
            for x in V_.walk(nm[-1].value):
                if x.kind == "elem" and V_.show(x) in ("elem(self.vehicles)", "elem(W.vehicles)"):
                    bools[x] = veh
            slf = {"delta_t": F(5), "timestep": F(ts), "vehicle_log_mode": F(mode), "time": F(ts * 5)}
            bools[mk("p", "self")] = slf
            bools[mk("p", "W")] = slf
            m = Model(cont, [], bools, attrs=True, methods={"log_t_at": lambda v, i: F(5) * (first + i)})
            w = F(first if size else (ts if mode and st == "vsHOME" else 0))
            try:
                g = m.ev(nm[-1].value)
                if g != w:
                    bad = bad or "%s home entries instead of %s for a vehicle %s with %d recorded entries from step %d at step %d" % (g, w, st[2:].lower(), size, first, ts)
            except Raises as ex:
                bad = bad or str(ex)
            except HERR as ex:
                und = ex
        c.ob(False if bad else (None if und else True), where(nm[-1]), "the home entries before the first recorded step are counted" + (": " + bad if bad else " (undecided %s)" % und if und else ""), key="missing")
    # the columns of the link sequence are written at the same place
    rr = R(c, "cpp", "World.build_all_vehicle_logs_flat_compact")
    col = {}
    for e in rr.events:
        if e.kind == "set" and e.loc.kind == "i" and e.loops and container_name(e.loc.a[0]) in ("ltl_t", "ltl_id"):
            col.setdefault((tuple(e.lids), tuple(e.g)), {}).setdefault(container_name(e.loc.a[0]), []).append(e)
    for k, d in col.items():
        a, b = d.get("ltl_t", []), d.get("ltl_id", [])
        if len(a) == len(b) == 1:
            ok = same(a[0].loc.a[1], b[0].loc.a[1])
            c.ob(ok, where(b[0]), "time and link of an entry are written at the same place" + ("" if ok else ": %s and %s" % (V_.show(a[0].loc.a[1])[-60:], V_.show(b[0].loc.a[1])[-60:])), key="place|%d" % b[0].line)
        else:
            c.ob(None, where((a + b)[0]), "time and link of an entry are written together", key="place|n")
    # link sequence: in each scan of the recorded links, the previous link and the counters move exactly at a new link
    for q in ("World.build_all_vehicle_logs_flat_compact", "World.build_enter_log_data"):
        rr = R(c, "cpp", q)
        k = 0
        for (lid, lv), (init, step, _br) in rr.ev.looprec.items():
            if V_.num(init) is None or lv.kind != "lv":
                continue
            lls = uniq(x for x in V_.walk(step) if x.kind == "i" and V_.show(x.a[0]).endswith(".log_link"))
            if len(lls) != 1 or any(x.kind in ("sum", "rec") for x in V_.walk(step)):
                continue
            k += 1
            prev, bad, und = scan(step, lls[0], lv)
            if prev is lv and V_.num(init) >= 0:
                bad = bad or "it starts as if link %s had been recorded" % V_.num(init)
            c.ob(False if bad else (None if und else True), head(rr), "%s: the scan of the links notices every new link" % q + (": " + bad if bad else " (undecided %s)" % und if und else ""), key="%s|scan|%s" % (q, "prev" if prev is lv else "count"))
        if not k:
            c.ob(None, head(rr), "%s: the scan of the links notices every new link" % q, key="%s|scan" % q)
        m = 0
        for e in rr.events:
            if not e.loops or e.kind not in ("mut", "set"):
                continue
            vals = [e.value] if e.kind == "set" else list(e.args)
            txt = " ".join(V_.show(v) for v in vals)
            f = container_name(e.loc.a[0]) if e.kind == "set" and e.loc.kind == "i" else None
            if e.kind == "mut" and e.name in ("append", "push_back", "emplace_back") and "log_link" in txt or f == "ltl_id" and "log_link" in txt:
                m += 1
                lls = uniq(x for v in list(e.g) + vals for x in V_.walk(v) if x.kind == "i" and V_.show(x.a[0]).endswith(".log_link"))
                if len(lls) != 1:
                    c.ob(None, where(e), "%s: a link is recorded when the vehicle is on it and was not on it before" % q, key="%s|enter" % q)
                    continue
                prev, bad, und = scan(None, lls[0], None, e.g)
                rec = [v for kk, v in rr.ev.looprec.items() if prev is not None and kk[1] is prev]
                if rec and V_.num(rec[0][0]) is not None and V_.num(rec[0][0]) >= 0:
                    bad = bad or "the previous link starts as link %s" % V_.num(rec[0][0])
                if rec and not bad:
                    _p, bad, und2 = scan(rec[0][1], lls[0], prev)
                    und = und or und2
                c.ob(False if bad else (None if und else True), where(e), "%s: a link is recorded when the vehicle is on it and was not on it before" % q + (": " + bad if bad else " (undecided %s)" % und if und else ""), key="%s|enter" % q)
        c.floor(m, 1, "recorded link entries in %s" % q)


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def scan(step, ll, lv, guards=()):
    """(previous link variable, error, undecided) of a scan over the recorded links: step is the next value of lv, or None
    for the condition under which an entry is recorded"""
    others = uniq(x for v in ([step] if step is not None else list(guards)) for x in V_.walk(v) if x.kind == "lv" and x is not lv)
    if len(others) > 1:
        others = [x for x in others if any(x in set(V_.walk(g)) and ll in set(V_.walk(g)) for v in ([step] if step is not None else list(guards)) for g in V_.walk(v) if g.kind == "eqz")]
    prev = others[0] if len(others) == 1 else (lv if not others else None)
    if prev is None:
        return None, None, "no previous link"
    try:
        for cur in (-1, 0, 1, 2):
            for p in (-999, -1, 0, 1, 2):
                if cur == p == -1:
                    continue
                bools = {ll: F(cur), prev: F(p)}
                if lv is not None and lv is not prev:
                    bools[lv] = F(7)
                m = Model({}, [], bools, attrs=True)
                new = cur >= 0 and cur != p
                d = "at link id %d after %d" % (cur, p)
                if step is None:
                    gs = [g for g in guards if ll in set(V_.walk(g)) or prev in set(V_.walk(g))]
                    if all(m.truth(m.ev(g)) for g in gs) != new:
                        return prev, "%s is %srecorded" % (d, "not " if new else ""), None
                elif lv is prev:
                    g = m.ev(step)
                    if (new and g != cur) or (not new and cur >= 0 and g != p):
                        return prev, "%s the previous link becomes %s" % (d, g), None
                elif m.ev(step) != (8 if new else 7):
                    return prev, "%s the count changes by %s" % (d, m.ev(step) - 7), None
    except Raises as ex:
        return prev, str(ex), None
    except HERR as ex:
        return prev, None, ex
    return prev, None, None


def container_name(v):
    """name of the array a write goes to (through resize)"""
    while v.kind in ("mutated", "upd", "stored"):
        v = v.a[0]
    return v.a[1] if v.kind == "a" else None


@rule("P29", "R6", "the Python side of the C++ mode returns the columns under their own names")
def r6(c):
    r = R(c, "wrap", "CppWorld._build_all_vehicle_log_caches")
    es = [e for e in r.events if e.kind == "set" and field_of(e.loc) == "_log_cache" and e.value.kind == "dict"]
    c.floor(len(es), 1, "log cache writes")
    for e in es:
        d = e.value.a[0]
        items = {}
        for it in d:
            k, v = (it[0], it[1]) if isinstance(it, tuple) else (it.a[0], it.a[1])
            items[k.a[0] if isinstance(k, V) and k.kind == "c" else k] = v
        want = {**{col: col for col in COLS}, "log_t_link_t": "ltl_t", "log_t_link_id": "ltl_id"}
        shapes = set()
        for k, src in want.items():
            if k not in items:
                c.ob(False, where(e), "column %s is handed over" % k, key="cache|%s" % k)
                continue
            s = V_.show(items[k])
            used = set(re.findall(r"\['(\w+)'\]", s)) - {"offsets", "ltl_offsets", "n_missing"}
            offs = set(re.findall(r"\['(\w*offsets)'\]", s))
            ok = used == {src}
            c.ob(ok, where(e), "column %s takes the data of %s" % (k, src) + ("" if ok else ", found %s" % sorted(used)), key="cache|%s" % k)
            wo = {"ltl_offsets"} if k.startswith("log_t_link") else {"offsets"}
            c.ob(offs == wo, where(e), "column %s uses the offsets of its kind" % k + ("" if offs == wo else ", found %s" % sorted(offs)), key="cacheoff|%s" % k)
            sl = [x for x in V_.walk(items[k]) if x.kind == "slice" or (x.kind == "call" and x.a[0] == "slice")]
            for x in sl:
                t = V_.show(x)
                okk = "None" not in t and t.count("offsets'][") == 2 and "1 + elem" in t
                c.ob(True if okk else None, where(e), "column %s is cut from the offset of the vehicle to that of the next one" % k, key="cut|%s" % k)
            if k in COLS:
                # home entries in front
                cat = [x for x in V_.walk(items[k]) if x.kind == "call" and x.a[0] == "np.concatenate"] + [x for x in V_.walk(items[k]) if x.kind == "concat"]
                okc = bool(cat)
                c.ob(okc, where(e), "the home entries before the first record are put in front of column %s" % k, key="home|%s" % k)
                if cat and cat[0].kind == "call":
                    parts = cat[0].a[1][0].a[0] if cat[0].a[1] and cat[0].a[1][0].kind in ("list", "tuple") else ()
                    if len(parts) == 2:
                        first = V_.show(parts[0])
                        front = "n_missing" in first and "n_missing" not in V_.show(parts[1])
                        val = {"log_t": "arange" in first and "DELTAT" in first, "log_state": "zeros" in first or ", 0" in first}.get(k, "-1" in first and "full" in first)
                        c.ob(front and val if "n_missing" in first else None if "n_missing" not in first + V_.show(parts[1]) else False, where(e), "the home entries of column %s come first and hold %s" % (k, {"log_t": "the times from zero", "log_state": "home"}.get(k, "-1")), key="homeval|%s" % k)
    for col in COLS:
        p = R(c, "wrap", "CppVehicle.%s" % col)
        s = V_.show(p.r.ret)
        keys = set(re.findall(r"'(_?log_\w+)'", s))
        ok = keys <= {col, "_%s_converted" % col} and col in keys
        c.ob(ok, head(p), "attribute %s returns column %s" % (col, col) + ("" if ok else ", found %s" % sorted(keys)), key="attr|%s" % col)
    p = R(c, "wrap", "CppVehicle.log_t_link")
    s = " ".join(V_.show(e.value) if e.kind == "set" else V_.show(e.args[0]) for e in p.events if e.kind in ("mut", "set") and (e.kind == "set" or e.args))
    c.ob("log_t_link_t" in s and "log_t_link_id" in s, head(p), "log_t_link pairs the times with the links", key="attr|log_t_link")
    # special ids agree with the engine
    import os
    hdr = open(os.path.join(P.REPO, "uxsim/trafficpp/traffi.h"), encoding="utf-8").read()
    ids = dict(re.findall(r"LOG_T_LINK_(HOME|END)\s*=\s*(-?\d+)", hdr))
    c.floor(len(ids), 2, "special link ids")
    seen = 0
    for e in p.events:
        if e.kind == "mut" and e.name == "append" and e.args and e.args[0].kind in ("list", "tuple") and len(e.args[0].a[0]) == 2:
            tag = e.args[0].a[0][1]
            if tag.kind == "c" and tag.a[0] in ("home", "end"):
                seen += 1
                k = int(ids[tag.a[0].upper()])
                lid = [x for g in e.g for x in V_.walk(g) if "log_t_link_id" in V_.show(x) and x.kind in ("call", "i", "mcall")]
                pos = lid and implied(list(e.g), V_.eq(lid[0], const(k)))
                anyp = any(implied(list(e.g), V_.eq(x, const(k))) for x in lid)
                c.ob(True if anyp else (False if lid else None), where(e), "entries with id %d mean %s" % (k, tag.a[0]), key="tag|%s" % tag.a[0])
    # state names in the order of the engine
    enum = re.search(r"enum\s+(?:class\s+)?\w*[sS]tate\w*[^{]*\{([^}]*)\}", hdr)
    mp = class_const("CppVehicle", "_LOG_STATE_MAP")
    if enum and mp:
        names = [x.split("=")[0].strip() for x in re.sub(r"//[^\n]*", "", enum.group(1)).split(",") if x.strip()]
        wantm = [{v: k for k, v in {"home": "vsHOME", "wait": "vsWAIT", "run": "vsRUN", "end": "vsEND", "abort": "vsABORT"}.items()}.get(x) for x in names]
        ok = list(mp)[:len(wantm)] == wantm[:len(mp)] and len(mp) >= 4
        c.ob(ok, "uxsim/uxsim_cpp_wrapper.py (CppVehicle)", "the state names of the log follow the order of the engine" + ("" if ok else ": %s instead of %s" % (list(mp), wantm)), key="statemap")
    # the binding passes every array under its own name
    b = binds.table().get("World", {}).get("build_all_vehicle_logs_flat_compact")
    if b is not None and b.getter:
        t = " ".join(b.getter)
        prs = re.findall(r'd \[ "(\w+)" \] = make_numpy_move \( std :: move \( \w+ \. (\w+) \) \)', t)
        c.floor(len(prs), 9, "arrays in the binding of the vehicle logs")
        for k, v in prs:
            c.ob(k == v, "uxsim/trafficpp/bindings.cpp:%s" % b.line, "array %s is passed under its name" % v + ("" if k == v else ", found %s" % k), key="bind|%s" % v)
    b = binds.table().get("World", {}).get("build_enter_log_data")
    if b is not None and b.getter:
        t = " ".join(b.getter)
        for nm in ("link_id", "time", "vehicle_index"):
            c.ob(True if '"%s"' % nm in t else None, "uxsim/trafficpp/bindings.cpp:%s" % b.line, "entry data %s is passed" % nm, key="bindenter|%s" % nm)


def class_const(cls, name):
    import ast
    import os
    t = ast.parse(open(os.path.join(P.REPO, "uxsim/uxsim_cpp_wrapper.py"), encoding="utf-8").read())
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for s in n.body:
                if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
                    try:
                        return ast.literal_eval(s.value)
                    except ValueError:
                        return None
    return None


@rule("P29", "R7", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P29"), 1, "properties of the elements of the C++ mode")


@rule("P29", "R8", "the tables of vehicle logs are, on models of logs, those of the records")
def live(c):
    from .. import stats
    c.floor(stats.check(c, "P29"), 2, "analyses and tables")
