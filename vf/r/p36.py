"""Output switches: what prints, shows or writes happens only with its switch on, and nothing else depends on a switch."""
import re
from fractions import Fraction as F
from .common import *
from ..setmodel import Model, Undecided, Raises
from .. import binds

HERR = (Undecided, Raises, KeyError, TypeError, ValueError, AttributeError)
SWITCH = ("print_mode", "save_mode", "show_mode", "show_progress", "show_progress_deltat_timestep", "show_progress_deltat", "print")
# switches of a world; "print" is the function chosen by print_mode
PRINTERS = ("print", "pprint", "builtins.print")


def funcs(lang):
    pr = proj(lang)
    for f in pr.allf:
        if not pr.has(f.qual):
            continue
        yield f, run(lang, f.qual, project=pr)


def switch_terms(v, names):
    skip = set()
    for x in V_.walk(v):
        if x.kind == "call" and x.a[0] in ("tqdm", "_create_world", "create_world"):     # progress bar around an iterator; options of the engine
            skip.update(V_.walk(x))
    out = [x for x in V_.walk(v) if (x.kind == "a" and x.a[1] in names) or (x.kind == "p" and x.a[0] in names)]
    return [x for x in out if x not in skip] if skip else out


def off(gs, names):
    """some condition fails when the switch is off"""
    for g in gs:
        ts = switch_terms(g, names)
        if not ts:
            continue
        m = Model({}, [], {t: F(0) for t in ts}, attrs=True)
        try:
            if not m.truth(m.ev(g)):
                return True
        except HERR:
            continue
    return False


def mentions(gs, names):
    return any(switch_terms(g, names) for g in gs)


def requested(gs, r):
    """guarded by an argument with which the caller asks for this output"""
    ps = [p for p in (r.func.params if hasattr(r.func, "params") else ())]
    names = {p if isinstance(p, str) else p[0] for p in ps}
    for g in gs:
        for x in V_.walk(g):
            if x.kind == "p" and x.a[0] in names and re.search(r"print|verbose|show|tmp|stat", str(x.a[0])) and x.a[0] not in SWITCH:
                m = Model({}, [], {x: F(0)}, attrs=True)
                try:
                    if not m.truth(m.ev(g)):
                        return True
                except HERR:
                    continue
    return False


def own(r, f, e):
    return e.func == f.qual


@rule("P36", "R1", "nothing is printed with printing disabled")
def r1(c):
    n = 0
    for lang in ("py", "wrap"):
        explicit = {}
        for f, r in funcs(lang):
            if lang == "wrap" and "wrapper" not in str(f.file):
                continue
            for e in r.events:
                if e.kind != "call" or not own(r, f, e):
                    continue
                nm = e.name or ""
                if nm.rsplit(".", 1)[-1] in PRINTERS and e.recv is None:
                    n += 1
                    gated = any(x.kind == "call" and (x.name or "") == "print" and x.recv is not None for x in r.events)
                    if f.name.startswith("print") and not gated:
                        explicit.setdefault(f.name, f)
                        continue
                    ok = off(e.g, ("print_mode",)) or requested(e.g, r)
                    c.ob(ok, where(e), "%s prints with printing enabled only" % norm_q(f.qual) + ("" if ok else ": printed regardless of print_mode"), key="%s|%s|print" % (lang, norm_q(f.qual)))
                elif nm.endswith(("stdout.write", "stderr.write")):
                    ok = off(e.g, ("print_mode",))
                    c.ob(ok, where(e), "%s writes to the console with printing enabled only" % norm_q(f.qual), key="%s|%s|write" % (lang, norm_q(f.qual)))
                elif nm.rsplit(".", 1)[-1] in ("tqdm", "trange"):
                    n += 1
                    kw = dict(e.kw or ())
                    d = kw.get("disable")
                    ok = False
                    if d is not None:
                        ts = switch_terms(d, ("print_mode",))
                        try:
                            m = Model({}, [], {t: F(0) for t in ts}, attrs=True)
                            ok = bool(ts) and bool(m.truth(m.ev(d)))
                        except HERR:
                            ok = None
                    ok = ok or off(e.g, ("print_mode",))
                    c.ob(ok, where(e), "%s shows a progress bar with printing enabled only" % norm_q(f.qual) + ("" if ok else ": not disabled with print_mode off"), key="%s|%s|tqdm" % (lang, norm_q(f.qual)))
        # functions that print by themselves: called inside the library only with printing enabled
        k = 0
        for f, r in funcs(lang):
            for e in r.events:
                if e.kind == "call" and own(r, f, e):
                    nm = (e.name or "").rsplit(".", 1)[-1]
                    if nm in explicit and nm not in PRINTERS and e.recv is not None or nm == "print_scenario_stats":
                        k += 1
                        ok = off(e.g, ("print_mode",)) or requested(e.g, r) or f.name.startswith("print")
                        c.ob(ok, where(e), "%s calls %s with printing enabled only" % (norm_q(f.qual), nm), key="%s|%s|%s" % (lang, norm_q(f.qual), nm))
    c.floor(n, 10, "print calls and progress bars")


@rule("P36", "R2", "the print function and the engine follow the print switch, also after a change")
def r2(c):
    n = 0
    for lang in ("py", "wrap"):
        for f, r in funcs(lang):
            if lang == "wrap" and "wrapper" not in str(f.file):
                continue
            pm = [e for e in r.events if e.kind == "set" and own(r, f, e) and e.loc.kind == "a" and e.loc.a[1] == "print_mode" and base_of(e.loc).kind == "p" and base_of(e.loc).a[0] in ("self", "W", "s")]
            pf = [e for e in r.events if e.kind == "set" and own(r, f, e) and e.loc.kind == "a" and e.loc.a[1] == "print" and base_of(e.loc).kind == "p"]
            if not pm and not pf:
                continue
            n += 1
            ok = bool(pm) and bool(pf)
            c.ob(ok, where((pm + pf)[0]), "%s sets the print switch and the print function together" % norm_q(f.qual), key="%s|%s|both" % (lang, norm_q(f.qual)))
            if not ok:
                continue
            sw = pm[-1].value
            for on in (0, 1):
                m = Model({}, [], {x: F(on) for x in V_.walk(sw) if x.kind == "p"}, attrs=True)
                got = None
                try:
                    for e in pf:
                        gs = [g for g in e.g if any(x in set(V_.walk(sw)) for x in V_.walk(g))]
                        if all(m.truth(m.ev(g)) for g in gs):
                            v = e.value
                            while v.kind == "ite":
                                v = v.a[1] if m.truth(m.ev(v.a[0])) else v.a[2]
                            got = v
                except HERR as ex:
                    c.ob(None, where(pf[0]), "print function for print_mode %d (%s)" % (on, ex), key="%s|%s|%d" % (lang, norm_q(f.qual), on))
                    continue
                real = got is not None and (V_.show(got) == "print")
                silent = got is not None and not real and quiet(lang, got)
                good = real if on else silent
                c.ob(True if good else (False if real or silent or got is None else None), where(pf[-1]), "%s: with print_mode %s the print function %s" % (norm_q(f.qual), "on" if on else "off", "prints" if on else "does nothing") + ("" if good else ", found %s" % (V_.show(got)[:80] if got is not None else "none")), key="%s|%s|%d" % (lang, norm_q(f.qual), on))
            if lang == "wrap" and f.name != "__init__":
                ec = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == "print_mode" and "_cpp_world" in V_.show(e.loc.a[0])]
                good = bool(ec) and any(x in set(V_.walk(ec[-1].value)) for x in V_.walk(sw) if x.kind in ("p", "a"))
                c.ob(good, where(ec[-1]) if ec else head(r), "%s changes the switch of the engine as well" % norm_q(f.qual), key="%s|%s|engine" % (lang, norm_q(f.qual)))
    c.floor(n, 4, "functions that set the print switch")
    b = binds.table().get("World", {})
    for nm in ("print_mode", "show_progress", "show_progress_deltat_timestep"):
        x = b.get(nm)
        ok = x is not None and (x.target == nm and x.kind in ("def_rw", "def_readwrite") if x.target else (None if x.setter else False))
        c.ob(ok, "uxsim/trafficpp/bindings.cpp%s" % (":%s" % x.line if x is not None else ""), "the engine's switch %s can be set" % nm, key="bind|%s" % nm)
    # switches are taken over under their own names
    for lang, cls in (("py", "World.__init__"), ("wrap", "CppWorld.__init__")):
        r = R(c, lang, cls)
        for nm in ("print_mode", "save_mode", "show_mode", "show_progress"):
            es = [e for e in r.events if e.kind == "set" and e.loc.kind == "a" and e.loc.a[1] == nm]
            good = bool(es) and any(x.kind == "p" and x.a[0] == nm for x in V_.walk(es[-1].value)) and not [x for x in V_.walk(es[-1].value) if x.kind == "p" and x.a[0] in SWITCH and x.a[0] != nm]
            c.ob(good, where(es[-1]) if es else head(r), "%s takes the switch %s" % (cls, nm) + ("" if good else ", found %s" % [V_.show(e.value)[:60] for e in es]), key="%s|%s" % (cls, nm))
    for f, r in funcs("wrap"):
        for e in r.events:
            if e.kind == "set" and own(r, f, e) and e.loc.kind == "a" and e.loc.a[1] in SWITCH and "_cpp_world" in V_.show(e.loc.a[0]) and f.name != "change_print_mode":
                used = {x.a[1] for x in V_.walk(e.value) if x.kind == "a" and x.a[1] in SWITCH}
                c.ob(used == {e.loc.a[1]}, where(e), "the engine's %s is the one of the world" % e.loc.a[1] + ("" if used == {e.loc.a[1]} else ", found %s" % sorted(used)), key="engine|%s" % e.loc.a[1])


def quiet(lang, v):
    """a function that prints nothing"""
    if v.kind == "lam":
        return not any(x.kind == "call" and x.a[0] in PRINTERS for x in V_.walk(v))
    if v.kind == "func":
        q = str(v.a[0])
        pr = proj(lang)
        if pr.has(q):
            return not any(e.kind == "call" and (e.name or "") in PRINTERS for e in run(lang, q, project=pr).events)
        return True
    return False


def fig_name(e):
    return (e.name or "").rsplit(".", 1)[-1]


def path_arg(e):
    v = e.args[0] if e.args else None
    kw = dict(e.kw or ())
    return v if v is not None else kw.get("fname") or kw.get("fp")


def asked_path(v):
    """the path (or its stem) is the caller's argument"""
    if v is None:
        return False
    if v.kind == "p":
        return True
    if v.kind == "ite":
        return asked_path(v.a[1]) or asked_path(v.a[2])
    if v.kind in ("call", "mcall"):
        args = v.a[1] if v.kind == "call" else v.a[2]
        return any(asked_path(x) for x in args if isinstance(x, V))
    if v.kind in ("concat", "poly", "fstr"):
        ps = [x for x in V_.walk(v) if x.kind == "p" and re.search(r"name|file|path", str(x.a[0]))]
        first = v.a[0][0] if v.kind in ("fstr", "concat") and v.a[0] else None
        return bool(ps) and (first is None or first in ps or (isinstance(first, V) and asked_path(first)))
    return False


def below_out(v):
    """every possible default path starts with out<name of the world>"""
    fs = [x for x in V_.walk(v) if x.kind == "fstr"]
    if not fs:
        return None
    res = []
    for x in fs:
        parts = x.a[0]
        p0, p1 = parts[0], parts[1] if len(parts) > 1 else None
        s0 = p0.a[0] if isinstance(p0, V) and p0.kind == "c" else p0
        if any(isinstance(y, V) and any(z is x for z in V_.walk(y)) for w in fs if w is not x for y in w.a[0]):
            continue    # part of another string
        res.append(isinstance(s0, str) and s0 == "out" and isinstance(p1, V) and p1.kind == "a" and p1.a[1] == "name" or (isinstance(p0, V) and (asked_path(p0) or below_out(p0) is True)))
    return all(res) if res else None


@rule("P36", "R3", "figures are written with saving enabled and shown with showing enabled, files go to the output location")
def r3(c):
    ns = nh = 0
    for lang in ("py", "wrap"):
        for f, r in funcs(lang):
            if lang == "wrap" and "wrapper" not in str(f.file):
                continue
            for e in r.events:
                if e.kind != "call" or not own(r, f, e):
                    continue
                nm = fig_name(e)
                full = e.name or ""
                if nm == "savefig" or nm == "save" and e.args and e.recv is not None and not (f.cls and f.cls in ("World", "CppWorld")):
                    p = path_arg(e)
                    if p is not None and "BytesIO" in V_.show(p) or p is not None and p.kind == "new":
                        continue    # memory
                    ns += 1
                    ok = off(e.g, ("save_mode",)) or requested(e.g, r) or asked_path(p)
                    c.ob(ok, where(e), "%s writes its figure with saving enabled only" % norm_q(f.qual) + ("" if ok else ": written regardless of save_mode"), key="%s|%s|save" % (lang, norm_q(f.qual)))
                    wrong = [x for g in e.g for x in switch_terms(g, [s for s in SWITCH if s != "save_mode"])]
                    c.ob(not wrong, where(e), "%s: saving does not depend on another switch" % norm_q(f.qual) + ("" if not wrong else ", found %s" % V_.show(wrong[0])), key="%s|%s|save-only" % (lang, norm_q(f.qual)))
                    b = True if p is None else below_out(p)
                    c.ob(b if b is not None or not asked_path(p) else True, where(e), "%s writes below the output location of the world" % norm_q(f.qual), key="%s|%s|path" % (lang, norm_q(f.qual)))
                elif nm == "show" and ("pyplot" in full or "plt" in full or e.recv is not None and "fig" in V_.show(e.recv)):
                    nh += 1
                    ok = off(e.g, ("show_mode",))
                    c.ob(ok, where(e), "%s shows its figure with showing enabled only" % norm_q(f.qual) + ("" if ok else ": shown regardless of show_mode"), key="%s|%s|show" % (lang, norm_q(f.qual)))
                    wrong = [x for g in e.g for x in switch_terms(g, [s for s in SWITCH if s != "show_mode"])]
                    c.ob(not wrong, where(e), "%s: showing does not depend on another switch" % norm_q(f.qual) + ("" if not wrong else ", found %s" % V_.show(wrong[0])), key="%s|%s|show-only" % (lang, norm_q(f.qual)))
                elif nm in ("to_csv", "to_excel", "to_pickle", "makedirs", "mkdir") or nm == "open" and e.recv is None and len(e.args) > 1 and e.args[1].kind == "c" and set(str(e.args[1].a[0])) & set("wax+"):
                    p = path_arg(e)
                    if p is None:
                        continue
                    ap, bo = asked_path(p), below_out(p)
                    ok = True if ap and bo is not False else bo
                    if f.name == "outdir_set":
                        ok = True if any(x.kind == "p" for x in V_.walk(p)) else None
                    c.ob(ok, where(e), "%s writes to the output location or where the caller says" % norm_q(f.qual) + ("" if ok else ", found %s" % V_.show(p)[:100]), key="%s|%s|file" % (lang, norm_q(f.qual)))
    c.floor(ns, 8, "saved figures")
    c.floor(nh, 6, "shown figures")


def harmless(e):
    """writes that do not belong to the simulation state"""
    l = e.loc
    b = root(l)
    f = field_of(b)
    if f in SWITCH or f in ("sim_start_time", "writer"):
        return True
    x = b
    while isinstance(x, V) and x.kind in ("a", "i"):
        x = x.a[0]
    return not (isinstance(x, V) and x.kind in ("p", "elem", "lv", "rec"))


@rule("P36", "R4", "the simulation does not depend on output switches")
def r4(c):
    n = 0
    names = [s for s in SWITCH if s != "print"]
    for lang in ("py", "wrap", "cpp"):
        pr = proj(lang)
        bad = 0
        k = 0
        seen = set()
        for f in pr.allf:
            if not pr.has(f.qual) or lang == "wrap" and "wrapper" not in str(f.file):
                continue
            r = run(lang, f.qual, project=pr)
            for e in r.events:
                if not own(r, f, e) or e.kind not in ("set", "mut", "return", "raise", "call"):
                    continue
                if e.kind in ("set", "mut"):
                    if harmless(e):
                        continue
                    k += 1
                    ts = [x for g in e.g for x in switch_terms(g, names)]
                    vs = [x for v in ([e.value] if e.value is not None else list(e.args or ())) for x in switch_terms(v, names)]
                    if f.name.startswith("change_") or f.name == "__init__" and all(t.kind == "p" for t in ts):
                        ts = []
                    for t in ts[:1]:
                        bad += 1
                        c.ob(False, where(e), "%s is written depending on the switch %s in %s" % (V_.show(e.loc)[:60], t.a[1] if t.kind == "a" else t.a[0], norm_q(f.qual)), key="%s|%s|%s" % (lang, norm_q(f.qual), field_of(root(e.loc))))
                    if vs and not (f.name == "__init__"):
                        bad += 1
                        c.ob(False, where(e), "the value of %s depends on the switch %s in %s" % (V_.show(e.loc)[:60], V_.show(vs[0])[:40], norm_q(f.qual)), key="%s|%s|%s|value" % (lang, norm_q(f.qual), field_of(root(e.loc))))
                elif e.kind == "call":
                    mixed = [a for a in list(e.args or ()) + [b for _, b in (e.kw or ()) if isinstance(b, V)] for x in V_.walk(a) if x.kind == "ite" and any(switch_terms(x.a[0], names)) and not any(switch_terms(y, names) for y in x.a[1:])]
                    if mixed and (pr.has(e.name or "") or (e.name or "") in ("_create_world", "trafficppy.create_world")) and "print" not in (e.name or ""):
                        c.ob(False, where(e), "what %s is given depends on an output switch in %s: %s" % (e.name, norm_q(f.qual), V_.show(mixed[0])[:80]), key="%s|%s|%s|mixed" % (lang, norm_q(f.qual), e.name))
                    ts = [x for g in e.g for x in switch_terms(g, names)]
                    if not ts:
                        continue
                    n += 1
                    nm = (e.name or "")
                    last = nm.rsplit(".", 1)[-1]
                    q = nm if pr.has(nm) else None
                    if q is None and e.recv is not None:
                        cand = [g.qual for g in pr.allf if g.name == last]
                        q = cand[0] if len(cand) == 1 else None
                    rnd = last in ("random", "choice", "shuffle", "normal", "uniform", "integers", "randint", "random_choice") or any(isinstance(x, V) and any(y.kind in ("a", "p") and "rng" in str(y.a[-1]) for y in V_.walk(x)) for x in [e.recv] + list(e.args or ()))
                    if rnd:
                        c.ob(False, where(e), "random numbers are drawn depending on a switch in %s" % norm_q(f.qual), key="%s|%s|rng" % (lang, norm_q(f.qual)))
                    if q is not None and (lang, q) not in seen and last not in ("__init__",):
                        seen.add((lang, q))
                        g = run(lang, q, project=pr, all=True)
                        w = [x for x in g.events if x.kind in ("set", "mut") and not harmless(x) and not cacheish(x) and not ("Analyzer" in q and V_.show(root(x.loc)).startswith("self."))]
                        d = [x for x in g.events if x.kind == "call" and "rng" in (V_.show(x.recv) if isinstance(x.recv, V) else "")]
                        c.ob(not w and not d, where(e), "%s, called depending on an output switch, leaves the simulation alone" % norm_q(q) + ("" if not w and not d else ", but writes %s" % V_.show((w or d)[0].loc if w else d[0].recv)[:60]), key="%s|%s|callee" % (lang, norm_q(q)))
                elif e.kind in ("return", "raise") and lang != "cpp":
                    ts = [x for g in e.g for x in switch_terms(g, names)]
                    if ts and e.kind == "raise":
                        c.ob(False, where(e), "%s raises depending on a switch" % norm_q(f.qual), key="%s|%s|raise" % (lang, norm_q(f.qual)))
        n += k
        if not bad:
            c.ob(True, {"py": "uxsim/uxsim.py", "wrap": "uxsim/uxsim_cpp_wrapper.py", "cpp": "uxsim/trafficpp/traffi.cpp"}[lang], "no write of the simulation depends on an output switch (%d writes)" % k, key="%s|writes" % lang)
    c.floor(n, 100, "writes and calls")
    # the arguments of print calls draw no random numbers
    for lang in ("py", "wrap"):
        for f, r in funcs(lang):
            for e in r.events:
                if e.kind == "call" and (e.name or "").rsplit(".", 1)[-1] == "print" and own(r, f, e):
                    if any(x.kind in ("mcall", "call") and "rng" in V_.show(x)[:40] for a in e.args for x in V_.walk(a)):
                        c.ob(False, where(e), "%s draws random numbers for printing" % norm_q(f.qual), key="%s|%s|printrng" % (lang, norm_q(f.qual)))


def cacheish(e):
    f = field_of(root(e.loc))
    return f is not None and (f.startswith("_cached") or f.startswith("flag_"))


@rule("P36", "R5", "no progress interval makes a run fail")
def r5(c):
    n = 0
    for lang, q, init in (("py", "World.exec_simulation", "World.__init__"), ("cpp", "World.main_loop", None)):
        r = R(c, lang, q)
        ts = []
        for e in r.events:
            for g in e.g:
                for x in V_.walk(g):
                    if x.kind == "mod" and switch_terms(x.a[1], ("show_progress_deltat_timestep", "show_progress_deltat")) and (e, g) not in ts:
                        ts.append((e, g))
        if not ts:
            continue
        lows = []
        if init:
            ri = R(c, lang, init)
            for s in ri.events:
                if s.kind == "set" and s.loc.kind == "a" and s.loc.a[1] == "show_progress_deltat_timestep":
                    for d in (F(1, 2), F(4), F(5), F(600)):
                        bools = {x: F(5) for x in V_.walk(s.value) if x.kind in ("p", "a")}
                        bools.update({x: d for x in V_.walk(s.value) if x.kind == "p" and x.a[0] == "show_progress_deltat"})
                        try:
                            lows.append(Model({}, [], bools, attrs=True).ev(s.value))
                        except HERR:
                            lows.append(None)
        never0 = bool(lows) and all(v is not None and v > 0 for v in lows)
        for e, g in ts[:1]:
            n += 1
            prot = any(x is not g and V_.show(x).count("show_progress_deltat_timestep") and x.kind in ("lt", "not", "truthy") or (x.kind == "and" and any(y.kind in ("lt", "truthy") and "show_progress_deltat_timestep" in V_.show(y) for y in x.a[0])) for x in e.g)
            ok = never0 or prot
            c.ob(ok if ok or lows and None not in lows or not init else None, where(e), "%s: the progress interval is at least one step or checked" % q + ("" if ok else ", found %s" % lows), key="%s|interval" % q)
    if not n:
        c.ob(None, "uxsim/uxsim.py", "progress interval", key="interval")


@rule("P36", "R6", "the C++ engine prints with printing enabled only")
def r6(c):
    pr = proj("cpp")
    n = 0
    noisy = {}
    raised = set()
    for f in pr.allf:
        if not pr.has(f.qual):
            continue
        r = run("cpp", f.qual, project=pr)
        es = [e for e in r.events if e.kind == "call" and own(r, f, e) and e.name == "@stream" and e.args and stream_root(e)]
        es += [e for e in r.events if e.kind == "call" and own(r, f, e) and (e.name or "") in ("printf", "puts", "std::printf", "std::puts", "fprintf")]
        for e in es:
            n += 1
            if off1(e.g):
                c.ob(True, where(e), "%s prints with printing enabled only" % norm_q(f.qual), key="%s|print" % norm_q(f.qual))
                continue
            err = any(x.kind == "raise" and all(g in e.g for g in x.g) for x in r.events)
            if err:
                continue    # message of an error that is raised
            noisy[f.name] = f
            ok = f.name.startswith("print")
            c.ob(ok, where(e), "%s prints with printing enabled only" % norm_q(f.qual) + ("" if ok else ": printed regardless of print_mode"), key="%s|print" % norm_q(f.qual))
    k = 0
    for f in pr.allf:
        if not pr.has(f.qual) or f.name in noisy:
            continue
        r = run("cpp", f.qual, project=pr)
        for e in r.events:
            if e.kind == "call" and own(r, f, e) and (e.name or "").rsplit(".", 1)[-1].rsplit("::", 1)[-1] in noisy:
                k += 1
                ok = off1(e.g)
                c.ob(ok, where(e), "%s calls %s with printing enabled only" % (norm_q(f.qual), norm_q(e.name)) + ("" if ok else ": called regardless of print_mode"), key="%s|%s" % (norm_q(f.qual), norm_q(e.name)))
    c.floor(n, 3, "prints of the engine")


def off1(gs):
    return off(gs, ("print_mode",))


def stream_root(e):
    """is it a stream that goes to the console?"""
    x = e.recv if isinstance(e.recv, V) else e.args[0]
    for _ in range(200):
        if x.kind == "call" and x.a[0] == "@stream" and x.a[1]:
            x = x.a[1][0]
        elif x.kind == "mcall" and x.a[1] == "@stream":
            x = x.a[0]
        else:
            break
    s = V_.show(x)
    return s.endswith("writer") or s in ("cout", "std::cout", "cerr", "std::cerr")
