"""P26: analysis results are up to date (caches, accumulators and their invalidation)."""
import ast
from .common import *
from .. import pyraw, pyeff
from .p22 import shown
from . import p25

MAIN, ANA, WRAP = "uxsim/uxsim.py", "uxsim/analyzer.py", "uxsim/uxsim_cpp_wrapper.py"


def selfname(f):
    a = f.node.args
    return (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args else None


def own_attr(n, f):
    """self.X, also through s.W.analyzer.X"""
    if not isinstance(n, ast.Attribute):
        return None
    v = n.value
    s = selfname(f)
    if isinstance(v, ast.Name) and v.id == s:
        return n.attr
    if isinstance(v, ast.Attribute) and v.attr == "analyzer":
        return n.attr
    return None


def simple(st, pred):
    """pred holds for a node executed whenever the statement st is executed"""
    if isinstance(st, (ast.If, ast.While)):
        return any(pred(x) for x in ast.walk(st.test))
    if isinstance(st, (ast.For,)):
        return any(pred(x) for x in ast.walk(st.iter))
    if isinstance(st, ast.With):
        return any(pred(x) for i in st.items for x in ast.walk(i)) or any(simple(b, pred) for b in st.body)
    if isinstance(st, ast.Try):
        return any(simple(b, pred) for b in st.body[:1])
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return False
    for x in ast.walk(st):
        if isinstance(x, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        if pred(x):
            p = x._parent
            ok = True
            while p is not st and p is not None:
                if isinstance(p, (ast.IfExp, ast.Lambda)) or isinstance(p, ast.BoolOp):
                    ok = False
                p = p._parent
            if ok:
                return True
    if isinstance(st, ast.If):
        return False
    return False


def both(st, pred):
    """as simple, or both branches of a conditional"""
    if simple(st, pred):
        return True
    if isinstance(st, ast.If) and st.orelse:
        return any(both(x, pred) for x in st.body) and any(both(x, pred) for x in st.orelse)
    return False


def always_before(top, node, pred):
    """on every path from the start of the function to node a statement with pred has been executed"""
    n = node
    while n is not top and n is not None:
        p = n._parent
        for fld in ("body", "orelse", "finalbody", "handlers"):
            blk = getattr(p, fld, None)
            if isinstance(blk, list) and any(x is n for x in blk):
                for x in blk:
                    if x is n:
                        break
                    if both(x, pred):
                        return True
        n = p
    return False


def is_call(n, names, f):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names and own_attr(n.func, f) is not None


def falsy(v):
    return isinstance(v, ast.Constant) and not v.value


def truthy(v):
    return isinstance(v, ast.Constant) and bool(v.value)


def methods():
    return [f for f in pyraw.mod(ANA).funcs if f.cls == "Analyzer" and f.qual.count(".") == 1]


def assigns(f, attr=None):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    a = own_attr(x, f)
                    if a and (attr is None or a == attr):
                        yield a, n
        elif isinstance(n, (ast.AnnAssign,)) and n.value is not None:
            a = own_attr(n.target, f)
            if a and (attr is None or a == attr):
                yield a, n


def flags():
    """attributes that stop a method from computing again: set to true in an analysis method that tests them"""
    out = {}
    va = validators()
    for f in methods():
        if f.node.name == "__init__" or f.node.name in va:
            continue
        set_ = {a for a, n in assigns(f)}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.IfExp)):
                for x in ast.walk(n.test):
                    a = own_attr(x, f)
                    if a and a in set_ and a != "W" and isinstance(x.ctx, ast.Load) and not isinstance(x._parent, ast.Subscript):
                        # the test decides whether the value is computed
                        st = [m for b, m in assigns(f, a)]
                        if any(truthy(m.value) for m in st) or any(within(m, n) for m in st) or exits(n):
                            if not any(m.lineno < n.lineno for m in st):
                                out.setdefault(a, []).append((f, n))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr",) and len(x.args) == 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value in set_:
                        out.setdefault(x.args[1].value, []).append((f, n))
    return out


def within(m, n):
    while m is not None:
        if m is n:
            return True
        m = getattr(m, "_parent", None)
    return False


def exits(n):
    return isinstance(n, ast.If) and any(isinstance(x, ast.Return) for x in n.body)


def progress_read(n):
    return isinstance(n, ast.Attribute) and n.attr in ("T", "TIME") and isinstance(n.ctx, ast.Load)


def validators():
    """methods that compare the progress of the simulation with the one remembered and discard results"""
    out = {}
    for f in methods():
        if not any(progress_read(x) for x in ast.walk(f.node)):
            continue
        res = {a for a, n in assigns(f) if falsy(n.value)}
        if res:
            out[f.node.name] = (f, res)
    return out


@rule("P26", "R1", "a result is only kept if the simulation has not been continued since")
def r1(c):
    fl = flags()
    va = validators()
    k = 0
    for a, uses in sorted(fl.items()):
        for f, n in uses:
            if f.node.name in va:
                continue
            k += 1
            good = {nm for nm, (g, res) in va.items() if a in res}
            ok = bool(good) and always_before(f.node, n, lambda x: is_call(x, good, f))
            if not ok:
                # the test itself compares the progress
                ok = any(progress_read(x) for x in ast.walk(n.test))
            c.ob(ok, f.where(n), "the result kept under %s in %s is %s" % (a, f.node.name, "discarded when the simulation was continued" if ok else "used again although the simulation may have been continued"), "%s|%s" % (a, f.node.name))
    # other ways of keeping results
    for f in methods():
        for d in f.node.decorator_list:
            t = shown(d)
            if "cache" in t:
                k += 1
                c.ob(False, f.where(), "%s keeps its result for good (%s)" % (f.node.name, t), "cache|" + f.node.name)
    c.floor(len(methods()), 25, "analysis methods")
    c.floor(len(va) + (0 if fl else 1), 1, "methods that discard outdated results")


@rule("P26", "R2", "outdated results are recognised by the progress of the simulation and discarded completely")
def r2(c):
    va = validators()
    c.floor(len(va), 1, "methods that discard outdated results")
    fl = flags()
    for nm, (f, res) in va.items():
        # what is compared
        tests = [n for n in ast.walk(f.node) if isinstance(n, ast.If)]
        keys = " ".join(shown(x) for x in ast.walk(f.node) if isinstance(x, ast.Attribute))
        txt = shown(f.node) if False else ast.unparse(f.node)
        hasT = any(progress_read(x) for x in ast.walk(f.node))
        hasV = any(isinstance(x, ast.Attribute) and x.attr.startswith("VEHICLES") for x in ast.walk(f.node))
        for x in ast.walk(f.node):
            if isinstance(x, ast.BinOp) and any(progress_read(y) for y in ast.walk(x)):
                c.ob(False, f.where(x), "the progress compared is not exact: %s" % shown(x), nm + ":exact")
        c.ob(hasT and hasV, f.where(), "the progress compared consists of the time%s" % (" and the number of vehicles" if hasV else " alone: vehicles added later go unnoticed"), nm + ":key")
        # the remembered progress is the one compared
        cmp_ = [x for t in tests for x in ast.walk(t.test) if isinstance(x, ast.Compare)]
        mem = {own_attr(y, f) for x in cmp_ for y in ast.walk(x) if own_attr(y, f)} - {"W"}
        stored = {a for a, n in assigns(f)}
        eq = [x for x in cmp_ if len(x.ops) == 1]
        ok = bool(mem & stored)
        c.ob(ok, f.where(), "the progress is %sremembered" % ("" if ok else "not "), nm + ":memory")
        for x in eq:
            if not ({own_attr(y, f) for y in ast.walk(x)} & mem):
                continue
            t = x._parent
            while not isinstance(t, ast.If):
                t = t._parent
            neg = isinstance(x.ops[0], ast.NotEq)
            rets = exits(t)
            ok = (isinstance(x.ops[0], ast.Eq) and rets and not any(within(m, t) for a, m in assigns(f))) or neg and not rets
            if not isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
                ok = False
            c.ob(ok, f.where(x), "results are %s" % ("kept only when the progress is the same" if ok else "kept although the progress differs: %s" % shown(t.test)), nm + ":test")
            if isinstance(x.ops[0], ast.Eq) and isinstance(x._parent, ast.BoolOp) and isinstance(x._parent.op, ast.Or):
                c.ob(False, f.where(x), "results are also kept when %s" % shown(x._parent), nm + ":or")
        # nothing is skipped
        for a in sorted(fl):
            here = [n for b, n in assigns(f, a) if falsy(n.value)]
            if not here:
                if any(any(progress_read(x) for x in ast.walk(n.test)) for g, n in fl[a]):
                    continue
                c.ob(False, f.where(), "%s is not discarded" % a, nm + ":reset:" + a)
                continue
            cond = guards(here[0], f.node)
            cond = [t for t in cond if not any(own_attr(y, f) in mem for y in ast.walk(t))]
            c.ob(not cond, f.where(here[0]), "%s is discarded%s" % (a, "" if not cond else " only if %s" % shown(cond[0])), nm + ":reset:" + a)


def guards(n, top):
    out = []
    while n is not top and n is not None:
        p = n._parent
        if isinstance(p, ast.If) and n is not p.test:
            out.append(p.test)
        for block in ("body", "orelse", "finalbody"):
            b = getattr(p, block, None)
            if isinstance(b, list) and n in b:     # an earlier branch that left
                out += [x.test for x in b[:b.index(n)] if isinstance(x, ast.If) and x.body and isinstance(x.body[-1], (ast.Return, ast.Continue, ast.Raise, ast.Break))]
        n = p
    return out


def accumulations(f):
    """(attribute, node, on self?) of results that grow: += and append on attributes, not fresh in this call"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            t = n.target
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute):
                yield t.attr, n, t
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "update", "add"):
            t = n.func.value
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute):
                yield t.attr, n, t


def resets(f, attr):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Attribute) and x.attr == attr:
                        if not any(isinstance(y, ast.Attribute) and y.attr == attr or isinstance(y, ast.Constant) and y.value == attr for y in ast.walk(n.value)):
                            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == attr:
            yield n


@rule("P26", "R3", "results that are accumulated start from scratch")
def r3(c):
    va = validators()
    k = 0
    for f in methods():
        if f.node.name == "__init__":
            continue
        seen = set()
        for a, n, t in accumulations(f):
            root = t
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in (selfname(f),) and not elementvar(f, root.id):
                continue
            if a in seen:
                continue
            seen.add(a)
            k += 1
            local = [r for r in resets(f, a) if r.lineno < n.lineno]
            okl = any(covers(r, n, f) for r in local)
            good = {nm for nm, (g, _) in va.items() if any(not [q for q in guards(r, g.node) if not any(own_attr(y, g) for y in ast.walk(q))] for r in resets(g, a))}
            okv = bool(good) and always_before(f.node, n, lambda x: is_call(x, good, f))
            c.ob(okl or okv, f.where(n), "%s is accumulated in %s %s" % (a, f.node.name, "from scratch" if okl or okv else "on top of the results of earlier calls"), "%s|%s" % (f.node.name, a))
    c.floor(k, 5, "accumulated results")


def elementvar(f, nm):
    """the name is an element of the simulation (loop variable over registered elements)"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.target)):
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets) and isinstance(n.value, ast.Call) and shown(n.value.func).split(".")[-1] in ("get_link", "get_node"):
            return True
    return False


def covers(r, n, f):
    """the reset r is executed before n in every call"""
    blk = r
    while blk is not f.node:
        p = blk._parent
        if isinstance(p, ast.If):
            # the accumulation is in the same branch
            q = n
            while q is not f.node and q._parent is not p:
                q = q._parent
            if q is f.node or (q in p.body) != (blk in p.body):
                # an early exit in the other branch?
                if not (exits_block(p.body if blk in p.orelse else p.orelse)):
                    return False
        blk = p
    return True


def exits_block(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))


@rule("P26", "R4", "statistics are computed before they are shown or returned")
def r4(c):
    ms = {f.node.name: f for f in methods()}
    prod = {}
    for f in methods():
        if f.node.name == "__init__" or f.node.name in validators():
            continue
        for a, n in assigns(f):
            prod.setdefault(a, set()).add(f.node.name)
        for a, n, t in accumulations(f):
            if own_attr(t, f):
                prod.setdefault(a, set()).add(f.node.name)
    # a method provides what it or the methods it always calls provide
    prov = {nm: {a for a, s in prod.items() if nm in s} for nm in ms}
    for _ in range(4):
        for nm, f in ms.items():
            for st in f.node.body:
                for g in ms:
                    if g != nm and both(st, lambda x: is_call(x, {g}, f)):
                        prov[nm] |= prov[g]
    k = 0
    sim = written_elsewhere()
    for nm, f in sorted(ms.items()):
        if nm == "__init__":
            continue
        seen = set()
        for n in ast.walk(f.node):
            a = own_attr(n, f)
            if a is None or a not in prod or not isinstance(n.ctx, ast.Load) or a in seen or a in sim:
                continue
            if isinstance(n._parent, ast.Call) and n._parent.func is n and a in ms:
                continue
            if a in flags():
                continue
            seen.add(a)
            k += 1
            here = nm in prod[a] and any(m.lineno < n.lineno for b, m in assigns(f, a))
            if nm in prod[a] and not here:
                here = any(within(n, m) for b, m in assigns(f, a)) is False and any(b == a for b, m in assigns(f, a))
            good = {g for g in ms if a in prov[g] and g != nm}
            ok = here or always_before(f.node, n, lambda x: is_call(x, good, f))
            c.ob(ok, f.where(n), "%s is %s" % (a, "computed before it is used in %s" % nm if ok else "used in %s without being computed for the current state" % nm), "%s|%s" % (nm, a))
    # results kept on the links
    eprod = {}
    for f in methods():
        if f.node.name in validators():
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id != selfname(f) and elementvar(f, n.value.id):
                eprod.setdefault(n.attr, set()).add(f.node.name)
        for a, n, t in accumulations(f):
            if isinstance(t.value, ast.Name) and t.value.id != selfname(f) and elementvar(f, t.value.id):
                eprod.setdefault(a, set()).add(f.node.name)
    for nm, f in sorted(ms.items()):
        if nm in validators():
            continue
        seen = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in eprod and isinstance(n.ctx, ast.Load) and nm not in eprod[n.attr] and n.attr not in seen and not (isinstance(n._parent, ast.Attribute) and n._parent.attr == "shape") and own_attr(n, f) is None:
                seen.add(n.attr)
                k += 1
                good = set(eprod[n.attr])
                for _ in range(4):
                    for g in ms:
                        if any(both(st, lambda x: is_call(x, good, ms[g])) for st in ms[g].node.body):
                            good.add(g)
                ok = always_before(f.node, n, lambda x: is_call(x, good - {nm}, f))
                c.ob(ok, f.where(n), "%s of links is %s" % (n.attr, "computed before it is used in %s" % nm if ok else "used in %s without being computed for the current state" % nm), "%s|%s" % (nm, n.attr))
    c.floor(k, 35, "uses of results")


def written_elsewhere():
    """results that the simulation itself keeps up to date"""
    out = set()
    for rel in (MAIN, WRAP):
        for f in pyraw.mod(rel).funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (isinstance(n.value, ast.Attribute) and n.value.attr == "analyzer" or isinstance(n.value, ast.Name) and n.value.id == "analyzer"):
                    out.add(n.attr)
    return out


def series():
    """attributes of elements that get one entry per step"""
    E = p25.effects(p25.PYR)
    drv = E.fn("World", "exec_simulation")
    step = p25.closure(E, p25.loop_callees(E, drv))
    out = set()
    for f in step:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Attribute) and f.cls == "Link":
                out.add(n.func.value.attr)
    return out


@rule("P26", "R5", "tables of time series stop where the simulation stopped")
def r5(c):
    ser = series()
    c.floor(len(ser), 2, "time series of links")
    k = 0
    for f in methods():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr in ser and isinstance(n.ctx, ast.Load):
                k += 1
                ix = n.slice
                if isinstance(ix, ast.Slice) or isinstance(ix, ast.UnaryOp):
                    c.ob(True, f.where(n), "%s is read from its end" % n.value.attr, "%s|%s" % (f.node.name, n.value.attr))
                    continue
                names = {x.id for x in ast.walk(ix) if isinstance(x, ast.Name)}
                ok = None
                p = n
                while p is not f.node:
                    p = p._parent
                    gens = [(p.target, p.iter)] if isinstance(p, ast.For) else [(g.target, g.iter) for g in getattr(p, "generators", ())]
                    for tg, it in gens:
                        if {x.id for x in ast.walk(tg) if isinstance(x, ast.Name)} & names:
                            txt = {x.attr for x in ast.walk(it) if isinstance(x, ast.Attribute)}
                            fns = {getattr(x.func, "id", getattr(x.func, "attr", "")) for x in ast.walk(it) if isinstance(x, ast.Call)}
                            total = txt & {"TSIZE", "TMAX"}
                            bounded = bool(txt & ser) and (fns & {"len", "lange", "enumerate", "min", "zip"} or True) or bool(txt & {"T"})
                            ok = bool(bounded) if (bounded or total) else ok
                    if isinstance(p, (ast.If, ast.IfExp)) and {x.attr for x in ast.walk(p.test) if isinstance(x, ast.Attribute)} & (ser | {"T"}):
                        ok = True
                if ok is None and names and asked(f, names):
                    c.ob(True, f.where(n), "%s is read at the time asked for" % n.value.attr, "%s|%s" % (f.node.name, n.value.attr))
                    continue
                c.ob(ok, f.where(n), "%s is read %s" % (n.value.attr, "as far as it has been recorded" if ok else "for all steps of the run, also those not simulated yet"), "%s|%s" % (f.node.name, n.value.attr))
    c.floor(k, 3, "reads of time series")


def asked(f, names):
    """the names come from the arguments of the method alone"""
    a = f.node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    names = set(names) - {"int", "min", "max", "round", selfname(f)}
    for _ in range(6):
        new = set()
        for nm in names - params:
            if any(isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.target)) for n in ast.walk(f.node)):
                # position within a link at the time asked for
                continue
            ds = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets)]
            if not ds:
                return False
            for d in ds:
                new |= {x.id for x in ast.walk(d) if isinstance(x, ast.Name)} - {"int", "min", "max", "round", selfname(f)}
        names = (names & params) | new
        if names <= params:
            return bool(names)
    return False


@rule("P26", "R6", "values remembered in C++ mode are dropped when the simulation is continued")
def r6(c):
    m = pyraw.mod(WRAP)
    E = p25.effects((WRAP, ANA, p25.SRW, "uxsim/utils.py"))
    drv = E.fn("CppWorld", "exec_simulation")
    if drv is None:
        raise Floor("CppWorld.exec_simulation not found")
    run_ = p25.closure(E, [drv])
    # attributes emptied by every part of the run
    emptied = {}
    for f in run_:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and falsy(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        emptied.setdefault(t.attr, []).append((f, n))
    k = 0
    for f in m.funcs:
        if not f.cls or f.cls not in p25.CPP.values() or f.node.name == "__init__":
            continue
        q = p25.is_prop(f) or f.node.name in p25.QUERIES.get({v: k_ for k_, v in p25.CPP.items()}[f.cls], ())
        if not q:
            continue
        slf = selfname(f)
        for n in ast.walk(f.node):
            attr = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == slf:
                attr = n.attr
            if attr is None:
                continue
            k += 1
            gs = guards(n, f.node)
            done = any(isinstance(x, ast.Attribute) and x.attr == "_simulation_done" for t in gs for x in ast.walk(t)) and done_ok(m)
            timed = any(progress_read(y) for t in gs for x in ast.walk(t) if isinstance(x, ast.Compare) and any(isinstance(z, ast.Attribute) and not progress_read(z) and z.attr not in ("W", "TSIZE", "TMAX", "DELTAT") for z in ast.walk(x)) for y in ast.walk(x))
            em = attr in emptied
            c.ob(done or timed or em, f.where(n), "%s remembers %s %s" % (f.qual, attr, "for the finished simulation only" if done else "until the simulation is continued" if timed or em else "although the simulation may be continued"), f.qual + "|" + attr)
    # every part of the run empties the log caches of all vehicles, after the engine has run
    logs = {n.attr for f in m.funcs if f.cls == "CppVehicle" for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and "cache" in n.attr and not (isinstance(n._parent, ast.Call) and n._parent.func is n)} - {f.node.name for f in m.funcs}
    for a in sorted(logs):
        k += 1
        sites = [(f, n) for f, n in emptied.get(a, ()) if f.node.name != "_register_new_cpp_vehicles" and not any(isinstance(x, ast.Call) and shown(x.func).endswith("__new__") for x in ast.walk(f.node))]
        if not sites:
            c.ob(False, drv.where(), "%s is never dropped when the simulation is continued" % a, "drop|" + a)
            continue
        f, n = sites[0]
        gs = guards(n, f.node)
        ok = not gs
        # reached after main_loop in every part
        ml = [x for x in ast.walk(drv.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "main_loop"]
        if f is not drv:
            callers = [x for x in ast.walk(drv.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.node.name]
            ok2 = bool(callers) and bool(ml) and any(x.lineno > ml[-1].lineno and not [g for g in guards(x, drv.node) if g not in guards(ml[-1], drv.node)] for x in callers)
        else:
            ok2 = bool(ml) and n.lineno > ml[-1].lineno
        c.ob(ok and ok2, f.where(n), "%s is dropped %s" % (a, "after every part of the run" if ok and ok2 else "only in some cases"), "drop|" + a)
    c.floor(k, 3, "remembered values")


def done_ok(m):
    """_simulation_done becomes true only when the run is over"""
    for f in m.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and truthy(n.value) and any(isinstance(t, ast.Attribute) and t.attr == "_simulation_done" for t in n.targets):
                if f.node.name != "simulation_terminated":
                    return False
    return True


@rule("P26", "R7", "time series of links in C++ mode have no entries of steps to come")
def r7(c):
    """engine arrays are allocated for the whole run: what is handed out before the end must be cut at the current step"""
    from .. import cpppure
    eff = {f for f, _ in cpppure.effects("World.initialize_adj_matrix") or ()} | {f for f, _ in cpppure.effects("World.set_t_max") or ()} | {f for f, _ in cpppure.effects("Link.Link") or ()}
    m = pyraw.mod(WRAP)
    ser = series()
    k = 0
    for f in m.funcs:
        if f.cls == "CppLink" and f.node.name in ser and p25.is_prop(f):
            for n in ast.walk(f.node):
                if not isinstance(n, (ast.Return, ast.Assign, ast.AnnAssign)) or n.value is None or not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.endswith("_np") for x in ast.walk(n.value)):
                    continue
                if isinstance(n, ast.Assign) and all(isinstance(t, ast.Attribute) for t in n.targets):
                    continue    # cached after the end
                k += 1
                cut = any(progress_read(x) for x in ast.walk(n.value))
                if not cut and not isinstance(n, ast.Return):
                    # the entries after the current step are cut off or overwritten later in the function
                    names = {t.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
                    cut = any(isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id in names and any(progress_read(z) for z in ast.walk(y.slice)) for y in ast.walk(f.node))
                c.ob(cut, f.where(n), "%s %s" % (f.node.name, "follows the current step" if cut else "is handed out with entries for steps that have not been simulated"), f.qual)
    c.floor(k, 1, "time series in C++ mode")


@rule("P26", "R8", "lists of entering vehicles and finished statistics follow every part of the run")
def r8(c):
    m = pyraw.mod(WRAP)
    k = 0
    for f in m.funcs:
        if f.cls == "CppLink" and f.node.name == "vehicles_enter_log":
            k += 1
            refresh = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and "build" in n.func.attr]
            gs = [g for n in refresh for g in guards(n, f.node)]
            ok = bool(refresh) and (not gs or any(progress_read(x) for g in gs for x in ast.walk(g)))
            c.ob(ok, f.where(), "the list of entering vehicles is %s" % ("rebuilt when the simulation was continued" if ok else "not rebuilt when the simulation was continued"), f.qual)
    if not k:
        # filled directly: then every part of the run fills it
        E = p25.effects((WRAP, ANA, p25.SRW, "uxsim/utils.py"))
        drv = E.fn("CppWorld", "exec_simulation")
        b = [x for x in ast.walk(drv.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "enter_log" in x.func.attr]
        ok = bool(b) and not guards(b[0], drv.node)
        c.ob(ok, drv.where(), "the lists of entering vehicles are %s" % ("filled by every part of the run" if ok else "only filled at the end of the run"), "enter_log")
    for rel, cls in ((MAIN, "World"), (WRAP, "CppWorld")):
        fs = [f for f in pyraw.mod(rel).funcs if f.qual == cls + ".simulation_terminated"]
        if not fs:
            raise Floor("%s.simulation_terminated not found" % cls)
        f = fs[0]
        st = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "basic_analysis"]
        c.ob(bool(st) and not guards(st[0], f.node), f.where(), "the statistics are %s at the end of the run" % ("computed" if st else "not computed"), f.qual)
