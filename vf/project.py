"""Project model: what the evaluator knows about the analysed code base (types, scopes, anchors)."""
import json
import os
from . import val as V_
from . import dom
from .val import V, mk, const
from .ir import Func, Cls, Module, stmts_walk, stmt_exprs, expr_walk
from . import pyfront

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")


class AnchorMissing(Exception):
    """an entry point a rule is anchored in is gone: no verdict can be given"""


# ---- Python object model (uxsim.py + the C++ wrapper share it)
PY_SCALAR = {
    "W": "World", "world": "World", "start_node": "Node", "end_node": "Node", "orig": "Node", "dest": "Node", "link": "Link", "leader": "Vehicle",
    "follower": "Vehicle", "route_next_link": "Link", "ANALYZER": "Analyzer", "analyzer": "Analyzer", "analyzer_": "Analyzer", "ROUTECHOICE": "RouteChoice",
    "route_pref_table": None, "veh": "Vehicle", "vehicle": "Vehicle", "node": "Node", "link_now": "Link",
}
PY_ELEM = {
    "inlinks": "Link", "outlinks": "Link", "incoming_vehicles": "Vehicle", "generation_queue": "Vehicle", "LINKS": "Link", "NODES": "Node", "VEHICLES": "Vehicle",
    "VEHICLES_LIVING": "Vehicle", "VEHICLES_RUNNING": "Vehicle", "vehicles": "Vehicle", "links_prefer": "Link", "links_avoid": "Link",
    "outlinks_filtered": "Link", "vehicles_enter_log": "Vehicle", "links": "Link", "NODES_NAME_DICT": "Node", "LINKS_NAME_DICT": "Link", "trips": "TripRequest",
    "trip_requests": "TripRequest",
}
PY_CALLS = {"get_node": "Node", "get_link": "Link", "get_vehicle": "Vehicle"}
PY_PARAMS = {"s": None, "W": "World", "link": "Link", "node": "Node", "veh": "Vehicle", "start_node": "Node", "end_node": "Node", "l": "Link"}

PY_INT = {"T", "TSIZE", "DELTAN", "number_of_lanes", "signal_phase", "lane", "EULAR_DT", "DELTAT_ROUTE", "id", "capacity_time_steps", "node_capacity_time_steps", "print_mode", "TMAX_int"}
PY_FLAG = {"flag_trip_aborted", "flag_waiting_for_trip_end", "route_choice_flag_on_link", "trip_abort", "hard_deterministic_mode", "finalized", "vehicle_logging_timestep_interval_"}
PY_OBJ = {"link", "leader", "follower", "route_next_link", "orig", "dest", "start_node", "end_node", "specified_route"}
PY_LIST = {"vehicles", "incoming_vehicles", "incoming_vehicles_requests", "generation_queue", "links_prefer", "links_avoid", "dest_list", "inlinks", "outlinks", "node_event", "signal"}
POS = {"DELTAT", "DELTAN", "u", "tau", "kappa", "REACTION_TIME", "length", "delta", "delta_per_lane", "number_of_lanes", "free_flow_speed", "jam_density", "w", "w_"}
NONNEG = {"T", "merge_priority"}

CPP_INT = {"timestep", "number_of_lanes", "signal_phase", "lane", "id", "total_timesteps", "timestamp", "timestep_for_route_update"}
CPP_FLAG = {"flag_trip_aborted", "flag_waiting_for_trip_end", "route_choice_flag_on_link", "trip_abort", "hard_deterministic_mode"}
CPP_OBJ = {"link", "leader", "follower", "route_next_link", "orig", "dest", "start_node", "end_node"}
CPP_LIST = {"vehicles", "incoming_vehicles", "incoming_vehicles_requests", "generation_queue", "links_preferred", "links_avoid", "specified_route"}
CPP_POS = {"delta_t", "delta_n", "vmax", "tau", "kappa", "length", "delta", "delta_per_lane", "number_of_lanes", "backward_wave_speed"}


def configure(lang):
    V_.INT_FIELDS.clear()
    V_.FLAG_FIELDS.clear()
    V_.OBJ_FIELDS.clear()
    V_.LIST_FIELDS.clear()
    dom.POS_FIELDS.clear()
    dom.NONNEG_FIELDS.clear()
    if lang == "cpp":
        V_.INT_FIELDS.update(CPP_INT)
        V_.FLAG_FIELDS.update(CPP_FLAG)
        V_.OBJ_FIELDS.update(CPP_OBJ)
        V_.LIST_FIELDS.update(CPP_LIST)
        dom.POS_FIELDS.update(CPP_POS)
        dom.NONNEG_FIELDS.update({"timestep", "merge_priority"})
    else:
        V_.INT_FIELDS.update(PY_INT)
        V_.FLAG_FIELDS.update(PY_FLAG)
        V_.OBJ_FIELDS.update(PY_OBJ)
        V_.LIST_FIELDS.update(PY_LIST)
        dom.POS_FIELDS.update(POS)
        dom.NONNEG_FIELDS.update(NONNEG)


class Project:
    def __init__(self, modules, lang="py", aliases=None):
        self.modules = modules
        self.lang = lang
        self.local_classes = {}
        self.pure_names = set()
        self.bymod = {}
        self.aliases = aliases or {}      # canonical class name -> class name in this project (wrapper)
        for m in modules:
            self.bymod[m.file] = m
        self.classes = {}
        self.funcs = {}
        self.allf = []
        for m in modules:
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
            for f in m.funcs.values():
                self.funcs.setdefault(f.name, f)
                self.allf.append(f)
            for c in m.classes.values():
                for f in c.methods.values():
                    self.allf.append(f)
                for f in c.setters.values():
                    self.allf.append(f)
        self.bymethod = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.bymethod.setdefault(n, []).append(f)
        p = os.path.join(HERE, "known.json")
        self.known = set(json.load(open(p))["functions"]) if os.path.exists(p) else None
        self._mod = {}
        self._rng = {}
        # every entity belongs to one world: the field leading to it is canonicalised
        self.world_field = "w" if lang == "cpp" else "W"

    # ---- anchors
    def func(self, qual):
        """'Class.method' or 'function'; raises AnchorMissing when gone"""
        q = qual.replace("::", ".")
        if "." in q:
            c, m = q.split(".", 1)
            c = self.aliases.get(c, c)
            cl = self.classes.get(c)
            if cl is None:
                raise AnchorMissing("class %s not found" % c)
            f = self.setter(c, m[:-1]) if m.endswith("=") else self.method(c, "__init__" if m == c else m)
            if f is None:
                raise AnchorMissing("method %s.%s not found" % (c, m))
            return f
        f = self.funcs.get(q)
        if f is None:
            raise AnchorMissing("function %s not found" % q)
        return f

    def has(self, qual):
        try:
            self.func(qual)
            return True
        except AnchorMissing:
            return False

    # ---- evaluator interface
    def param_type(self, f, p):
        if self.lang == "cpp":
            return self.cpp_base(f.ptypes.get(p)) if f.ptypes else None
        t = PY_PARAMS.get(p)
        if t:
            return self.aliases.get(t, t)
        return None

    def cpp_base(self, t):
        if not t:
            return None
        if isinstance(t, tuple):
            t = t[0]
        t = t.replace("const ", "").replace("&", "").replace("*", "").replace("struct ", "").replace("class ", "").strip()
        return t if t in self.classes else None

    def cpp_elem(self, t):
        if not t:
            return None
        if isinstance(t, tuple):
            t = t[0]
        i = t.find("<")
        if i < 0:
            return None
        inner = t[i + 1:t.rfind(">")]
        # last template argument at depth 0 (maps: value type)
        d = 0
        parts = [""]
        for ch in inner:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            if ch == "," and d == 0:
                parts.append("")
            else:
                parts[-1] += ch
        if t[:i].strip().endswith(("map", "unordered_map")):
            return parts[1].strip() if len(parts) > 1 else None
        return parts[0].strip()

    def cpp_type(self, v, ev):
        """declared C++ type text of a term, or None"""
        k = v.kind
        if k == "p":
            if v is ev.world:
                return "World"
            if v.a[0] == "self":
                c = ev.frames[0].selfcls
                return c.name if c is not None else None
            f = ev.frames[0].func
            return f.ptypes.get(v.a[0]) if f.ptypes else None
        if k == "new":
            return v.a[0]
        if k == "a":
            bt = self.cpp_type(v.a[0], ev)
            b = self.cpp_base(bt)
            if b:
                fd = self.classes[b].fields.get(v.a[1])
                return fd[0] if fd else None
            return None
        if k in ("elem",):
            it = v.a[0]
            if it.kind == "values":
                it = it.a[0]
            return self.cpp_elem(self.cpp_type(it, ev))
        if k == "i":
            return self.cpp_elem(self.cpp_type(v.a[0], ev))
        if k in ("grown", "appended", "prepended", "popped0", "poppedlast", "removed", "extended", "inserted", "keyset", "keydel"):
            return self.cpp_type(v.a[0], ev)
        if k == "search":
            return self.cpp_type(v.a[0], ev)
        if k == "ite":
            return self.cpp_type(v.a[1], ev) or self.cpp_type(v.a[2], ev)
        if k == "mcall" and v.a[1] in PY_CALLS:
            return PY_CALLS[v.a[1]]
        if k == "mcall":
            f = self.bymethod.get(v.a[1])
            if f and f[0].rettype:
                return f[0].rettype
        if k == "comp" and v.a[0] == "list":
            t = self.cpp_type(v.a[1], ev)
            return "vector<%s>" % t if t else None
        return None

    def typeof(self, v, ev, d=0):
        if not isinstance(v, V) or d > 6:
            return None
        if self.lang == "cpp":
            return self.cpp_base(self.cpp_type(v, ev))
        al = self.aliases
        k = v.kind
        r = None
        if k == "p":
            if v.a[0] == "self":
                c = ev.frames[0].selfcls
                return c.name if c is not None else None
            if v is ev.world:
                return al.get("World", "World")
            return ev.topptypes.get(v.a[0]) if v.a[0] in ev.topptypes else None
        if k == "new":
            return v.a[0] if v.a[0] in self.classes or v.a[0] in self.local_classes else None
        if k == "a":
            r = PY_SCALAR.get(v.a[1])
        elif k == "i":
            c = v.a[0]
            while c.kind in ("grown", "appended", "prepended", "popped0", "poppedlast", "removed", "extended", "inserted", "keyset", "keydel"):
                c = c.a[0]
            if c.kind == "a" and not (v.a[1].kind == "slice"):
                r = PY_ELEM.get(c.a[1])
        elif k == "elem":
            return self.elemtype(v.a[0], ev, d)
        elif k == "search":
            return self.typeof(v.a[0], ev, d + 1)
        elif k == "ite":
            return self.typeof(v.a[1], ev, d + 1) or self.typeof(v.a[2], ev, d + 1)
        elif k == "mcall":
            r = PY_CALLS.get(v.a[1])
        elif k == "rnd" and len(v.a) >= 5 and v.a[0] in ("choice",):
            a = v.a[3]
            if a:
                return self.typeof(mk("elem", a[0]), ev, d + 1)
        if r:
            return al.get(r, r)
        return None

    def elemtype(self, it, ev, d=0, dictv=False):
        if d > 8:
            return None
        k = it.kind
        if k == "values":
            return self.elemtype(it.a[0], ev, d + 1, True)
        if k in ("grown", "appended", "prepended", "popped0", "poppedlast", "removed", "extended", "inserted", "keyset", "keydel"):
            return self.elemtype(it.a[0], ev, d + 1, dictv) or (self.typeof(it.a[1], ev, d + 1) if k in ("appended", "prepended") else None)
        if k == "call" and it.a[0] in ("list", "sorted", "set", "tuple", "reversed", "setand", "setor", "setsub") and it.a[1]:
            return self.elemtype(it.a[1][0], ev, d + 1, dictv)
        if k == "a":
            if it.a[1] in DICTS and not dictv:
                return None
            r = PY_ELEM.get(it.a[1])
            return self.aliases.get(r, r) if r else None
        if k == "ite":
            return self.elemtype(it.a[1], ev, d + 1) or self.elemtype(it.a[2], ev, d + 1)
        if k == "comp":
            e = it.a[1]
            if it.a[0] == "dict":
                e = e.a[0][1 if dictv else 0] if e.kind == "tuple" else e
            return self.typeof(e, ev, d + 1)
        if k in ("rec", "concat", "grown"):
            return self.elemtype(it.a[0], ev, d + 1) or self.elemtype(it.a[1], ev, d + 1)
        if k in ("list", "tuple") and it.a[0]:
            return self.typeof(it.a[0][0], ev, d + 1)
        return None

    def mro(self, cls):
        c = self.classes.get(cls) or self.local_classes.get(cls)
        out = []
        while c is not None and c not in out:
            out.append(c)
            nxt = None
            for b in c.bases:
                if isinstance(b, tuple) and b[0] in ("name", "attr"):
                    nm = b[1] if b[0] == "name" else b[2]
                    nxt = self.classes.get(nm)
                    break
            c = nxt
        return out

    def method(self, cls, name):
        if cls is not None and not isinstance(cls, str):
            cls = cls.name
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def property(self, cls, name):
        if cls is None or self.lang == "cpp":
            return None
        for c in self.mro(cls):
            f = c.methods.get(name)
            if f is not None:
                return f if any(d in (("name", "property"),) for d in f.decorators) else None
        return None

    def unique_method(self, name, func):
        fs = self.bymethod.get(name, [])
        return fs[0] if len(fs) == 1 and len(name) > 3 else None

    def mod_of(self, func):
        return self.bymod.get(func.file) or (self.modules[0] if self.lang == "cpp" else None)

    def function(self, name, func):
        m = self.mod_of(func)
        if m is not None:
            if name in m.funcs:
                return m.funcs[name]
            imp = m.imports.get(name)
            if imp and ":" in imp:
                return self.funcs.get(imp.split(":")[1])
            if m.star or self.lang == "cpp":
                return self.funcs.get(name)
            return None
        return self.funcs.get(name)

    def function_dotted(self, dotted):
        parts = dotted.replace(":", ".").split(".")
        if len(parts) >= 2 and parts[0] in ("np", "numpy", "math", "pd", "random", "os", "copy", "time", "itertools", "json", "pickle", "csv", "plt", "matplotlib", "string", "warnings", "sys", "gc", "dill", "nx", "networkx"):
            return None
        return self.funcs.get(parts[-1]) if parts[-1] in self.funcs and len(parts) > 1 else None

    def is_class(self, name, func):
        return name in self.classes or name in self.local_classes

    def all_classes(self, func):
        return self.classes

    def module_globals(self, func):
        m = self.mod_of(func)
        return m.globals if m else {}

    def global_value(self, name, func):
        m = self.mod_of(func)
        if m and name in m.globals:
            e = m.globals[name]
            if e and e[0] == "const":
                return const(e[1])
        return None

    def import_of(self, n, func):
        m = self.mod_of(func)
        if m is None:
            return n if func.qual == "spec" and n in ("np", "math", "random", "copy") else None
        i = m.imports.get(n)
        if i is None:
            return None
        i = {"numpy": "np", "pandas": "pd"}.get(i, i)
        return i.replace(":", ".").lstrip(".")

    def enum(self, name):
        return name

    def kind_of(self, r):
        f = None
        while isinstance(r, V):
            if r.kind == "a":
                f = r.a[1]
                break
            if r.kind == "i":
                r = r.a[0]
                continue
            break
        return "dict" if f in DICTS else "list"

    def is_known(self, f):
        if self.known is None:
            return True
        return f.qual in self.known

    # ---- effects
    def _direct(self, f):
        s = set()
        callees = set()
        rng = False
        for st in stmts_walk(f.body):
            tgs = []
            if st[0] == "assign":
                tgs = list(st[1])
            elif st[0] == "aug":
                tgs = [st[1]]
            elif st[0] == "for":
                tgs = [st[1]]
            while tgs:
                t = tgs.pop()
                if t[0] in ("tuple", "list"):
                    tgs.extend(t[1])
                elif t[0] == "star":
                    tgs.append(t[1])
                else:
                    s.add(self._tfield(t))
            for e in stmt_exprs(st):
                for x in expr_walk(e):
                    if x[0] in ("augx", "incdec", "walrus"):
                        s.add(self._tfield(x[1]))
                    if x[0] == "call":
                        fx = x[1]
                        if fx[0] == "attr":
                            from .evalr import MUTATORS
                            if fx[2] in MUTATORS:
                                s.add(self._tfield(fx[1]))
                            callees.add(fx[2])
                            if self._rngish(fx[1]):
                                rng = True
                        elif fx[0] == "name":
                            callees.add(fx[1])
                            if fx[1] in ("shuffle", "choice"):
                                rng = True
                            for a in x[2]:
                                if a[0] == "name" and "rng" in a[1]:
                                    rng = True
        s.discard(None)
        return s, callees, rng

    def _rngish(self, e):
        if e[0] == "attr":
            return "rng" in e[2].lower() or self._rngish(e[1])
        if e[0] == "name":
            return "rng" in e[1].lower() or e[1] == "random"
        return False

    def _tfield(self, t):
        while t[0] in ("idx", "deref"):
            t = t[1]
        if t[0] == "attr":
            return t[2]
        return None

    def _closure(self, f):
        seen = {}
        work = [f]
        fields = set()
        rng = False
        while work:
            g = work.pop()
            if id(g) in seen:
                continue
            seen[id(g)] = g
            s, cs, r = self._direct(g)
            fields |= s
            rng = rng or r
            for c in cs:
                if c in ("append", "get", "pop", "add", "update", "print", "copy", "remove", "index", "count", "insert", "clear", "sort", "extend") and c not in ("update",):
                    continue
                if c == "update" and g.name != "main_loop" and g.name != "exec_simulation":
                    continue
                work.extend(self.bymethod.get(c, []))
                if c in self.funcs:
                    work.append(self.funcs[c])
                if c in self.classes and "__init__" in self.classes[c].methods:
                    work.append(self.classes[c].methods["__init__"])
        return fields, rng, list(seen.values())

    def modset(self, f):
        k = id(f)
        if k not in self._mod:
            self._mod[k] = self._closure(f)
        return self._mod[k][0]

    def uses_rng(self, f):
        self.modset(f)
        return self._mod[id(f)][1]

    def reach(self, f):
        self.modset(f)
        return self._mod[id(f)][2]


DICTS = {"inlinks", "outlinks", "VEHICLES", "VEHICLES_LIVING", "VEHICLES_RUNNING", "NODES_NAME_DICT", "LINKS_NAME_DICT", "node_event", "attribute", "route_pref", "traveltime_actual_dict", "nodes_map", "links_map", "vehicles_map", "vehicles_living", "vehicles_running"}


_cache = {}


def py_main():
    if "py" not in _cache:
        ms = []
        for n in ("uxsim.py", "utils.py", "analyzer.py", "scenario_reader_writer.py", "Utilities/Utilities.py"):
            p = os.path.join(REPO, "uxsim", n)
            if not os.path.exists(p):
                raise AnchorMissing("file uxsim/%s not found" % n)
            ms.append(pyfront.load(p, n[:-3]))
        _cache["py"] = Project(ms, "py")
    configure("py")
    return _cache["py"]


def py_mod(*names):
    """project over the given files (first = primary), uxsim.py appended for class knowledge"""
    key = ("mod",) + names
    if key not in _cache:
        ms = []
        for n in names:
            p = os.path.join(REPO, "uxsim", n)
            if not os.path.exists(p):
                raise AnchorMissing("file uxsim/%s not found" % n)
            ms.append(pyfront.load(p, n[:-3].replace("/", ".")))
        _cache[key] = Project(ms, "py")
        _cache[key].world_field = None
    configure("py")
    return _cache[key]


WRAP_ALIASES = {"World": "CppWorld", "Node": "CppNode", "Link": "CppLink", "Vehicle": "CppVehicle"}


def py_wrap():
    if "wrap" not in _cache:
        ms = []
        for n in ("uxsim_cpp_wrapper.py", "utils.py"):
            p = os.path.join(REPO, "uxsim", n)
            if not os.path.exists(p):
                raise AnchorMissing("file uxsim/%s not found" % n)
            ms.append(pyfront.load(p, n[:-3]))
        _cache["wrap"] = Project(ms, "py", dict(WRAP_ALIASES))
    configure("py")
    return _cache["wrap"]


def cpp_main():
    if "cpp" not in _cache:
        from . import cppfront
        p = os.path.join(REPO, "uxsim", "trafficpp", "traffi.cpp")
        if not os.path.exists(p):
            raise AnchorMissing("traffi.cpp not found")
        m = cppfront.build(p, ["-std=c++17", "-I" + os.path.dirname(p)], os.path.dirname(p))
        _cache["cpp"] = Project([m], "cpp")
    configure("cpp")
    return _cache["cpp"]


def cpp_dta():
    """dta_solver.cpp and the lambdas of bindings.cpp, in front of the engine"""
    if "dta" not in _cache:
        from . import cppfront, binds
        import tempfile
        main = cpp_main()
        d = os.path.join(REPO, "uxsim", "trafficpp")
        p = os.path.join(d, "dta_solver.cpp")
        if not os.path.exists(p):
            raise AnchorMissing("dta_solver.cpp not found")
        ms = [cppfront.build(p, ["-std=c++17", "-I" + d], d)]
        src = binds.lambdas()
        fd, tmp = tempfile.mkstemp(prefix="vbind", suffix=".cpp")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(src)
            ms.append(cppfront.build(tmp, ["-std=c++17", "-I" + d], d))
        finally:
            os.unlink(tmp)
        for m in ms:
            for k in list(m.classes):
                if k in main.classes:
                    del m.classes[k]
            for k in list(m.funcs):
                if k in main.funcs:
                    del m.funcs[k]
        _cache["dta"] = Project(list(main.modules) + ms, "cpp")
    configure("cpp")
    return _cache["dta"]
