"""Python syntax trees of the code base with scopes: functions by qualified name, imports resolved, parents known."""
import ast
import os
from . import project as P

SIM = ("uxsim/uxsim.py", "uxsim/uxsim_cpp_wrapper.py", "uxsim/TaxiHandler/TaxiHandler.py", "uxsim/scenario_reader_writer.py", "uxsim/utils.py", "uxsim/analyzer.py")


class Fn:
    def __init__(self, qual, cls, node, mod):
        self.qual, self.cls, self.node, self.mod = qual, cls, node, mod

    def where(self, n=None):
        return "%s:%s (%s)" % (self.mod.rel, getattr(n, "lineno", self.node.lineno), self.qual)


class Mod:
    def __init__(self, rel):
        self.rel = rel
        self.text = open(os.path.join(P.REPO, rel), encoding="utf-8").read()
        self.tree = ast.parse(self.text)
        self.funcs = []
        self.classes = {}
        self.imports = {}     # alias -> dotted name
        self.star = []
        self.names = set()    # names defined at module level
        self._visit(self.tree, "", None)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == "*":
                        self.star.append(n.module or ".")
                    else:
                        self.imports[a.asname or a.name] = "%s.%s" % ("." * n.level + (n.module or ""), a.name)
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names.add(n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names.add(t.id)

    def _visit(self, n, pre, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.append(Fn(pre + c.name, cls, c, self))
                self._visit(c, pre + c.name + ".", cls)
            elif isinstance(c, ast.ClassDef):
                self.classes[c.name] = c
                self._visit(c, pre + c.name + ".", c.name)
            elif not isinstance(c, ast.Lambda):
                self._visit(c, pre, cls)

    def owner(self, n):
        """innermost function containing a node"""
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n = getattr(n, "_parent", None)
        if n is None:
            return None
        for f in self.funcs:
            if f.node is n:
                return f

    def where(self, n):
        f = self.owner(n)
        return "%s:%s (%s)" % (self.rel, n.lineno, f.qual if f else "module")

    def dotted(self, e):
        """fully qualified dotted name of an expression, through imports; None if it is not one"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        parts.append(e.id)
        parts.reverse()
        if parts[0] in self.imports:
            parts[0] = self.imports[parts[0]]
        return ".".join(parts)


_mods = {}


def mod(rel):
    p = os.path.join(P.REPO, rel)
    if p not in _mods:
        _mods[p] = Mod(rel)
    return _mods[p]


def mods(rels=SIM):
    return [mod(r) for r in rels]


def own_nodes(fn):
    """nodes of a function without those of functions defined in it"""
    st = list(ast.iter_child_nodes(fn.node))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
