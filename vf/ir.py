"""Structured mini-IR shared by the Python and the C++ frontends (plain tuples).

expr: (tag, ..., ) ; stmt: (tag, ..., line)
"""


class Func:
    def __init__(self, name, qual, params, body, cls=None, file="", line=0, decorators=(), vararg=None, kwarg=None, lang="py", ptypes=None, static=False, rettype=None, defaults_node=None):
        self.name = name
        self.qual = qual
        self.params = params          # list of (name, default expr or None)
        self.body = body
        self.cls = cls
        self.file = file
        self.line = line
        self.decorators = list(decorators)
        self.vararg = vararg
        self.kwarg = kwarg
        self.lang = lang
        self.ptypes = ptypes or {}
        self.static = static
        self.rettype = rettype

    def __repr__(self):
        return "<Func %s>" % self.qual


class Cls:
    def __init__(self, name, file, line, bases=()):
        self.name = name
        self.file = file
        self.line = line
        self.bases = list(bases)
        self.methods = {}
        self.setters = {}
        self.fields = {}      # C++: name -> type ; python class attrs: name -> expr


class Module:
    def __init__(self, name, file):
        self.name = name
        self.file = file
        self.funcs = {}
        self.classes = {}
        self.globals = {}     # name -> expr
        self.imports = {}     # alias -> dotted
        self.star = []
        self.all_funcs = []
        self.toplevel = []


def stmts_walk(body):
    for s in body:
        yield s
        for b in sub_bodies(s):
            yield from stmts_walk(b)


def sub_bodies(s):
    t = s[0]
    if t == "if":
        return [s[2], s[3]]
    if t == "for":
        return [s[3], s[4]]
    if t == "while":
        return [s[2], s[3]]
    if t == "try":
        return [s[1]] + [h[2] for h in s[2]] + [s[3], s[4]]
    if t == "with":
        return [s[2]]
    if t == "block":
        return [s[1]]
    if t == "parallel":
        return [s[2]]
    return []


def stmt_exprs(s):
    t = s[0]
    if t == "assign":
        return list(s[1]) + [s[2]]
    if t == "aug":
        return [s[1], s[3]]
    if t in ("expr", "assert", "return", "raise"):
        return [s[1]] if s[1] is not None else []
    if t in ("if", "while"):
        return [s[1]]
    if t == "for":
        return [s[1], s[2]]
    if t == "with":
        return [e for e, _ in s[1]]
    if t == "del":
        return list(s[1])
    return []


def expr_walk(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            if isinstance(x, (tuple, list)):
                yield from expr_walk(x)
    elif isinstance(e, list):
        for x in e:
            yield from expr_walk(x)


def all_exprs(body):
    for s in stmts_walk(body):
        for e in stmt_exprs(s):
            for x in expr_walk(e):
                yield x, s
