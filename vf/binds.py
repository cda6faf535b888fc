"""Table of the Python names that bindings.cpp gives to C++ members and functions.

Built from the token stream of the file (comments and layout do not matter).
{class or "": {python name: Bind}}"""
import os
import re
from . import project as P

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|R"\((?:.*?)\)"|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[A-Za-z_]\w*|\d[\w.]*(?:[eE][+-]?\d+)?|::|->|[^\s]', re.S)


class Tok(str):
    pos = -1


class Bind:
    def __init__(self, cls, name, kind, line):
        self.cls, self.name, self.kind, self.line = cls, name, kind, line
        self.target = None      # member or function bound
        self.getter = self.setter = None    # token lists of lambdas
        self.args = []          # [(name, default tokens or None)]
        self.body = None
        self.src = None         # source text of the first lambda


def tokens(text):
    out = []
    line = 1
    pos = 0
    for m in TOK.finditer(text):
        line += text.count("\n", pos, m.start())
        pos = m.start()
        t = Tok(m.group())
        t.pos = pos
        if t.startswith("//") or t.startswith("/*"):
            continue
        out.append((t, line))
    return out


def _close(ts, i):
    """index of the bracket closing the one at i"""
    d = 0
    for j in range(i, len(ts)):
        if ts[j][0] in "([{" and len(ts[j][0]) == 1:
            d += 1
        elif ts[j][0] in ")]}" and len(ts[j][0]) == 1:
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced brackets in bindings.cpp, line %s" % ts[i][1])


def _split(ts):
    """split a token list at its top-level commas"""
    out, cur, d, ang = [], [], 0, 0
    for k, (t, l) in enumerate(ts):
        if t in ("(", "[", "{"):
            d += 1
        elif t in (")", "]", "}"):
            d -= 1
        elif t == "<" and d == 0:
            ang += 1
        elif t == ">" and d == 0 and ang:
            ang -= 1
        if t == "," and d == 0 and ang == 0:
            out.append(cur)
            cur = []
        else:
            cur.append((t, l))
    if cur:
        out.append(cur)
    return out


_memo = {}


def table(path=None):
    path = path or os.path.join(P.REPO, "uxsim/trafficpp/bindings.cpp")
    if path in _memo:
        return _memo[path]
    ts = tokens(open(path, encoding="utf-8").read())
    out = {}
    i = 0
    while i < len(ts):
        t = ts[i][0]
        if t == "class_" and i + 1 < len(ts) and ts[i + 1][0] == "<":
            j = i + 2
            while ts[j][0] != ">" and ts[j][0] != ",":
                j += 1
            cls = ts[j - 1][0]
            while ts[j][0] != "(":
                j += 1
            i = _close(ts, j) + 1
            i = _chain(ts, i, cls, out)
            continue
        if t == "m" and ts[i + 1][0] == "." and ts[i + 2][0] == "def":
            i = _chain(ts, i + 1, "", out)
            continue
        i += 1
    _memo[path] = out
    return out


def _chain(ts, i, cls, out):
    while i + 2 < len(ts) and ts[i][0] == "." and ts[i + 1][0].startswith("def"):
        kind, line = ts[i + 1]
        j = i + 2
        while ts[j][0] != "(":
            j += 1
        k = _close(ts, j)
        parts = _split(ts[j + 1:k])
        i = k + 1
        if not parts or not parts[0] or not parts[0][0][0].startswith('"'):
            if parts and any(t == "init" for t, _ in parts[0]):
                b = Bind(cls, "__init__", kind, line)
                _args(b, parts[1:])
                out.setdefault(cls, {})["__init__"] = b
            continue
        b = Bind(cls, parts[0][0][0].strip('"'), kind, line)
        out.setdefault(cls, {})[b.name] = b
        for n, p in enumerate(parts[1:3]):
            if p and p[0][0] == "&" and n == 0:
                ids = [t for t, _ in p if re.match(r"[A-Za-z_]", t)]
                b.target = ids[-1]
            elif p and p[0][0] == "[":
                if n == 0:
                    b.getter = [t for t, _ in p]
                    b.src = (p[0][0].pos, p[-1][0].pos + len(p[-1][0]), p[0][1])
                elif kind == "def_prop_rw":
                    b.setter = [t for t, _ in p]
        _args(b, parts[2:])
    return i


def _args(b, parts):
    for p in parts:
        s = [t for t, _ in p]
        if s[:4] == ["nb", "::", "arg", "("]:
            d = s[s.index(")") + 1:]
            if d[:3] == [".", "none", "("]:
                d = d[4:]
            b.args.append((s[4].strip('"'), "".join(d[1:]) if d[:1] == ["="] else None))


def field(cls, name):
    """C++ member behind a Python attribute name of a bound class (None: not a plain member)"""
    b = table().get(cls, {}).get(name)
    if b is None:
        return None
    if b.target:
        return b.target
    if b.getter:
        # a lambda that returns one member: [](const X &x) { ...; return x.member; }
        g = b.getter
        for k in range(len(g) - 1, -1, -1):
            if g[k] == "return":
                rest = g[k + 1:]
                if len(rest) >= 4 and rest[1] in (".", "->") and rest[3] == ";":
                    return rest[2]
    return None


def lambdas(path=None):
    """C++ source that defines every plain lambda of the bindings as a function bind_<class>_<name>"""
    path = path or os.path.join(P.REPO, "uxsim/trafficpp/bindings.cpp")
    text = open(path, encoding="utf-8").read()
    out = ['#include "traffi.h"', '#include "dta_solver.h"', 'std::ostream *get_pyout();']
    for cls, d in table(path).items():
        for name, b in d.items():
            if not b.src or "nb" in b.getter or any("numpy" in x for x in b.getter):
                continue
            s = text[b.src[0]:b.src[1]]
            m = re.match(r"\[[^\]]*\]\s*(\((?:[^()]|\([^()]*\))*\))\s*((?:mutable|noexcept)?\s*(?:->[^{]*)?)(\{.*)$", s, re.S)
            if not m:
                continue
            out.append('#line %d "%s"' % (b.src[2], path))
            out.append("inline auto bind_%s_%s%s %s %s" % (cls, name, m.group(1), m.group(2), m.group(3)))
    out[0:0] = ["#include " + x for x in re.findall(r"^[ \t]*#[ \t]*include[ \t]*(<[^>]*>)", text, re.M) if "nanobind" not in x and "omp" not in x and "ython" not in x]
    ts = tokens(text)
    free = {b.target or n for n, b in table(path).get("", {}).items()}
    depth = 0
    for i, (t, line) in enumerate(ts):
        if t in ("{", "("):
            depth += 1
        elif t in ("}", ")"):
            depth -= 1
        elif not depth and t in free and i + 1 < len(ts) and ts[i + 1][0] == "(":
            e = _close(ts, i + 1)
            if e is None or e + 1 >= len(ts) or ts[e + 1][0] != "{":
                continue
            k = _close(ts, e + 1)
            b0 = i
            while b0 > 0 and ts[b0 - 1][0] not in (";", "}", "{") and not ts[b0 - 1][0].startswith(("#", "'")):
                b0 -= 1
            if any(str(ts[j][0]) == "nb" or "numpy" in ts[j][0] for j in range(b0, k)):
                continue
            out.append('#line %d "%s"' % (ts[b0][1], path))
            out.append(text[ts[b0][0].pos:ts[k][0].pos + 1])
    return "\n".join(out) + "\n"


def exported(cls, name):
    """the member function is called from Python as it is (bound by its address)"""
    return any(b.target == name for b in table().get(cls, {}).values())
