"""What the pybind11 modules bind, from the lowered PYBIND11_MODULE bodies."""
import re

from .cppfront import N


class Def:
    def __init__(self, cls, kind, name, target, extra, loc):
        self.cls, self.kind, self.name = cls, kind, name
        self.target, self.extra, self.loc = target, extra, loc

    @property
    def args(self):
        """Python's parameter names."""
        return [a[0] for a in (argname(x) for x in self.extra) if a]

    def keeps(self):
        """The (nurse, patient) pairs this binding ties together."""
        out = set()
        for x in self.extra:
            m = re.search(r"keep_alive<(\d+), ?(\d+)>", repr(x))
            if m:
                out.add((int(m[1]), int(m[2])))
        return out

    def policy(self):
        for x in self.extra:
            if isinstance(x, N) and x.k == "enum":
                return str(x.a[0]).split("::")[-1]
        return None


class Cls:
    def __init__(self, name, cpp, module, extra):
        self.name, self.cpp, self.module = name, cpp, module
        self.extra, self.defs = extra, []


def text(x):
    if isinstance(x, N) and x.k == "const" and isinstance(x.a[0], str):
        return x.a[0].strip('"')
    return None


def argname(x):
    """(name, default) of a py::arg."""
    if not isinstance(x, N):
        return None
    if x.k == "asg":
        a = argname(x.a[1])
        return (a[0], x.a[2]) if a else None
    if x.k == "cast":
        return argname(x.a[-1])
    if x.k == "call" and x.a[1] == "operator=" and x.a[2] is not None:
        a = argname(x.a[2])
        return (a[0], (x.a[3] or (None,))[0]) if a else None
    if x.k == "ctor" and x.a[0] in ("pybind11::arg", "pybind11::arg_v"):
        return (text(x.a[2][0]), None) if x.a[2] else None
    return None


def statements(n):
    if isinstance(n, (list, tuple)):
        for x in n:
            yield from statements(x)
    elif isinstance(n, N):
        if n.k == "block":
            yield from statements(n.a[0])
        else:
            yield n


def classes(prog):
    out, var = {}, {}
    for f in sorted((f for f in prog.funcs.values() if f["body"] is not None
                     and f["qual"].startswith("pybind11_init_")),
                    key=lambda f: f["qual"]):
        module = f["qual"][len("pybind11_init_"):]
        if module != "_pyvrp":
            module = module.removesuffix("_pyvrp")
        for s in statements(f["body"]):
            if s.k == "decl":
                e, name = s.a[2], s.a[0]
            elif s.k == "expr":
                e, name = s.a[0], None
            else:
                continue
            chain = []
            while isinstance(e, N) and e.k == "call" and e.a[2] is not None:
                chain.append(e)
                e = e.a[2]
            while isinstance(e, N) and e.k == "cast":
                e = e.a[-1]
            c = None
            if isinstance(e, N) and e.k == "ctor" and \
                    "class_<" in str(e.a[0]):
                m = re.search(r"class_<(.*)>$", str(e.a[0]))
                cpp = split(m[1])[0]
                c = Cls(text(e.a[2][1]), cpp, module, e.a[2][2:])
                out[module, c.name] = c
                if name:
                    var[name] = c
            elif isinstance(e, N) and e.k == "var":
                c = var.get(e.a[0])
            if c is None:
                continue
            for n in reversed(chain):
                add(c, n)
    return out


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch == "<"
        depth -= ch == ">"
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def add(c, n):
    kind, args = n.a[1], list(n.a[3])
    if not kind.startswith("def"):
        return
    first = args[0]
    if text(first) is not None:
        c.defs.append(Def(c, kind, text(first), args[1], args[2:], n.loc))
    elif isinstance(first, N) and first.k == "call":
        c.defs.append(Def(c, kind, "<" + first.a[1] + ">", first, args[1:],
                          n.loc))
    else:
        c.defs.append(Def(c, kind, "<op>", first, args[1:], n.loc))
