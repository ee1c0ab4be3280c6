"""
Guarded dataflow summaries of Python functions (the counterpart of interp.py).

Objects constructed by analysed code are values ("obj", class, fields); names
remember where their value came from (its origin), so a mutation through one
name reaches the others.  Objects that come from outside are opaque: reading an
attribute gives a term, and a method of unknown effect gives a result that
depends on the object's history so far and leaves the object changed.
"""
import ast
from fractions import Fraction

from .interp import Event, Frame, Interp, State, Summary
from .vn import NOTNONE, VN

INLINE = 14
IDENTITY = {"list", "tuple", "iter"}
IDENTITY_M = {"copy", "tolist", "__iter__"}
FOLDED = {"LShift": lambda x, y: x << y, "RShift": lambda x, y: x >> y,
          "BitOr": lambda x, y: x | y, "BitAnd": lambda x, y: x & y,
          "BitXor": lambda x, y: x ^ y, "Pow": lambda x, y: x ** y}
TYPES = ("ext", "class", "native")
IMPURE = {"add_client", "append", "insert", "rand", "randint", "shuffle",
          "add_operator", "clear", "update", "remove", "extend", "pop",
          "__call__", "__setitem__", "set", "reset", "load", "sort"}
ARG0 = {"numpy.fill_diagonal"}


class PyFrame(Frame):
    def __init__(self, func, this=None, fid="0", module=None, lex=None):
        super().__init__(func, this)
        self.fid, self.module, self.lex = fid, module, lex
        self.selfname = None
        self.origin = {}
        self.cls = None
        self.local = set()


def names_bound(body):
    """Names a function body binds (its local variables)."""
    out = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


class PyInterp(Interp):
    def __init__(self, prog, vn=None, pure=(), ignore=(), opaque=None,
                 limit=30, blind=(), models=(), effects=()):
        # functions and methods called for what they do: one common history
        self.effects = set(effects)
        # library function -> function of the specification that stands for it
        self.models = dict(models)
        self.pure_names = set(pure)
        self.ignore = set(ignore)
        self.blind = dict(blind)
        vn = vn or VN(prog.enums)
        vn.python = True
        super().__init__(prog, vn=vn, opaque=opaque, limit=limit)
        self.known = set()
        self.native_pure = set()
        for n, s in prog.stubs.items():
            self.known |= set(s.methods) | set(s.attrs)
            if n not in ("RandomNumberGenerator", "LocalSearch",
                         "DynamicBitset"):
                self.native_pure |= set(s.methods) - IMPURE
        for m in prog.modules.values():
            for k, d in m.defs.values():
                if k == "class":
                    self.known |= set(d.methods) | set(d.props) | \
                        set(d.fields)

    def reset(self):
        super().reset()
        self.types = {}
        self.ptypes = {}
        self.clocks = {}
        self.consts = {}
        self.tmp = 0

    # ------------------------------------------------------------------ api
    def summarise(self, f, args=None, this=None):
        vn = self.vn
        self.reset()
        vn.allow(self.limit)
        st = State({}, vn.T)
        fr = PyFrame(f, None, "0", f["module"])
        fr.local = names_bound(f["body"])
        names = f["names"] + f["kwonly"]
        for i, n in enumerate(names):
            t = ("arg", i)
            st.env[(f"{n}@0",)] = vn.leaf(t)
            fr.local.add(n)
            self.note_type(f, n, t)
        for n in (f["vararg"], f["kwarg"]):
            if n:
                fr.local.add(n)
                st.env[(f"{n}@0",)] = vn.leaf(("arg", n))
        self.frames.append(fr)
        self.stack.append(f["qual"])
        end = self.exec(f["body"], st, fr)
        self.frames.pop()
        outs = [end] + [s for _, _, s in fr.returns]
        fin = self.join_many([s for s in outs if s.pc != vn.F]) or \
            State(dict(end.env), vn.F)
        s = Summary()
        s.events, s.unknown, s.state = self.events, self.unknown, fin
        s.throws = []
        s.ret = self.result(fr, end)
        s.throw_guard = vn.OR(*fr.throws)
        s.frame, s.outs = fr, {}
        for i, n in enumerate(names):
            v = self.read_path(fin, (f"{n}@0",))
            if v != vn.leaf(("arg", i)):
                s.outs[i] = v
        s.expanded = dict(self.expanded)
        return s

    def result(self, fr, end):
        vn = self.vn
        rets = [(pc, v) for pc, v, _ in fr.returns]
        if end.pc != vn.F:
            rets.append((end.pc, vn.c(None)))
        if not rets:
            return vn.c(None)
        r = rets[-1][1]
        for pc, v in reversed(rets[:-1]):
            r = vn.ite(pc, v, r)
        return r

    def note_type(self, f, name, t):
        a = f["annot"].get(name)
        if a is None or t[0] in ("c", "obj", "list"):
            return
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            n = a.value
        else:
            n = ast.unparse(a).split("[")[0].split(" |")[0]
        r = self.p.resolve(f["module"], n)
        if r and r[0] in ("class", "native"):
            self.types.setdefault(t, r)

    def type_of(self, v, path=None):
        """("class", Class) | ("native", name) | None"""
        vn = self.vn
        out = None
        for t in vn.leaves(v):
            while t[0] == "after":
                t = t[2]
                if t[0] == "v":
                    return self.type_of(t[1], path)
            if t[0] == "obj":
                r = self.classes(t[1])
            else:
                r = self.types.get(t)
            if t == ("c", None):
                continue
            if r is None:
                return self.ptypes.get(path) if path else None
            if out is not None and r != out:
                return None
            out = r
        if out is not None and path is not None:
            self.ptypes[path] = out
        return out

    def classes(self, qual):
        for m in self.p.modules.values():
            for k, d in m.defs.values():
                if k == "class" and d.qual == qual:
                    return ("class", d)
        return ("native", qual)

    def method(self, cls, name):
        c = cls
        for _ in range(5):
            for t in ("methods", "props"):
                if name in getattr(c, t):
                    return t, getattr(c, t)[name]
            nxt = None
            for b in c.bases:
                r = self.p.resolve(c.module, b.split(".")[-1])
                if r and r[0] == "class":
                    nxt = r[1]
            if nxt is None:
                return None, None
            c = nxt
        return None, None

    # ------------------------------------------------------------ variables
    def scope(self, name, fr):
        f = fr
        while f is not None:
            if name in f.local:
                return f
            f = f.lex
        return None

    def var_path(self, name, st, fr):
        f = self.scope(name, fr)
        if f is None:
            return None
        if name == f.selfname and f.this is not None:
            return f.this
        key = (f"{name}@{f.fid}",)
        o = f.origin.get(name)
        if o is not None and o != key and self.read_path(st, o) == \
                self.read_path(st, key):
            return o
        return key

    def path(self, e, st, fr):
        """The location an expression denotes, or None."""
        if isinstance(e, ast.Name):
            return self.var_path(e.id, st, fr)
        if isinstance(e, ast.NamedExpr):
            return None
        if isinstance(e, ast.Attribute):
            b = self.path(e.value, st, fr)
            if b is None:
                return None
            v = self.read_path(st, b)
            ty = self.type_of(v, b)
            if ty and ty[0] == "class":
                k, f = self.method(ty[1], e.attr)
                if k == "props":
                    body = [s for s in f["body"] if not self.isdoc(s)]
                    if len(body) == 1 and isinstance(body[0], ast.Return) \
                            and isinstance(body[0].value, (ast.Attribute,
                                                           ast.Subscript)):
                        f2 = self.frame(f, b)
                        return self.path(body[0].value, st, f2)
                    return None
                if k == "methods":
                    return None
            return b + (("f", e.attr),)
        if isinstance(e, ast.Subscript) and not self.slices(e.slice):
            b = self.path(e.value, st, fr)
            if b is None:
                return None
            if isinstance(e.slice, ast.Tuple) and not self.isdict(
                    self.read_path(st, b)):
                for x in e.slice.elts:
                    i = self.index(self.ev(x, st, fr), self.read_path(st, b))
                    b += (("i", self.vn.term(i)),)
                return b
            i = self.index(self.ev(e.slice, st, fr), self.read_path(st, b))
            k = self.vn.term(i)
            if k[0] == "c" and isinstance(k[1], str) and self.isdict(
                    self.read_path(st, b)):
                return b + (("f", k[1]),)
            return b + (("i", k),)
        return None

    def isdict(self, v):
        return all(t[0] == "obj" and t[1] == "dict" for t in
                   self.vn.leaves(v))

    def keys_of(self, v):
        """The keys of a dictionary, if they are the same on every path."""
        if not self.isdict(v):
            return None
        ks = {tuple(n for n, _ in t[2]) for t in self.vn.leaves(v)}
        return ks.pop() if len(ks) == 1 else None

    @staticmethod
    def isdoc(s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)

    @staticmethod
    def slices(s):
        return isinstance(s, ast.Slice) or isinstance(s, ast.Tuple) and any(
            isinstance(x, ast.Slice) for x in s.elts)

    def index(self, i, coll):
        """Negative constant indices count from the end."""
        vn = self.vn
        if vn.isleaf(i):
            t = vn.term(i)
            if t[0] == "c" and isinstance(t[1], int) and t[1] < 0:
                return vn.arith("+", self.size(coll), i)
        return i

    def store(self, st, path, val, fr, loc):
        """Write val to a location and to the names that stand for it."""
        old = self.read_path(st, path)
        names = []
        for f in self.frames:
            for n, o in f.origin.items():
                if o == path and not self.shadow(f, n):
                    k = (f"{n}@{f.fid}",)
                    if k in st.env and self.read_path(st, k) == old:
                        names.append(k)
        self.write(st, path, val, fr, loc, silent=True)
        for k in names:
            self.write(st, k, val, fr, loc, silent=True)

    def rebind(self, st, path, val, fr, loc):
        """Put another object at a location: names that stood for the old one
        keep it."""
        for f in self.frames:
            for n, o in list(f.origin.items()):
                if o[:len(path)] == path:
                    k = (f"{n}@{f.fid}",)
                    if k in st.env:
                        v = self.read_path(st, k)
                        if o != path or v == self.read_path(st, path):
                            del f.origin[n]
        self.write(st, path, val, fr, loc, silent=True)

    def shared(self, carried, st):
        out = {}
        for f in self.frames:
            for n, o in f.origin.items():
                k = (f"{n}@{f.fid}",)
                if k in carried and o in carried and k != o and \
                        o not in out and k in st.env and \
                        self.read_path(st, k) == self.read_path(st, o):
                    out[k] = o
        return out

    @staticmethod
    def shadow(f, n):
        return n == f.selfname

    # ------------------------------------------------------------ values
    def none(self, v):
        vn = self.vn

        def f(t):
            if t == ("c", None):
                return vn.T
            if t[0] in NOTNONE:
                return vn.F
            if t[0] == "first" and all(x[0] in ("b", "+", "c") and x[1] is not
                                       None for x in vn.leaves(t[3][1])):
                return vn.F
            return vn.NOT(vn.falsy_leaf(("isnone", t)))
        return vn.apply("isnone", f, v)

    def true(self, v):
        vn = self.vn

        def f(t):
            if t[0] in ("list",):
                return vn.T if len(t) > 1 else vn.F
            if t[0] in ("arr", "filled"):
                return vn.lt(vn.c(0), self.size(vn.leaf(t)))
            if t[0] == "upd":
                return f(t[1])
            if t[0] == "after" and t[1] == "push_back":
                return vn.T
            if t[0] == "c":
                return vn.T if t[1] else vn.F
            if t[0] in ("+", "sum"):
                return vn.NOT(vn.eq_leaf(t, ("c", 0), True))
            if t[0] == "obj" and t[1] == "dict":
                return vn.T if t[2] else vn.F
            if t[0] in ("class", "native", "enum", "limit") or \
                    t[:2] == ("call", "str") or t[:2] == ("call", "cat") and \
                    any(x[0] == "c" for x in t):
                return vn.T
            return vn.NOT(vn.falsy_leaf(t))
        return vn.apply("pytrue", f, v)

    def listlike(self, v):
        return all(t[0] in ("list", "arr", "filled") or t[0] == "after" and
                   t[1] == "push_back" for t in self.vn.leaves(v))

    def mklist(self, *vals):
        vn = self.vn
        if not vals:
            return vn.leaf(("list",))
        return vn.leaf(("list", *[vn.term(v) for v in vals]))

    def array(self, n, getter):
        """The list [getter(0), ..., getter(n - 1)]."""
        vn = self.vn
        if vn.isleaf(n) and vn.term(n)[0] == "c" and \
                isinstance(vn.term(n)[1], int) and vn.term(n)[1] <= 8:
            return self.mklist(*[getter(vn.c(i))
                                 for i in range(vn.term(n)[1])])
        it = ("it", self.level)
        vn.nonneg_hint.add(it)
        body = getter(vn.leaf(it))
        b, (body,) = vn.close(it, body)
        return vn.leaf(("arr", ("range", ("c", 0), vn.term(n), b),
                        ("v", body), ("len", vn.term(n))))

    def nested(self, n, getter):
        """An array within one that is being built."""
        self.level += 1
        try:
            return self.array(n, getter)
        finally:
            self.level -= 1

    def shaped(self, shape, getter, *ix):
        """An array of this shape (a number or a list of numbers)."""
        vn = self.vn
        dims = [vn.unwrap(x) for x in vn.term(shape)[1:]] if vn.isleaf(
            shape) and vn.term(shape)[0] == "list" else [shape]

        def make(k, ix):
            if k == len(dims):
                return getter(*ix)
            self.level += k
            try:
                return self.array(dims[k], lambda i: make(k + 1, ix + (i,)))
            finally:
                self.level -= k
        return make(0, ())

    def concat(self, parts):
        """parts: list values and ('one', value) items."""
        vn = self.vn
        if all(p[0] == "one" for p in parts):
            return self.mklist(*[p[1] for p in parts])
        flat = []
        for k, v in parts:
            t = vn.term(v)
            if k == "all" and t[0] == "list":
                flat += [("one", vn.unwrap(x)) for x in t[1:]]
            else:
                flat.append((k, v))
        parts = flat
        if all(p[0] == "one" for p in parts):
            return self.mklist(*[p[1] for p in parts])
        if len(parts) == 1:
            return parts[0][1]
        pos, n = [], vn.c(0)
        for k, v in parts:
            pos.append(n)
            n = vn.arith("+", n, vn.c(1) if k == "one" else self.size(v))

        def get(i):
            r = None
            for (k, v), p in reversed(list(zip(parts, pos))):
                x = v if k == "one" else self.elem(v, vn.arith("-", i, p))
                if r is None:
                    r = x
                else:
                    end = vn.arith("+", p, vn.c(1) if k == "one" else
                                   self.size(v))
                    r = vn.ite(vn.lt(i, end), x, r)
            return r
        return self.array(n, get)

    def size(self, v):
        vn = self.vn

        def f(t):
            if t[0] == "after" and t[1] == "push_back":
                return vn.arith("+", f(t[2]) if t[2][0] != "v" else
                                self.size(t[2][1]), vn.c(1))
            if t[0] == "obj" and t[1] == "dict":
                return vn.c(len(t[2]))
            return super(PyInterp, self).size(vn.leaf(t))
        return vn.apply("pysize", f, v)

    def elem(self, v, i):
        vn = self.vn

        def f(t, k):
            if t[0] == "obj" and t[1] == "dict" and k[0] == "c":
                for n, w in t[2]:
                    if n == k[1]:
                        return vn.unwrap(w)
            if t[0] == "upd" and t[2][0] == "f":
                if k == ("c", t[2][1]):
                    return vn.unwrap(t[3])
                return f(t[1], k)
            return super(PyInterp, self).elem(vn.leaf(t), vn.leaf(k))
        return vn.apply("pyelem", f, v, i)

    # -------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        vn = self.vn
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.unk("expr " + type(e).__name__, self.loc(e, fr))
            return vn.leaf(("unk", type(e).__name__))
        return m(e, st, fr)

    def loc(self, e, fr):
        return (str(fr.module.path), getattr(e, "lineno", 0))

    def unk(self, what, loc):
        if self.recording:
            self.unknown.append((what, loc))
        return self.vn.leaf(("unk", what))

    def ev_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            v = repr(v)
        if isinstance(v, float) and v == int(v) if isinstance(v, float) and \
                abs(v) < 1e15 else False:
            v = int(v)
        elif isinstance(v, float):
            v = Fraction(str(v))
        return self.vn.c(v)

    def ev_Name(self, e, st, fr):
        vn = self.vn
        f = self.scope(e.id, fr)
        if f is not None:
            if e.id == f.selfname and f.this is not None:
                return self.read_path(st, f.this)
            return self.read_path(st, (f"{e.id}@{f.fid}",))
        return self.global_value(e.id, fr.module, st, fr)

    def global_value(self, name, mod, st, fr):
        vn = self.vn
        r = self.p.resolve(mod, name)
        if r is None:
            if name in ("True", "False", "None"):
                return vn.c(eval(name))
            return vn.leaf(("ext", name))
        return self.symbol(r, st, fr)

    def symbol(self, r, st, fr):
        vn = self.vn
        if r[0] == "const":
            key = (r[1].name, r[2])
            if key not in self.consts:
                f2 = PyFrame(None, None, "m", r[1])
                self.frames.append(f2)
                self.consts[key] = self.ev(r[1].consts[r[2]],
                                           State({}, vn.T), f2)
                self.frames.pop()
            return self.consts[key]
        if r[0] == "func":
            return vn.leaf(("pyfunc", r[1]["qual"]))
        if r[0] == "class":
            return vn.leaf(("class", r[1].qual))
        if r[0] == "native":
            return vn.leaf(("native", r[1]))
        if r[0] == "module":
            return vn.leaf(("module", r[1]))
        return vn.leaf(("ext", r[1]))

    def ev_Attribute(self, e, st, fr):
        vn = self.vn
        p = self.path(e.value, st, fr)
        b = self.read_path(st, p) if p is not None else \
            self.ev(e.value, st, fr)
        return self.attr(b, p, e.attr, st, fr, self.loc(e, fr))

    def attr(self, b, p, name, st, fr, loc):
        vn = self.vn
        t = vn.term(b)
        if t[0] == "module":
            r = self.p.member(t[1], name)
            return self.symbol(r, st, fr)
        if t == ("call", "numpy.iinfo", ("ext", "numpy.int64")) and \
                name in ("max", "min"):
            return vn.leaf(("limit", name))
        if t[0] == "ext":
            return vn.leaf(("ext", t[1] + "." + name))
        if t[0] == "native" and t[1] in self.vn.enums:
            return vn.leaf(("enum", f"{t[1]}::{name}"))
        if t[0] in ("native", "class"):
            return vn.leaf(("member", t, name))
        ty = self.type_of(b, p)
        if ty and ty[0] == "class":
            k, f = self.method(ty[1], name)
            opaque = not all(x[0] == "obj" or x == ("c", None)
                             for x in vn.leaves(b))
            if k == "props" and not opaque:
                return self.call_py(f, p if p is not None else
                                    self.temp(b, st), [], {}, st, fr)
            if k == "methods":
                return vn.leaf(("bound", t, name))
        if p is not None:
            return self.read_path(st, p + (("f", name),))
        return self.field(b, name)

    def temp(self, v, st):
        self.tmp += 1
        k = (f"tmp{self.tmp}@t",)
        st.env[k] = v
        return k

    def ev_Subscript(self, e, st, fr):
        vn = self.vn
        p = self.path(e.value, st, fr)
        b = self.read_path(st, p) if p is not None else \
            self.ev(e.value, st, fr)
        s = e.slice
        if isinstance(s, ast.Slice) and s.step is None:
            n = self.size(b)

            def bound(x, d):
                if x is None:
                    return d
                v = self.ev(x, st, fr)
                return self.index(v, b)
            lo, hi = bound(s.lower, vn.c(0)), bound(s.upper, n)
            return self.array(vn.arith("-", hi, lo),
                              lambda i: self.elem(b, vn.arith("+", i, lo)))
        if self.slices(s):
            return self.mkcall("slice", b, *self.subscripts(s, st, fr))
        if isinstance(s, ast.Tuple) and not self.isdict(b):
            for x in s.elts:
                b = self.elem(b, self.index(self.ev(x, st, fr), b))
            return b
        i = self.index(self.ev(s, st, fr), b)
        k = vn.term(i)
        if p is not None and not (k[0] == "c" and isinstance(k[1], str) and
                                  self.isdict(b)):
            return self.read_path(st, p + (("i", k),))
        if k[0] == "c" and isinstance(k[1], str) and self.isdict(b):
            return self.field(b, k[1])
        return self.elem(b, i)

    def subscripts(self, s, st, fr):
        none = self.vn.c(None)
        return [self.mkcall("part", *[
            none if y is None else self.ev(y, st, fr)
            for y in (x.lower, x.upper, x.step)])
            if isinstance(x, ast.Slice) else self.ev(x, st, fr)
            for x in (s.elts if isinstance(s, ast.Tuple) else [s])]

    def ev_Tuple(self, e, st, fr):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(("all", self.ev(x.value, st, fr)))
            else:
                parts.append(("one", self.ev(x, st, fr)))
        return self.concat(parts)

    ev_List = ev_Tuple

    def ev_Set(self, e, st, fr):
        return self.mkcall("set", *[self.ev(x, st, fr) for x in e.elts])

    def ev_Dict(self, e, st, fr):
        vn = self.vn
        fs = {}
        for k, v in zip(e.keys, e.values):
            w = self.ev(v, st, fr)
            kt = vn.term(self.ev(k, st, fr)) if k is not None else None
            if kt is None or kt[0] != "c" or not isinstance(kt[1], str):
                self.unk("dict key", self.loc(e, fr))
                continue
            fs[kt[1]] = vn.term(w)
        return vn.leaf(("obj", "dict", tuple(sorted(fs.items()))))

    def ev_JoinedStr(self, e, st, fr):
        vn = self.vn
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(vn.c(x.value))
            else:
                v = self.ev(x.value, st, fr)
                if x.format_spec is not None or x.conversion == 114:
                    v = self.mkcall("fmt", vn.c(x.conversion), vn.c(
                        ast.unparse(x.format_spec) if x.format_spec else ""),
                        v)
                parts.append(v)
        return self.cat(*parts)

    def text(self, v):
        """str(v)"""
        vn = self.vn

        def f(t):
            if t[0] == "c" and isinstance(t[1], str) or t[0] == "call" and \
                    t[1] in ("str", "cat", "fmt", ".join"):
                return vn.leaf(t)
            if t[0] == "c" and (t[1] is None or isinstance(t[1], (bool, int))):
                return vn.c(str(t[1]))
            return vn.leaf(("call", "str", t))
        return vn.apply("text", f, v)

    def cat(self, *parts):
        """Texts one after the other."""
        vn = self.vn

        def f(*ts):
            out = []
            for t in ts:
                for x in (t[2:] if t[:2] == ("call", "cat") else (t,)):
                    if x == ("c", ""):
                        continue
                    if out and out[-1][0] == x[0] == "c":
                        out[-1] = ("c", out[-1][1] + x[1])
                    else:
                        out.append(x)
            if len(out) < 2:
                return vn.leaf(out[0]) if out else vn.c("")
            return vn.leaf(("call", "cat") + tuple(out))
        return vn.apply("cat", f, *[self.text(x) for x in parts])

    def ev_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.bind(e.target, v, st, fr, e.value)
        return v

    def ev_Lambda(self, e, st, fr):
        n = len(self.closures)
        self.closures[n] = (e, fr)
        return self.vn.leaf(("closure", n))

    def ev_Starred(self, e, st, fr):
        return self.mkcall("*", self.ev(e.value, st, fr))

    def ev_IfExp(self, e, st, fr):
        vn = self.vn
        c = self.cond(e.test, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = vn.AND(st.pc, c), vn.AND(st.pc, vn.NOT(c))
        a = self.ev(e.body, s1, fr)
        b = self.ev(e.orelse, s2, fr)
        self.merge(st, s1, s2)
        return vn.ite(c, a, b)

    def merge(self, st, s1, s2):
        j = self.join(s1, s2)
        st.env, st.pc = j.env, j.pc

    def cond(self, e, st, fr):
        return self.true(self.ev(e, st, fr))

    def ev_BoolOp(self, e, st, fr):
        vn = self.vn
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st, fr)
        for x in e.values[1:]:
            c = self.true(v)
            go = c if isand else vn.NOT(c)
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = vn.AND(st.pc, go), vn.AND(st.pc, vn.NOT(go))
            w = self.ev(x, s1, fr)
            self.merge(st, s1, s2)
            v = vn.ite(go, w, v)
        return v

    def ev_UnaryOp(self, e, st, fr):
        vn = self.vn
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return vn.NOT(self.true(v))
        if isinstance(e.op, ast.USub):
            return vn.arith("-", vn.c(0), v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.mkcall("~", v)

    def ev_BinOp(self, e, st, fr):
        return self.binop_py(e.op, self.ev(e.left, st, fr),
                             self.ev(e.right, st, fr))

    def isstr(self, v):
        return any(t[0] == "c" and isinstance(t[1], str) or t[0] == "call"
                   and t[1] in ("str", ".join", "cat", "fmt")
                   for t in self.vn.leaves(v))

    def binop_py(self, op, a, b):
        vn = self.vn
        n = type(op).__name__
        if n == "Add":
            if self.isstr(a) or self.isstr(b):
                return self.cat(a, b)
            if self.listlike(a) or self.listlike(b):
                return self.concat([("all", a), ("all", b)])
            return vn.arith("+", self.num(a), self.num(b))
        if n == "Sub":
            return vn.arith("-", self.num(a), self.num(b))
        if n == "Mult":
            for x, y in ((a, b), (b, a)):
                t = vn.term(x)
                if t[0] == "list":
                    if any(u[0] in ("list", "arr", "obj", "after", "upd",
                                    "filled") for u in t[1:]):
                        # every cell is the same object
                        return self.unk("repeated object", ("", 0))
                    if len(t) == 2:
                        return vn.leaf(("filled", vn.term(y), t[1]))
                    return self.mkcall("repeat", x, y)
            return vn.arith("*", self.num(a), self.num(b))
        if n == "Div":
            if self.type_of(a) is None and vn.term(b)[0] == "call" or \
                    self.isstr(b):
                return self.mkcall("path/", a, b)
            return self.div(a, b)
        if n in ("Mod", "FloorDiv"):
            if n == "Mod" and self.isstr(a):
                return self.mkcall("str%", a, b)
            k = "pymod" if n == "Mod" else "pydiv"

            def f(x, y):
                if x[0] == "c" and y[0] == "c" and y[1]:
                    return vn.c(x[1] % y[1] if n == "Mod" else x[1] // y[1])
                if y == ("c", 1):
                    return vn.c(0) if n == "Mod" else vn.leaf(x)
                return vn.leaf((k, x, y))
            return vn.apply(k, f, self.num(a), self.num(b))
        x, y = vn.term(a), vn.term(b)
        if n in FOLDED and all(t[0] == "c" and type(t[1]) is int
                               for t in (x, y)) and 0 <= y[1] < 128:
            return vn.c(FOLDED[n](x[1], y[1]))
        if n == "Pow" and b == vn.c(2):
            return vn.arith("*", self.num(a), self.num(a))
        return self.mkcall("py" + n, a, b)

    def div(self, a, b):
        vn = self.vn

        def f(x, y):
            if y[0] == "c" and isinstance(y[1], (int,)) and y[1]:
                c = Fraction(1, y[1])
                return vn.leaf(vn.tmul(x, ("c", c if c.denominator != 1
                                           else int(c))))
            return vn.leaf(("truediv", x, y))
        return vn.apply("truediv", f, a, b)

    def num(self, v):
        """Booleans used as numbers."""
        vn = self.vn
        return vn.apply("boolnum", lambda t: vn.c(int(t[1])) if t[0] == "c"
                        and isinstance(t[1], bool) else vn.leaf(t), v)

    def ev_Compare(self, e, st, fr):
        vn = self.vn
        left = self.ev(e.left, st, fr)
        out = vn.T
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            n = type(op).__name__
            g = None
            if n in ("Eq", "NotEq"):
                g = self.custom_eq(left, right, e.left, r, st, fr)
                if g is not None and n == "NotEq":
                    g = vn.NOT(g)
            if g is None:
                g = self.compare_py(n, left, right)
            out = vn.AND(out, g)
            left = right
        return out

    def custom_eq(self, a, b, ea, eb, st, fr):
        """Equality of objects of the repository's own classes."""
        vn = self.vn
        ty = self.type_of(a)
        if not ty or ty[0] != "class" or not all(
                t[0] == "obj" for t in vn.leaves(a)):
            return None
        k, f = self.method(ty[1], "__eq__")
        if f is not None:
            return self.true(self.call_py(
                f, self.path(ea, st, fr) or self.temp(a, st),
                [(b, self.path(eb, st, fr))], {}, st, fr))
        if ty[1].dataclass and all(t[0] == "obj" and t[1] == ty[1].qual
                                   for t in vn.leaves(b)):
            return vn.AND(*[self.equal(self.field(a, n), self.field(b, n))
                            for n in ty[1].fields])
        return None

    def compare_py(self, n, a, b):
        vn = self.vn
        if n in ("Is", "IsNot", "Eq", "NotEq"):
            if b == vn.c(None):
                g = self.none(a)
            elif a == vn.c(None):
                g = self.none(b)
            elif n in ("Is", "IsNot") and not (
                    vn.term(b)[0] in ("ext", "c", "enum", "class")):
                g = vn.eq(self.ident(a), self.ident(b))
            else:
                g = self.equal(a, b)
            return vn.NOT(g) if n in ("IsNot", "NotEq") else g
        if n in ("In", "NotIn"):
            g = self.contains(a, b)
            return vn.NOT(g) if n == "NotIn" else g
        a, b = self.num(a), self.num(b)
        if n == "Lt":
            return vn.lt(a, b, False)
        if n == "Gt":
            return vn.lt(b, a, False)
        if n == "LtE":
            return vn.NOT(vn.lt(b, a, False))
        return vn.NOT(vn.lt(a, b, False))

    def equal(self, a, b):
        vn = self.vn

        def f(x, y):
            if x[0] in TYPES and y[0] in TYPES:
                return vn.T if x == y else vn.F
            if x[0] == "list" and y[0] == "list":
                if len(x) != len(y):
                    return vn.F
                return vn.AND(vn.T, *[self.equal(vn.unwrap(p), vn.unwrap(q))
                                      for p, q in zip(x[1:], y[1:])])
            for p, q in ((x, y), (y, x)):
                if p[0] == "c" and (p[1] is None or isinstance(p[1], bool)):
                    if q[0] == "c":
                        return vn.T if p[1] == q[1] else vn.F
                    if p[1] is None:
                        return self.none(vn.leaf(q))
                    return vn.node_of_var(vn.var(("eq", p, q)))
                if p[0] == "c" and isinstance(p[1], (int,)) or p[0] in (
                        "size", "+", "sum"):
                    return vn.eq_leaf(x, y, True)
            return vn.eq_leaf(x, y)
        return vn.apply("pyeq", f, a, b)

    def ident(self, v):
        vn = self.vn

        def f(t):
            if t[0] == "upd" and t[2][0] == "f":  # still the same object
                return self.ident(vn.unwrap(t[1]))
            return vn.leaf(("call", "id", t))
        return vn.apply("id", f, v)

    def contains(self, a, b):
        vn = self.vn
        tb = vn.term(b)
        ks = self.keys_of(b)
        if ks is not None:
            return vn.OR(*[self.equal(a, vn.c(n)) for n in ks])
        if tb[0] == "list":
            return vn.OR(*[self.equal(a, vn.unwrap(x)) for x in tb[1:]])
        return self.true(self.mkcall("in", a, b))

    # ------------------------------------------------------ comprehensions
    def iterable(self, e, st, fr):
        """(number of items, item number -> (value, path or None))"""
        vn = self.vn
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                self.scope(e.func.id, fr) is None and \
                self.p.resolve(fr.module, e.func.id) is None:
            n, a = e.func.id, e.args
            if n == "range":
                v = [self.ev(x, st, fr) for x in a]
                lo, hi = (vn.c(0), v[0]) if len(v) == 1 else v[:2]
                if len(v) < 3:
                    return vn.arith("-", hi, lo), lambda i: (
                        vn.arith("+", lo, i), None)
            if n == "enumerate":
                k, get = self.iterable(a[0], st, fr)
                start = vn.c(0)
                if len(a) > 1:
                    start = self.ev(a[1], st, fr)
                for kw in e.keywords:
                    start = self.ev(kw.value, st, fr)
                return k, lambda i: (
                    [(vn.arith("+", i, start), None), get(i)], None)
            if n == "zip":
                its = []
                for x in a:
                    if not isinstance(x, ast.Starred):
                        its.append(self.iterable(x, st, fr))
                        continue
                    t = vn.term(self.ev(x.value, st, fr))
                    if t[0] != "list":
                        self.unk("zip of any number", self.loc(e, fr))
                        return vn.leaf(("unk", "zip", "")), lambda i: (
                            vn.leaf(("unk", "zip", "")), None)
                    for y in t[1:]:
                        y = vn.unwrap(y)
                        its.append((self.size(y), lambda i, y=y: (
                            self.elem(y, i), None)))
                k = its[0][0]
                for m, _ in its[1:]:
                    if m != k:
                        k = vn.ite(vn.lt(m, k), m, k)
                return k, lambda i: ([g(i) for _, g in its], None)
            if n == "reversed":
                k, get = self.iterable(a[0], st, fr)
                return k, lambda i: get(vn.arith("-", vn.arith(
                    "-", k, i), vn.c(1)))
        p = self.path(e, st, fr)
        v = self.read_path(st, p) if p is not None else self.ev(e, st, fr)
        ks = self.keys_of(v)
        if ks is not None:
            v, p = self.mklist(*[vn.c(n) for n in ks]), None

        def get(i):
            if p is not None:
                q = p + (("i", vn.term(i)),)
                return self.elem(v, i), q
            return self.elem(v, i), None
        return self.size(v), get

    def value_of(self, item):
        if isinstance(item[0], list):
            return self.mklist(*[self.value_of(x) for x in item[0]])
        return item[0]

    def bind_item(self, target, item, st, fr):
        v, p = item
        if isinstance(v, list) and isinstance(target, (ast.Tuple, ast.List)) \
                and len(target.elts) == len(v) and not any(
                    isinstance(x, ast.Starred) for x in target.elts):
            for t, x in zip(target.elts, v):
                self.bind_item(t, x, st, fr)
            return
        if p is not None:  # (as it is now: the body may have changed it)
            v = self.read_path(st, p)
        else:
            v = self.value_of(item)
        self.bind(target, v, st, fr, None, p)

    def run_loop(self, target, it, body, st, fr, loc):
        """for target in it: body(state)"""
        vn = self.vn
        n, get = it
        if vn.isleaf(n) and vn.term(n)[0] == "c" and isinstance(
                vn.term(n)[1], int) and vn.term(n)[1] <= 9:
            return self.unrolled(target, vn.term(n)[1], get, body, st, fr)
        dom, i = self.domain(vn.c(0), n)

        def run(s):
            self.bind_item(target, get(i), s, fr)
            return body(s)
        return self.loop(st, fr, dom, run, loc)

    def unrolled(self, target, n, get, body, st, fr):
        """A loop over a short literal sequence."""
        vn = self.vn
        fr.loops.append(dict(breaks=[], continues=[]))
        cur = st
        for k in range(n):
            if cur.pc == vn.F:
                break
            self.bind_item(target, get(vn.c(k)), cur, fr)
            cur = body(cur)
            cs = fr.loops[-1]["continues"]
            cur = self.join_many([x for x in [cur] + cs if x.pc != vn.F]) or \
                cur
            fr.loops[-1]["continues"] = []
        outs = [cur] + fr.loops.pop()["breaks"]
        j = self.join_many([x for x in outs if x.pc != vn.F]) or cur
        st.env, st.pc = j.env, j.pc
        return st

    def comp(self, gens, st, fr, leaf):
        """Run leaf(state, frame) for every combination of the generators."""
        f2 = PyFrame(fr.func, fr.this, fr.fid + "c", fr.module, fr)
        f2.cls, f2.selfname = fr.cls, None
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    f2.local.add(x.id)
        self.frames.append(f2)

        def level(k, s):
            if k == len(gens):
                leaf(s, f2)
                return s
            g = gens[k]

            def body(x):
                for c in g.ifs:
                    t = self.cond(c, x, f2)
                    skip = x.copy()
                    skip.pc = self.vn.AND(x.pc, self.vn.NOT(t))
                    f2.loops[-1]["continues"].append(skip)
                    x.pc = self.vn.AND(x.pc, t)
                if x.pc == self.vn.F:
                    return x
                return level(k + 1, x)
            return self.run_loop(g.target, self.iterable(g.iter, s, f2),
                                 body, s, f2, self.loc(g.iter, fr))
        level(0, st)
        self.frames.pop()
        fr.throws.extend(f2.throws)

    def accumulate(self, gens, st, fr, init, step):
        """Loop over the generators with one accumulator."""
        vn = self.vn
        self.tmp += 1
        key = (f"acc{len(self.frames)}_{self.level}@a",)
        saved = st.env.get(key)
        st.env[key] = init

        def leaf(s, f2):
            s.env[key] = step(s, f2, s.env[key])
        self.comp(gens, st, fr, leaf)
        v = st.env.pop(key)
        if saved is not None:
            st.env[key] = saved
        return v

    def pushed(self, old, w):
        vn = self.vn
        return vn.apply(("push", w), lambda t: self.push1(t, w), old)

    def push1(self, t, w):
        vn = self.vn
        if t[0] == "list" and len(t) < 12:
            return vn.leaf(t + (vn.term(w),))
        return vn.leaf(("after", "push_back", t, vn.term(w)))

    def ev_ListComp(self, e, st, fr):
        return self.accumulate(
            e.generators, st, fr, self.mklist(),
            lambda s, f2, acc: self.pushed(acc, self.ev(e.elt, s, f2)))

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st, fr):
        return self.mkcall("set", self.ev_ListComp(e, st, fr))

    def ev_DictComp(self, e, st, fr):
        vn = self.vn

        def step(s, f2, acc):
            k = vn.term(self.ev(e.key, s, f2))
            w = self.ev(e.value, s, f2)
            if k[0] == "c" and isinstance(k[1], str):
                return self.upd(acc, ("f", k[1]), w)
            return self.upd(acc, ("i", k), w)
        return self.accumulate(e.generators, st, fr,
                               vn.leaf(("obj", "dict", ())), step)

    # --------------------------------------------------------------- calls
    def args_of(self, e, st, fr):
        """(positional [(value, path)], keywords {name: (value, path)},
        opaque: there are unexpanded stars)"""
        vn = self.vn
        pos, kws, rest = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                t = vn.term(v)
                if t[0] == "list":
                    pos += [(vn.unwrap(x), None) for x in t[1:]]
                else:
                    rest.append(("*", v))
            else:
                pos.append((self.ev(a, st, fr), self.path(a, st, fr)))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                ks = self.keys_of(v)
                if ks is not None:
                    for n in ks:
                        kws[n] = (self.field(v, n), None)
                else:
                    rest.append(("**", v))
            else:
                kws[k.arg] = (v, self.path(k.value, st, fr))
        return pos, kws, rest

    def ev_Call(self, e, st, fr):
        vn = self.vn
        loc = self.loc(e, fr)
        fn = e.func
        # super().__init__ and the like
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) \
                and isinstance(fn.value.func, ast.Name) and \
                fn.value.func.id == "super":
            return vn.c(None)
        if isinstance(fn, ast.Attribute):
            p = self.path(fn.value, st, fr)
            b = self.read_path(st, p) if p is not None else \
                self.ev(fn.value, st, fr)
            t = vn.term(b)
            if t[0] in ("module", "ext", "class", "native"):
                cv = self.attr(b, p, fn.attr, st, fr, loc)
                return self.invoke(cv, None, e, st, fr)
            return self.call_method(b, p, fn, e, st, fr)
        if isinstance(fn, ast.Name) and self.scope(fn.id, fr) is None and \
                self.p.resolve(fr.module, fn.id) is None:
            return self.builtin_py(fn.id, e, st, fr)
        p = self.path(fn, st, fr)
        cv = self.read_path(st, p) if p is not None else self.ev(fn, st, fr)
        return self.invoke(cv, p, e, st, fr)

    def invoke(self, cv, p, e, st, fr):
        vn = self.vn
        loc = self.loc(e, fr)
        t = vn.term(cv)
        if t[0] == "ext":
            return self.external(t[1], e, st, fr)
        if t[0] == "v":
            # a choice between callables: call each under its guard
            ls = vn.leaf_guards(t[1]) if hasattr(vn, "leaf_guards") else None
            if ls and all(x[0] in ("pyfunc", "closure", "class")
                          for x, _ in ls):
                pass
        pos, kws, rest = self.args_of(e, st, fr)
        if t[0] == "pyfunc":
            f = self.p.find(t[1])[0]
            if rest or self.opaque(f) or len(self.frames) > INLINE or \
                    f["name"] in self.ignore:
                vals = self.bound(f, pos, kws)
                self.effect(f["name"], vals, rest, st)
                return self.opaque_call("pyvrp::" + f["name"], vals, rest)
            return self.call_py(f, None, pos, kws, st, fr)
        if t[0] == "closure":
            return self.call_closure(t[1], pos, kws, st, fr)
        if t[0] == "class":
            c = self.classes(t[1])[1]
            return self.construct_py(c, pos, kws, rest, st, fr, loc)
        if t[0] == "native":
            return self.construct_native(t[1], pos, kws, rest)
        if t[0] == "member":
            own = t[1]
            if own[0] == "class":
                k, f = self.method(self.classes(own[1])[1], t[2])
                if f is not None and not rest:
                    if "classmethod" in f["decs"]:
                        pos = [(vn.leaf(own), None)] + pos
                    return self.call_py(f, None, pos, kws, st, fr)
            n = f"pyvrp::{own[1]}.{t[2]}"
            return self.opaque_call(n, self.native_args(
                own[1], t[2], pos, kws), rest)
        # a callable object
        return self.call_object(cv, p, "__call__", pos, kws, rest, st, fr,
                                loc)

    def bound(self, f, pos, kws):
        """Arguments by parameter order, with defaults."""
        names = f["names"] + f["kwonly"]
        d = dict(zip(names, [v for v, _ in pos]))
        for k, (v, _) in kws.items():
            d[k] = v
        out = []
        for n in names + sorted(set(d) - set(names)):
            if n not in d and n in f["defaults"]:
                f3 = PyFrame(None, None, "m", f["module"])
                self.frames.append(f3)
                d[n] = self.ev(f["defaults"][n], State({}, self.vn.T), f3)
                self.frames.pop()
            if n in d:
                out += [self.vn.c("." + n), d[n]]
        return out

    def native_args(self, cls, name, pos, kws):
        s = self.p.stubs.get(cls)
        if s and name in s.methods:
            names = s.methods[name][0]
            d = dict(zip(names, [v for v, _ in pos]))
            for k, (v, _) in kws.items():
                d[k] = v
            return [x for n in names if n in d for x in
                    (self.vn.c("." + n), d[n])]
        return self.plain(pos, kws)

    def plain(self, pos, kws):
        out = [v for v, _ in pos]
        for k in sorted(kws):
            out += [self.vn.c("." + k), kws[k][0]]
        return out

    def opaque_call(self, name, vals, rest=()):
        vals = list(vals)
        for k, v in rest:
            vals += [self.vn.c(k), v]
        return self.mkcall(name, *vals)

    def frame(self, f, this):
        f2 = PyFrame(f, this, str(len(self.frames)), f["module"])
        f2.cls = f["cls"]
        f2.local = names_bound(f["body"])
        if this is not None and f["names"]:
            f2.selfname = f["names"][0]
            f2.local.add(f2.selfname)
        return f2

    def call_py(self, f, this, pos, kws, st, fr, lex=None):
        """Inline a function of the repository."""
        vn = self.vn
        f2 = self.frame(f, this)
        f2.lex = lex
        if lex is not None:
            f2.fid = f"{len(self.frames)}l"
        names = list(f["names"])
        if this is not None and names:
            names = names[1:]
        given = {}
        extra = []
        for i, x in enumerate(pos):
            if i < len(names):
                given[names[i]] = x
            else:
                extra.append(x)
        over = {}
        for k, x in kws.items():
            if k in names or k in f["kwonly"]:
                given[k] = x
            else:
                over[k] = x
        new = {}
        for n in names + f["kwonly"]:
            f2.local.add(n)
            if n in given:
                v, p = given[n]
                new[n] = v
                if p is not None:
                    f2.origin[n] = p
            elif n in f["defaults"]:
                f3 = PyFrame(None, None, "m", f["module"])
                self.frames.append(f3)
                new[n] = self.ev(f["defaults"][n], State({}, vn.T), f3)
                self.frames.pop()
            else:
                new[n] = vn.leaf(("missing", n))
            if vn.isleaf(new[n]):
                self.note_type(f, n, vn.term(new[n]))
        if f["vararg"]:
            f2.local.add(f["vararg"])
            new[f["vararg"]] = self.mklist(*[v for v, _ in extra])
        if f["kwarg"]:
            f2.local.add(f["kwarg"])
            new[f["kwarg"]] = vn.leaf(("obj", "dict", tuple(sorted(
                (k, vn.term(v)) for k, (v, _) in over.items()))))
        for k in [k for k in st.env if isinstance(k[0], str) and
                  k[0].endswith("@" + f2.fid)]:
            del st.env[k]
        for n, v in new.items():
            st.env[(f"{n}@{f2.fid}",)] = v
        self.expanded[f["qual"]] = self.expanded.get(f["qual"], 0) + 1
        self.stack.append(f["qual"])
        self.frames.append(f2)
        s = State(dict(st.env), st.pc)
        end = self.exec(f["body"], s, f2)
        self.frames.pop()
        self.stack.pop()
        outs = [end] + [x for _, _, x in f2.returns]
        j = self.join_many([x for x in outs if x.pc != vn.F])
        fr.throws.extend(f2.throws)
        ret = self.result(f2, end)
        if j is None:
            st.pc = vn.F
            return ret
        st.env, st.pc = j.env, j.pc
        return ret

    def call_closure(self, n, pos, kws, st, fr):
        node, lex = self.closures[n]
        if isinstance(node, ast.Lambda):
            a = node.args
            body = [ast.Return(node.body, lineno=node.lineno)]
            fake = ast.FunctionDef("<lambda>", a, body, [], None,
                                   lineno=node.lineno, type_params=[])
            f = lex.module.func(fake)
        else:
            f = lex.module.func(node)
        f = dict(f, qual=lex.module.name + "." + f["name"])
        return self.call_py(f, None, pos, kws, st, fr, lex=lex)

    def construct_py(self, c, pos, kws, rest, st, fr, loc):
        vn = self.vn
        if c.name in self.ignore or rest or "Protocol" in c.bases or \
                self.opaque(dict(qual=c.qual, name=c.name)):
            vals = self.plain(pos, kws)
            init = c.methods.get("__init__")
            if init is not None:
                vals = self.bound(init, [(vn.c(None), None)] + pos, kws)[2:]
            elif c.dataclass:
                d = dict(zip(c.fields, [v for v, _ in pos]))
                d.update({k: v for k, (v, _) in kws.items()})
                vals = [x for n in c.fields if n in d
                        for x in (vn.c("." + n), d[n])]
            r = self.opaque_call("pyvrp::" + c.name, vals, rest)
            if vn.isleaf(r):
                self.types[vn.term(r)] = ("class", c)
            return r
        self.tmp += 1
        key = (f"new{len(self.frames)}_{self.tmp}@n",)
        st.env[key] = vn.leaf(("obj", c.qual, ()))
        self.expanded[c.qual] = self.expanded.get(c.qual, 0) + 1
        init = self.method(c, "__init__")[1]
        if init is not None:
            self.call_py(init, key, pos, kws, st, fr)
        elif c.dataclass:
            given = dict(zip(c.fields, [v for v, _ in pos]))
            given.update({k: v for k, (v, _) in kws.items()})
            for n, d in c.fields.items():
                if n in given:
                    v = given[n]
                elif d is None:
                    continue
                else:
                    v = self.field_default(c, d)
                self.write(st, key + (("f", n),), v, fr, loc, silent=True)
            post = self.method(c, "__post_init__")[1]
            if post is not None:
                self.call_py(post, key, [], {}, st, fr)
        v = self.read_path(st, key)
        for k in [k for k in st.env if k[:1] == key]:
            del st.env[k]
        # names of the constructor that stand for the new object's attributes
        return v

    def field_default(self, c, d):
        vn = self.vn
        f3 = PyFrame(None, None, "m", c.module)
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and \
                d.func.id == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.ev(k.value, State({}, vn.T), f3)
                if k.arg == "default_factory":
                    call = ast.Call(k.value, [], [])
                    ast.copy_location(call, d)
                    self.frames.append(f3)
                    r = self.ev(call, State({}, vn.T), f3)
                    self.frames.pop()
                    return r
        self.frames.append(f3)
        r = self.ev(d, State({}, vn.T), f3)
        self.frames.pop()
        return r

    def construct_native(self, name, pos, kws, rest):
        vn = self.vn
        s = self.p.stubs.get(name)
        if s is None or rest or not s.inits:
            return self.opaque_call("pyvrp::" + name, self.plain(pos, kws),
                                    rest)
        for names, d in s.inits:
            if len(pos) <= len(names) and all(k in names for k in kws) and \
                    all(n in d or n in kws or i < len(pos)
                        for i, n in enumerate(names)):
                break
        else:
            return self.opaque_call("pyvrp::" + name, self.plain(pos, kws))
        given = dict(zip(names, [v for v, _ in pos]))
        given.update({k: v for k, (v, _) in kws.items()})
        fs = {}
        f3 = PyFrame(None, None, "m", next(iter(self.p.modules.values())))
        for n in names:
            if n in given:
                fs[n] = vn.term(given[n])
            else:
                x = d[n]
                if isinstance(x, ast.Constant) and x.value is Ellipsis:
                    fs[n] = ("default", name, n)
                else:
                    fs[n] = vn.term(self.ev(x, State({}, vn.T), f3))
        return vn.leaf(("obj", name, tuple(sorted(fs.items()))))

    def call_method(self, b, p, fn, e, st, fr):
        vn = self.vn
        name = fn.attr
        loc = self.loc(e, fr)
        t = vn.term(b)
        pos, kws, rest = self.args_of(e, st, fr)
        vals = [v for v, _ in pos]
        if name in IDENTITY_M and not pos:
            return b
        ty = self.type_of(b, p)
        if ty and ty[0] == "class" and self.method(ty[1], name)[1] is None \
                and p is not None and all(x[0] == "obj" for x in
                                          vn.leaves(b)):
            q = p + (("f", name),)
            return self.invoke(self.read_path(st, q), q, e, st, fr)
        if ty and ty[0] == "class" or ty and ty[0] == "native" and \
                ty[1] != "dict":
            return self.call_object(b, p, name, pos, kws, rest, st, fr, loc)
        # containers
        if p is not None and not kws:
            if name == "append" and len(vals) == 1:
                self.store(st, p, self.pushed(b, vals[0]), fr, loc)
                a = e.args[0]
                if isinstance(a, ast.Name):
                    f = self.scope(a.id, fr)
                    if f is not None and a.id not in f.origin:
                        f.origin[a.id] = p + (("i", vn.term(self.size(b))),)
                return vn.c(None)
            if name == "clear" and not vals:
                self.store(st, p, self.mklist(), fr, loc)
                return vn.c(None)
            if name == "pop" and not vals and self.listlike(b):
                w = self.elem(b, vn.arith("-", self.size(b), vn.c(1)))
                self.store(st, p, vn.apply("pop", lambda t: vn.leaf(
                    t[:-1] if t[0] == "list" and len(t) > 1 else
                    ("after", "pop_back", t)), b), fr, loc)
                return w
            if name == "extend" and len(vals) == 1:
                self.store(st, p, self.concat([("all", b), ("all", vals[0])]),
                           fr, loc)
                return vn.c(None)
        if name == "get" and len(vals) in (1, 2):
            d = vals[1] if len(vals) == 2 else vn.c(None)
            kt = vn.term(vals[0])
            ks = self.keys_of(b)
            if ks is not None and kt[0] == "c":
                return self.field(b, kt[1]) if kt[1] in ks else d
            return vn.ite(self.contains(vals[0], b), self.elem(b, vals[0]), d)
        if name in ("items", "keys", "values") and not vals:
            ks = self.keys_of(b)
            if ks is not None:
                return self.mklist(*[
                    vn.c(n) if name == "keys" else self.field(b, n)
                    if name == "values" else self.mklist(
                        vn.c(n), self.field(b, n)) for n in ks])
            return self.mkcall("." + name, b)
        return self.call_object(b, p, name, pos, kws, rest, st, fr, loc)

    def call_object(self, b, p, name, pos, kws, rest, st, fr, loc):
        vn = self.vn
        ty = self.type_of(b, p)
        built = any(x[0] == "obj" for x in vn.leaves(b)) and \
            all(x[0] == "obj" or x == ("c", None) for x in vn.leaves(b))
        if ty and ty[0] == "class":
            c = ty[1]
            if c.name in self.ignore:
                return vn.c(None)
            k, f = self.method(c, name)
            if f is not None and built and not rest and not self.opaque(f) \
                    and len(self.frames) < INLINE:
                if "staticmethod" in f["decs"]:
                    return self.call_py(f, None, pos, kws, st, fr)
                q = p if p is not None else self.temp(b, st)
                return self.call_py(f, q, pos, kws, st, fr)
            if f is not None:
                vals = self.bound(f, [(vn.c(None), None)] + pos, kws)[2:]
            else:
                vals = self.plain(pos, kws)
        elif ty and ty[0] == "native":
            vals = self.native_args(ty[1], name, pos, kws)
        else:
            sig = self.signature(name)
            vals = self.native_args(sig, name, pos, kws) if sig else \
                self.plain(pos, kws)
        if name in self.ignore or name == "warn":
            return vn.c(None)
        known = name in self.known or name == "__call__" or (
            ty is not None and ty[0] == "class")
        full = ("pyvrp::." if known else ".") + name
        for k, v in rest:
            vals += [vn.c(k), v]
        self.effect(name, [b] + list(vals), (), st)
        if name in self.blind:
            keep = self.blind[name]
            vals = [w for n, v in zip(vals[::2], vals[1::2])
                    if vn.term(n)[1] in keep for w in (n, v)]
        if name in self.native_pure or name in self.pure_names or p is None:
            return self.mkcall(full, b, *vals)
        owner = self.owner(b)
        if owner is not None:
            # an object from outside: its history is a state of its own
            k = (("ptr", owner), ("f", "#"))
            h = self.read_path(st, k)
            r = self.mkcall(full, b, h, *vals)
            st.env[k] = self.mkafter(full, h, b, *vals)
            if name == "__call__":
                self.advance(st)
            return r
        r = self.mkcall(full, b, *vals)
        new = self.mkafter(full, b, *vals)
        self.store(st, p, new, fr, loc)
        if name == "__call__":
            self.advance(st)
        return r

    def owner(self, b):
        """The argument an opaque object belongs to."""
        if not self.vn.isleaf(b):
            return None
        t = self.vn.term(b)
        while t[0] in ("fld", "elem"):
            t = t[1]
        return t if t[0] == "arg" else None

    def mkafter(self, full, *vals):
        vn = self.vn
        if sum(vn.size(x) for x in vals) < 400:
            return vn.apply(("after", full), lambda *ts: vn.leaf(
                ("after", full, *ts)), *vals)
        return vn.leaf(("after", full, *[vn.term(x) for x in vals]))

    def effect(self, name, vals, rest, st):
        if name in self.effects:
            k = (("ptr", ("gvar", "effects")), ("f", "#"))
            for n, v in rest:
                vals = vals + [self.vn.c(n), v]
            st.env[k] = self.mkafter("pyvrp::" + name, self.read_path(st, k),
                                     *vals)

    def advance(self, st):
        """Time passes in a call to an unknown object."""
        vn = self.vn
        k = (("ptr", ("gvar", "clock")), ("f", "now"))
        old = self.read_path(st, k)
        st.env[k] = vn.leaf(("after", "pyvrp::tick", vn.term(old)))

    def now(self, st, kind):
        k = (("ptr", ("gvar", "clock")), ("f", "now"))
        return self.vn.apply(("now", kind), lambda t: self.vn.leaf(
            ("call", "pyvrp::now", t, ("c", kind))), self.read_path(st, k))

    def signature(self, name):
        """The native class that alone has a method of this name."""
        own = [n for n, s in self.p.stubs.items() if name in s.methods]
        if own and all(self.p.stubs[n].methods[name][0] ==
                       self.p.stubs[own[0]].methods[name][0] for n in own):
            return own[0]
        return None

    # ------------------------------------------------------------ library
    def external(self, name, e, st, fr):
        vn = self.vn
        short = name.split(".")[-1]
        if name in self.models:
            return self.model(name, e, st, fr)
        if name in ("int", "float", "str", "bool", "list", "tuple"):
            return self.builtin_py(name, e, st, fr)
        if short in self.ignore or short == "warn":
            return vn.c(None)
        if name in ("time.perf_counter", "time.time", "time.monotonic"):
            kind = self.clocks.setdefault(short, len(self.clocks))
            return self.now(st, kind)
        if name == "time.sleep":
            self.advance(st)
            return vn.c(None)
        if name == "statistics.fmean" and len(e.args) == 1:
            v = self.ev(e.args[0], st, fr)
            return self.div(self.total(v), self.size(v))
        pos, kws, rest = self.args_of(e, st, fr)
        vals = [v for v, _ in pos]
        if name == "dataclasses.fields" and len(vals) == 1:
            t = vn.term(vals[0])
            c = self.classes(t[1])[1] if t[0] in ("class", "obj") else None
            if c is not None and not isinstance(c, str) and c.dataclass:
                f3 = PyFrame(None, None, "m", c.module)
                out = []
                for n in c.fields:
                    ty = self.ev(c.annots[n], State({}, vn.T), f3)
                    out.append(vn.leaf(("obj", "Field", (
                        ("name", ("c", n)), ("type", vn.term(ty))))))
                return self.mklist(*out)
        if name == "dataclasses.asdict" and len(vals) == 1 and all(
                t[0] == "obj" for t in vn.leaves(vals[0])):
            # (wrapped: True and 1 are equal, and must not be taken for
            # each other here)
            return vn.apply("asdict", lambda t: vn.leaf(
                ("obj", "dict", tuple(
                    (n, ("v", vn.leaf(w)) if w[0] == "c" and isinstance(
                        w[1], bool) else w) for n, w in t[2]))), vals[0])
        if name == "numpy.clip" and len(vals) + len(kws) == 3:
            d = dict(zip(("a", "a_min", "a_max"), vals))
            d.update({k: v for k, (v, _) in kws.items()})
            x, lo, hi = d["a"], d.get("a_min", d.get("min")), \
                d.get("a_max", d.get("max"))
            if lo is not None and hi is not None:
                one = lambda y: self.least(self.most(y, lo), hi)
                if self.listlike(x):
                    return self.array(self.size(x),
                                      lambda i: one(self.elem(x, i)))
                return one(x)
        if name in ("numpy.minimum", "numpy.maximum") and len(vals) == 2 \
                and not any(self.listlike(v) for v in vals):
            return (self.least if name.endswith("minimum") else self.most)(
                *vals)
        if name in ("numpy.full", "numpy.zeros", "numpy.ones") and vals:
            x = vn.c(0) if short == "zeros" else vn.c(1) if short == "ones" \
                else vals[1] if len(vals) > 1 else kws["fill_value"][0]
            return self.shaped(vals[0], lambda *ix: x)
        if name == "numpy.fill_diagonal" and len(vals) == 2 and \
                pos[0][1] is not None:
            m, x = vals
            self.store(st, pos[0][1], self.array(
                self.size(m), lambda i: self.nested(
                    self.size(self.elem(m, i)),
                    lambda j: vn.ite(vn.eq(i, j), x, self.elem(
                        self.elem(m, i), j)))), fr, self.loc(e, fr))
            return vn.c(None)
        if name == "numpy.full_like" and len(vals) == 2:
            return vn.leaf(("filled", vn.term(self.size(vals[0])),
                            vn.term(vals[1])))
        if name in ("numpy.ceil", "math.ceil", "math.floor", "numpy.floor"):
            k = short
            return vn.apply(k, lambda t: vn.leaf((k, t)), vals[0])
        if name == "itertools.count" and len(vals) < 2 and not kws:
            return vn.leaf(("obj", "count", (
                ("at", vn.term(vals[0]) if vals else ("c", 0)),)))
        if name in ARG0 and pos and pos[0][1] is not None:
            p = pos[0][1]
            new = vn.leaf(("after", name, *[vn.term(v) for v in vals]))
            self.store(st, p, new, fr, self.loc(e, fr))
            return vn.c(None)
        return self.opaque_call(name, self.plain(pos, kws), rest)

    def model(self, name, e, st, fr):
        f = self.p.find("pyvrp::spec::" + self.models[name])[0]
        pos, kws, rest = self.args_of(e, st, fr)
        return self.call_py(f, None, pos, kws, st, fr)

    def total(self, v):
        vn = self.vn
        t = vn.term(v)
        if t[0] == "list":
            r = vn.c(0)
            for x in t[1:]:
                r = vn.arith("+", r, self.num(vn.unwrap(x)))
            return r
        dom, it = self.domain(vn.c(0), self.size(v))
        return self.mksum(dom, self.num(self.elem(v, it)))

    def least(self, a, b):
        return self.vn.ite(self.vn.lt(b, a, False), b, a)

    def most(self, a, b):
        return self.vn.ite(self.vn.lt(a, b, False), b, a)

    def builtin_py(self, name, e, st, fr):
        vn = self.vn
        if name in self.ignore or name in ("print", "warn"):
            return vn.c(None)
        if name in self.models:
            return self.model(name, e, st, fr)
        gen = e.args and isinstance(e.args[0], (ast.GeneratorExp,
                                                ast.ListComp))
        if name in ("any", "all") and len(e.args) == 1:
            want = name == "any"
            if gen:
                gens, elt = e.args[0].generators, e.args[0].elt
            else:
                nm = ast.Name("x·", ast.Load())
                gens = [ast.comprehension(ast.Name("x·", ast.Store()),
                                          e.args[0], [], 0)]
                elt = nm
                for x in ast.walk(gens[0].target):
                    ast.copy_location(x, e)
                ast.copy_location(nm, e)

            def step(s, f2, acc):
                t = self.cond(elt, s, f2)
                hit = t if want else vn.NOT(t)
                stop = s.copy()
                stop.pc = vn.AND(s.pc, hit)
                stop.env[self._acc] = vn.c(want)
                if len(gens) == 1:
                    if f2.loops and stop.pc != vn.F:
                        f2.loops[-1]["breaks"].append(stop)
                        s.pc = vn.AND(s.pc, vn.NOT(hit))
                    return s.env[self._acc]
                return vn.ite(hit, vn.c(want), acc)
            self._acc = (f"acc{len(self.frames)}_{self.level}@a",)
            return self.accumulate(gens, st, fr, vn.c(not want), step)
        if name == "sum" and e.args:
            init = self.ev(e.args[1], st, fr) if len(e.args) > 1 else vn.c(0)
            if gen:
                return self.accumulate(
                    e.args[0].generators, st, fr, init,
                    lambda s, f2, acc: vn.arith("+", acc, self.num(
                        self.ev(e.args[0].elt, s, f2))))
            return vn.arith("+", init, self.total(
                self.ev(e.args[0], st, fr)))
        if name in ("range", "enumerate", "zip", "reversed"):
            n, get = self.iterable(e, st, fr)
            return self.array(n, lambda i: self.value_of(get(i)))
        if name == "map" and len(e.args) == 2:
            v = self.ev(e.args[1], st, fr)
            fn = e.args[0]
            call = ast.Call(fn, [ast.Name("x·", ast.Load())], [])
            comp = ast.ListComp(call, [ast.comprehension(
                ast.Name("x·", ast.Store()), e.args[1], [], 0)])
            for x in ast.walk(comp):
                ast.copy_location(x, e)
            return self.ev(comp, st, fr)
        pos, kws, rest = self.args_of(e, st, fr)
        vals = [v for v, _ in pos]
        if name == "len" and len(vals) == 1:
            ty = self.type_of(vals[0], pos[0][1])
            if ty and ty[0] == "class":
                k, f = self.method(ty[1], "__len__")
                if f is not None:
                    return self.call_py(f, pos[0][1] or self.temp(
                        vals[0], st), [], {}, st, fr)
            return self.size(vals[0])
        if name in ("max", "min") and len(vals) >= 2 and not kws:
            r = vals[0]
            for v in vals[1:]:
                r = (self.most if name == "max" else self.least)(r, v)
            return r
        if name == "abs":
            return vn.ite(vn.lt(vals[0], vn.c(0), False),
                          vn.arith("-", vn.c(0), vals[0]), vals[0])
        if name in IDENTITY and len(vals) == 1:
            t = vn.term(vals[0])
            if t[0] == "obj" and t[1] == "dict":
                return self.mklist(*[vn.c(n) for n, _ in t[2]])
            return vals[0]
        if name in ("list", "tuple") and not vals:
            return self.mklist()
        if name == "dict" and not vals and not rest:
            return vn.leaf(("obj", "dict", tuple(sorted(
                (k, vn.term(v)) for k, (v, _) in kws.items()))))
        if name == "str" and len(vals) == 1:
            return self.text(vals[0])
        if name in ("int", "float") and len(vals) == 1 and all(
                t[:2] == ("call", "str") for t in vn.leaves(vals[0])):
            # of a number that was printed
            return vn.apply("unstr", lambda t: vn.leaf(t[2]), vals[0])
        if name == "int" and len(vals) == 1:
            return vn.apply("trunc", lambda t: vn.leaf(
                ("trunc", t) if t[0] not in ("c", "size", "ceil", "floor")
                else t), self.num(vals[0]))
        if name == "float" and len(vals) == 1:
            t = vn.term(vals[0])
            if t == ("c", "inf"):
                return vn.leaf(("limit", "max"))
            if t[0] == "c" and isinstance(t[1], str):
                return self.mkcall("float", vals[0])
            return vals[0] if not self.isstr(vals[0]) and t[0] == "c" else \
                self.mkcall("float", vals[0])
        if name == "bool" and len(vals) == 1:
            return self.true(vals[0])
        if name == "id" and len(vals) == 1:
            return self.ident(vals[0])
        if name == "next" and len(vals) == 1 and pos[0][1] is not None and all(
                t[0] == "obj" and t[1] == "count" or t[0] in ("ph", "upd")
                for t in vn.leaves(vals[0])):
            p = pos[0][1] + (("f", "at"),)
            now = self.read_path(st, p)
            self.store(st, p, vn.arith("+", now, vn.c(1)), fr,
                       self.loc(e, fr))
            return now
        if name == "next" and len(vals) == 1 and pos[0][1] is not None:
            self.store(st, pos[0][1], vn.apply("next", lambda t: vn.leaf(
                ("after", "next", t)), vals[0]), fr, self.loc(e, fr))
            return self.mkcall("next", vals[0])
        if name == "isinstance" and len(vals) == 2:
            ty = self.type_of(vals[0], pos[0][1])
            t = vn.term(vals[1])
            if ty and ty[0] == "class" and t == ("class", ty[1].qual):
                return vn.T
            def isa(x):
                if t[0] == "ext" and t[1] in ("int", "str", "float", "bool"):
                    if x[0] == "c" and not isinstance(x[1], Fraction):
                        n = type(x[1]).__name__
                        return vn.c(n == t[1] or n == "bool" and
                                    t[1] == "int")
                    if x[0] in ("trunc", "size", "ceil", "floor"):
                        return vn.c(t[1] == "int")
                    if x[0] in ("list", "arr", "filled", "obj"):
                        return vn.F
                return self.true(self.mkcall("isinstance", vn.leaf(x),
                                             vals[1]))
            return vn.apply(("isinstance", t), isa, vals[0])
        if name == "callable":
            if vn.term(vals[0])[0] in ("closure", "pyfunc", "class"):
                return vn.T
            return self.true(self.mkcall("callable", *vals))
        if name == "getattr" and len(vals) >= 2:
            t = vn.term(vals[1])
            if t[0] == "c":
                return self.attr(vals[0], pos[0][1], t[1], st, fr,
                                 self.loc(e, fr))
        return self.opaque_call(name, self.plain(pos, kws), rest)

    # ---------------------------------------------------------- statements
    def bind(self, target, v, st, fr, src=None, path=None):
        """Assign a value to a target; src: the expression it came from."""
        vn = self.vn
        if isinstance(target, ast.Name):
            f = self.scope(target.id, fr) or fr
            f.local.add(target.id)
            key = (f"{target.id}@{f.fid}",)
            p = path
            if p is None and src is not None and not isinstance(
                    src, (ast.Constant, ast.Call, ast.BinOp)):
                p = self.path(src, st, fr)
            for k in [k for k in st.env if k[0] == key[0]]:
                del st.env[k]
            st.env[key] = v
            # names that stood for this variable keep their own value
            f.origin.pop(target.id, None)
            if p is not None and p != key:
                f.origin[target.id] = p
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(target.elts)
                    if isinstance(x, ast.Starred)]
            if not star:
                for i, x in enumerate(target.elts):
                    self.bind(x, self.elem(v, vn.c(i)), st, fr)
                return
            k = star[0]
            after = len(target.elts) - k - 1
            n = self.size(v)
            for i, x in enumerate(target.elts[:k]):
                self.bind(x, self.elem(v, vn.c(i)), st, fr)
            m = vn.arith("-", n, vn.c(k + after))
            self.bind(target.elts[k].value, self.array(
                m, lambda i: self.elem(v, vn.arith("+", i, vn.c(k)))), st, fr)
            for j, x in enumerate(target.elts[k + 1:]):
                self.bind(x, self.elem(v, vn.arith(
                    "-", n, vn.c(after - j))), st, fr)
            return
        if isinstance(target, ast.Starred):
            return self.bind(target.value, v, st, fr)
        if isinstance(target, ast.Attribute):
            b = self.path(target.value, st, fr)
            if b is not None:
                ty = self.type_of(self.read_path(st, b), b)
                if ty and ty[0] == "class" and target.attr in ty[1].setters:
                    self.call_py(ty[1].setters[target.attr], b, [(v, None)],
                                 {}, st, fr)
                    return
                p = b + (("f", target.attr),)
                self.rebind(st, p, v, fr, self.loc(target, fr))
                if isinstance(src, ast.Name):
                    f = self.scope(src.id, fr)
                    if f is not None and src.id not in f.origin and \
                            src.id != f.selfname:
                        f.origin[src.id] = p
                return
            self.unk("store to attribute", self.loc(target, fr))
            return
        if isinstance(target, ast.Subscript):
            b = self.path(target.value, st, fr)
            if b is None:
                self.unk("store to element", self.loc(target, fr))
                return
            if self.slices(target.slice):
                old = self.read_path(st, b)
                s = target.slice
                new = self.mkcall("setslice", old, *self.subscripts(
                    s, st, fr), v)
                self.store(st, b, new, fr, self.loc(target, fr))
                return
            p = self.path(target, st, fr)
            self.rebind(st, p, v, fr, self.loc(target, fr))
            # names standing for the whole container
            whole = self.read_path(st, b)
            for f in self.frames:
                for n, o in f.origin.items():
                    if o == b and (f"{n}@{f.fid}",) in st.env and \
                            n != f.selfname:
                        st.env[(f"{n}@{f.fid}",)] = whole
            return
        self.unk("store to " + type(target).__name__, self.loc(target, fr))

    def exec(self, body, st, fr):
        vn = self.vn
        if isinstance(body, ast.AST):
            body = [body]
        for s in body:
            if st.pc == vn.F:
                break
            vn.tick()
            m = getattr(self, "do_" + type(s).__name__, None)
            if m is None:
                self.unk("stmt " + type(s).__name__, self.loc(s, fr))
                continue
            st = m(s, st, fr)
        return st

    def do_Expr(self, s, st, fr):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st, fr)
        return st

    def do_Pass(self, s, st, fr):
        return st

    do_Import = do_ImportFrom = do_Global = do_Nonlocal = do_Assert = do_Pass

    def do_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) \
                    and len(t.elts) == len(s.value.elts) and not any(
                        isinstance(x, ast.Starred) for x in t.elts +
                        s.value.elts):
                for i, x in enumerate(t.elts):
                    self.bind(x, self.elem(v, self.vn.c(i)), st, fr)
                continue
            self.bind(t, v, st, fr, s.value)
        return st

    def do_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, st, fr), st, fr, s.value)
        return st

    def do_AugAssign(self, s, st, fr):
        load = {ast.Name: ast.Name, ast.Attribute: ast.Attribute,
                ast.Subscript: ast.Subscript}[type(s.target)]
        old = self.ev(s.target, st, fr)
        v = self.binop_py(s.op, old, self.ev(s.value, st, fr))
        self.bind(s.target, v, st, fr)
        return st

    def do_FunctionDef(self, s, st, fr):
        n = len(self.closures)
        self.closures[n] = (s, fr)
        fr.local.add(s.name)
        st.env[(f"{s.name}@{fr.fid}",)] = self.vn.leaf(("closure", n))
        return st

    def do_If(self, s, st, fr):
        vn = self.vn
        c = self.cond(s.test, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = vn.AND(st.pc, c), vn.AND(st.pc, vn.NOT(c))
        s1 = self.exec(s.body, s1, fr)
        s2 = self.exec(s.orelse, s2, fr)
        return self.join(s1, s2)

    def do_Return(self, s, st, fr):
        vn = self.vn
        v = self.ev(s.value, st, fr) if s.value is not None else vn.c(None)
        if st.pc != vn.F:
            fr.returns.append((st.pc, v, st.copy()))
        return State(st.env, vn.F)

    def do_Raise(self, s, st, fr):
        fr.throws.append(st.pc)
        return State(st.env, self.vn.F)

    def do_Break(self, s, st, fr):
        fr.loops[-1]["breaks"].append(st.copy())
        return State(st.env, self.vn.F)

    def do_Continue(self, s, st, fr):
        fr.loops[-1]["continues"].append(st.copy())
        return State(st.env, self.vn.F)

    def do_For(self, s, st, fr):
        it = self.iterable(s.iter, st, fr)
        return self.run_loop(s.target, it, lambda x: self.exec(
            s.body, x, fr), st, fr, self.loc(s, fr))

    def do_While(self, s, st, fr):
        vn = self.vn
        dom = ("while", "", ("it", self.level))

        def run(x):
            g = self.cond(s.test, x, fr)
            b = x.copy()
            b.pc = vn.AND(x.pc, vn.NOT(g))
            if b.pc != vn.F:
                fr.loops[-1]["breaks"].append(b)
            x.pc = vn.AND(x.pc, g)
            return self.exec(s.body, x, fr)
        return self.loop(st, fr, dom, run, self.loc(s, fr))

    def do_With(self, s, st, fr):
        for i in s.items:
            v = self.ev(i.context_expr, st, fr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, st, fr, i.context_expr)
        return self.exec(s.body, st, fr)

    def do_Try(self, s, st, fr):
        vn = self.vn
        pre = st.copy()
        n = len(fr.throws)
        r = self.exec(s.body, st, fr)
        if r.pc != vn.F:
            r = self.exec(s.orelse, r, fr)
        tg = vn.OR(*fr.throws[n:])
        outs = [r]
        if s.handlers:
            del fr.throws[n:]
            for h in s.handlers:
                hs = pre.copy()
                hs.pc = vn.AND(pre.pc, vn.OR(tg, vn.node_of_var(vn.var(
                    ("falsy", ("noexc", ast.unparse(h.type)
                               if h.type else ""))))))
                outs.append(self.exec(h.body, hs, fr))
        j = self.join_many([x for x in outs if x.pc != vn.F]) or r
        return self.exec(s.finalbody, j, fr)

    def do_Match(self, s, st, fr):
        vn = self.vn
        v = self.ev(s.subject, st, fr)
        rest, outs = st.copy(), []
        for c in s.cases:
            g = self.pattern(c.pattern, v, rest, fr)
            if c.guard is not None:
                g = vn.AND(g, self.cond(c.guard, rest, fr))
            x = rest.copy()
            x.pc = vn.AND(rest.pc, g)
            rest.pc = vn.AND(rest.pc, vn.NOT(g))
            outs.append(self.exec(c.body, x, fr))
        outs.append(rest)
        return self.join_many([x for x in outs if x.pc != vn.F]) or \
            State(st.env, vn.F)

    def pattern(self, p, v, st, fr):
        vn = self.vn
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.none(v) if p.value is None else self.equal(
                v, vn.c(p.value))
        if isinstance(p, ast.MatchOr):
            return vn.OR(*[self.pattern(x, v, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                fr.local.add(p.name)
                st.env[(f"{p.name}@{fr.fid}",)] = v
            return vn.T
        self.unk("pattern", self.loc(p, fr))
        return vn.F

    def do_Delete(self, s, st, fr):
        self.unk("del", self.loc(s, fr))
        return st
