"""
Flow-sensitive, interprocedural dataflow over engine.ma programs.

Every function is summarised by its *guarded effects*: which exceptions are
raised, which calls and stores happen and what is returned, each under a guard
(see engine.vn).  Helpers with a body are expanded in place, so extracting or
merging helpers, reordering independent statements, introducing temporaries or
rewriting loops leaves the summary as it was.
"""
import re

from .ma import N
from .vn import VN, TRUE_T, FALSE_T, Blowup

INLINE_DEPTH = 14

PASS = {"move", "forward", "as_const", "ref", "cref", "addressof", "declval",
        "to_underlying", "__builtin_expect", "static_pointer_cast"}

STD_MUT = {"push_back", "emplace_back", "insert", "resize", "clear", "erase",
           "assign", "swap", "pop_back", "reset", "emplace",
           "insert_or_assign", "try_emplace", "push_front", "emplace_front",
           "pop_front", "merge", "splice", "append", "operator<<", "release",
           "set", "flip", "insert_range", "append_range"}
STD_NOOP = {"reserve", "shrink_to_fit"}

NUMERIC = ("int", "long", "unsigned", "double", "float", "short", "Measure<",
           "size_t", "Cost", "Distance", "Duration", "Load", "Coordinate",
           "char", "difference_type", "size_type", "int64_t", "ptrdiff_t")


def isnumeric(t):
    t = t.replace("const ", "").replace(" const", "").strip(" &")
    if "*" in t or "<" in t and not t.startswith(("Measure<", "pyvrp::Measure<")):
        return False
    return any(t == k or t.startswith(k) or t.endswith("::" + k)
               or t.startswith("pyvrp::" + k) for k in NUMERIC)


def isunsigned(t):
    t = t.replace("const ", "").replace(" const", "").strip(" &")
    return t.startswith("unsigned") or t in ("size_t", "std::size_t",
                                             "size_type")


HIDDEN = (("hidden",),)


class Event:
    __slots__ = ("kind", "name", "key", "args", "guard", "ctx", "loc", "stack",
                 "seq", "recv", "extra")

    def __init__(self, kind, name, key, recv, args, guard, ctx, loc, stack,
                 seq, extra=None):
        self.kind, self.name, self.key = kind, name, key
        self.recv, self.args, self.guard = recv, args, guard
        self.ctx, self.loc, self.stack, self.seq = ctx, loc, stack, seq
        self.extra = extra

    def __repr__(self):
        return f"<{self.kind} {self.name} @{self.loc}>"


class State:
    __slots__ = ("env", "pc")

    def __init__(self, env, pc):
        self.env, self.pc = env, pc

    def copy(self):
        return State(dict(self.env), self.pc)


class Frame:
    def __init__(self, func, this=None):
        self.func = func
        self.this = this          # path of *this
        self.returns = []         # (pc, value, lval or None)
        self.throws = []          # pc
        self.loops = []           # stack of dict(breaks, continues)
        self.alias = {}           # var id -> path


class Summary:
    def __init__(self):
        self.ret = None
        self.outs = {}
        self.throws = []   # Events of kind 'throw'
        self.events = []
        self.unknown = []
        self.state = None
        self.throw_guard = None


class Interp:
    def __init__(self, prog, vn=None, opaque=None, inline_ctor=None,
                 max_depth=INLINE_DEPTH, track_std=False, limit=30, raw_bits=False,
                 copies=False, movers=None, readers=None, leaf=None,
                 silent=None):
        # movers change a hidden state, on which what readers return depends
        # calls of silent functions are passed over
        self.silent = silent or (lambda f: False)
        self.tracks = movers is not None
        self.movers = movers or (lambda f: False)
        self.readers = readers or (lambda f: False)
        self.isleafclass = leaf or (lambda f: False)
        self.raw_bits = raw_bits
        self.copies = copies
        self.limit = limit
        self.p = prog
        self.vn = vn or VN(getattr(prog, "enums", {}))
        self.opaque = opaque or (lambda f: False)
        self.inline_ctor = inline_ctor or (lambda f: True)
        self.max_depth = max_depth
        self.track_std = track_std
        self.reset()

    def reset(self):
        self.events = []
        self.unknown = []
        self.stack = []      # function quals being expanded
        self.ctx = ()        # loop context: tuple of (dom, guard) pairs
        self.level = 0
        self.seq = 0
        self._sys = None
        self.recording = True
        self.frames = []
        self.closures = {}
        self.expanded = {}

    # ------------------------------------------------------------------ api
    def summarise(self, f, args=None, this=None):
        """Summary of function record f with symbolic arguments."""
        vn = self.vn
        self.reset()
        vn.allow(self.limit)
        st = State({}, vn.T)
        if self.tracks:
            st.env[HIDDEN] = vn.leaf(("hidden",))
        fr = Frame(f, (("ptr", ("this",)),) if this is None else this)
        shift = 0
        for i, (vid, name, ty) in enumerate(f["params"]):
            if i == 0 and name == "self" and f["qual"].startswith(
                    "pyvrp::spec::"):
                fr.alias[vid] = (("ptr", ("this",)),)
                shift = 1
                continue
            i -= shift
            v = args[i] if args is not None and i < len(args) \
                and args[i] is not None else vn.leaf(("arg", i))
            if ty.rstrip().endswith(("*", "*const")) and vn.isleaf(v):
                self.pointer(vn.term(v), ty)
            if isunsigned(ty) and vn.isleaf(v):
                vn.nonneg_hint.add(vn.term(v))
            st.env[(vid,)] = v
        self.frames.append(fr)
        self.stack.append(f["qual"])
        st = self.run_body(f, fr, st)
        self.frames.pop()
        s = Summary()
        s.events = self.events
        s.throws = [e for e in self.events if e.kind == "throw"]
        s.unknown = self.unknown
        s.state = st
        s.ret = self.fold_returns(fr, st)
        s.throw_guard = vn.OR(*fr.throws)
        s.frame = fr
        s.outs = {}
        for i, (vid, name, ty) in enumerate(f["params"]):
            t = ty.rstrip()
            if (vid,) in [k[:1] for k in st.env] and t.endswith("&") and not \
                    t.endswith("&&") and "const" not in t:
                s.outs[i - shift] = self.read_path(st, (vid,))
        s.expanded = dict(self.expanded)
        return s

    def empty_state(self):
        return State({}, self.vn.T)

    def fold_returns(self, fr, st):
        vn = self.vn
        r = vn.leaf(("void",))
        # a path that reaches no return throws (or never ends): its result is
        # irrelevant, so the last one needs no guard
        for i, (pc, v, _) in enumerate(reversed(fr.returns)):
            v = v if v is not None else vn.leaf(("void",))
            r = v if i == 0 else vn.ite(pc, v, r)
        return r

    def run_body(self, f, fr, st):
        vn = self.vn
        if f["fkind"] == "CXXConstructorDecl":
            st = self.run_inits(f, fr, st)
        end = self.exec(f["body"], st, fr) if f["body"] is not None else st
        # state after: join of fallthrough and returns
        outs = [(end.pc, end)] + [(pc, s) for pc, _, s in
                                  [(a, b, c) for a, b, c in fr.returns]
                                  if s is not None]
        return self.join_many([s for pc, s in outs if pc != vn.F]) or \
            State(dict(end.env), vn.F)

    def run_inits(self, f, fr, st):
        vn = self.vn
        rec = self.p.records.get(f["record"]) or {"fields": {}, "bases": []}
        done = set()
        delegated = any(t and t[0] == "delegate" for t, _ in f["inits"])
        inits = list(f["inits"])
        # members are initialised in declaration order
        order = {n: i for i, n in enumerate(rec["fields"])}
        inits.sort(key=lambda x: (0, 0) if not x[0] or x[0][0] != "field"
                   else (1, order.get(x[0][1], 0)))
        for tgt, e in inits:
            if tgt is None:
                continue
            if tgt[0] == "field":
                done.add(tgt[1])
                if e is None:
                    continue
                if e.k == "definit":
                    fi = rec["fields"].get(tgt[1], {}).get("init")
                    v = self.ev(fi, st, fr) if fi is not None else \
                        vn.leaf(("default", tgt[1]))
                else:
                    v = self.ev(e, st, fr)
                self.write(st, fr.this + (("f", tgt[1]),), v, None, None,
                           silent=True)
            elif tgt[0] in ("base", "delegate") and e is not None:
                x = e
                while x.k in ("cast",):
                    x = x.a[1]
                if x.k == "ctor" and x.a[1] in self.p.funcs and \
                        self.p.funcs[x.a[1]]["body"] is not None:
                    g = self.p.funcs[x.a[1]]
                    self.call_func(g, None, list(x.a[2]), st, fr, e.loc,
                                   thispath=fr.this, argexprs=True)
                elif x.k == "ctor" and len(x.a[2]) == 1:
                    # implicit copy of the base
                    v = self.ev(x.a[2][0], st, fr)
                    b = self.p.records.get(tgt[1]) or self.p.records.get(
                        "pyvrp::" + tgt[1])
                    if b:
                        for fn in b["fields"]:
                            self.write(st, fr.this + (("f", fn),),
                                       self.field(v, fn), None, None,
                                       silent=True)
        if not delegated:
            for fn, fd in rec["fields"].items():
                if fn not in done and fd.get("init") is not None:
                    v = self.ev(fd["init"], st, fr)
                    self.write(st, fr.this + (("f", fn),), v, None, None,
                               silent=True)
        return st

    # ---------------------------------------------------------------- joins
    def join_many(self, states):
        if not states:
            return None
        out = states[0]
        for s in states[1:]:
            out = self.join(out, s)
        return out

    def join(self, a, b):
        vn = self.vn
        if a.pc == vn.F:
            return b
        if b.pc == vn.F:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                x, y = a.env[k], b.env[k]
                env[k] = x if x == y else vn.ite(a.pc, x, y)
            else:
                # present on one side only
                if len(k) == 1 and isinstance(k[0], str):
                    env[k] = a.env.get(k, b.env.get(k))  # local out of scope
                else:
                    x = a.env[k] if k in a.env else self.read_path(a, k)
                    y = b.env[k] if k in b.env else self.read_path(b, k)
                    env[k] = vn.ite(a.pc, x, y)
        return State(env, vn.OR(a.pc, b.pc))

    # --------------------------------------------------------------- memory
    def read_path(self, st, path):
        vn = self.vn
        env = st.env
        n = len(path)
        ext = list(dict.fromkeys(k[n] for k in env if len(k) > n
                                 and k[:n] == path))
        if path in env:
            base = env[path]
        elif n == 1:
            base = self.root_value(path[0])
        else:
            acc = path[-1]
            if acc[0] == "i":
                # another element of the same container may have been written
                if not ext and any(
                        len(k) >= n and k[:n - 1] == path[:-1] and
                        k[n - 1][0] == "i" and not self.apart(k[n - 1][1],
                                                              acc[1])
                        for k in env):
                    return self.elem(self.read_path(st, path[:-1]),
                                     vn.unwrap(acc[1]))
                base = self.elem(self.read_path_noext(st, path[:-1]),
                                 vn.unwrap(acc[1]))
            else:
                base = self.field(self.read_path_noext(st, path[:-1]), acc[1])
        for acc in ext:
            base = self.upd(base, acc, self.read_path(st, path + (acc,)))
        return base

    def apart(self, a, b):
        """The two indices are different, whatever the values."""
        if a == b:
            return False
        try:
            d = self.vn.tadd(a, b, -1)
        except Exception:
            return False
        return d[0] == "c" and d[1] != 0

    def read_path_noext(self, st, path):
        if path in st.env:
            return st.env[path]
        if len(path) == 1:
            return self.root_value(path[0])
        acc = path[-1]
        parent = self.read_path_noext(st, path[:-1])
        if acc[0] == "i":
            return self.elem(parent, self.vn.unwrap(acc[1]))
        return self.field(parent, acc[1])

    def root_value(self, root):
        vn = self.vn
        if isinstance(root, tuple) and root[0] == "ptr":
            return vn.leaf(root[1])
        if isinstance(root, str) and root == "ptr":
            raise AssertionError
        return vn.leaf(("local", str(root).split(":")[0]))

    def upd(self, base, acc, val):
        vn = self.vn

        def f(t, w):
            if t[0] == "obj" and acc[0] == "f":
                fs = dict(t[2])
                fs[acc[1]] = w
                return vn.leaf(("obj", t[1], tuple(sorted(fs.items()))))
            if acc[0] == "i" and w == ("elem", t, acc[1]) or \
                    acc[0] == "f" and w == ("fld", t, acc[1]):
                return vn.leaf(t)
            if t[0] == "upd" and t[2] == acc:
                return f(t[1], w)
            return vn.leaf(("upd", t, acc, w))
        return vn.apply(("upd", acc), f, base, val)

    def write(self, st, path, val, fr, loc, silent=False):
        vn = self.vn
        for j in range(1, len(path)):
            if path[j][0] == "i" and any(
                    len(k) > j and k[:j] == path[:j] and k[j] != path[j] and
                    k[j][0] == "i" and not self.apart(k[j][1], path[j][1])
                    for k in st.env):
                # another index, perhaps the same element: settle those first
                v = self.read_path(st, path[:j])
                for k in [k for k in st.env if k[:j] == path[:j]]:
                    del st.env[k]
                st.env[path[:j]] = v
        for k in [k for k in st.env if k[:len(path)] == path]:
            del st.env[k]
        st.env[path] = val
        if not silent and isinstance(path[0], tuple):
            self.event("store", ".".join(str(a[1]) if a[0] == "f" else "[]"
                                         for a in path[1:]), None,
                       vn.leaf(path[0][1]), [val], st, loc, extra=path)

    def event(self, kind, name, key, recv, args, st, loc, extra=None):
        if not self.recording:
            return
        self.seq += 1
        self.events.append(Event(kind, name, key, recv, args, st.pc,
                                 self.ctx, loc, tuple(self.stack), self.seq,
                                 extra))

    # -------------------------------------------------------- value builders
    def field(self, v, name):
        vn = self.vn

        def f(t):
            if t[0] == "obj":
                for n, w in t[2]:
                    if n == name:
                        return vn.unwrap(w) if w[0] == "v" else vn.leaf(w)
            if t[0] == "upd" and t[2] == ("f", name):
                return vn.unwrap(t[3]) if t[3][0] == "v" else vn.leaf(t[3])
            if t[0] == "upd":
                return f(t[1])
            if t[0] == "pair" and name in ("first", "second"):
                w = t[1 if name == "first" else 2]
                return vn.unwrap(w)
            return vn.leaf(("fld", t, name))
        return vn.apply(("fld", name), f, v)

    def elem(self, v, i):
        vn = self.vn

        def f(t, k):
            if t[0] == "list" and k[0] == "c" and isinstance(k[1], int) \
                    and 0 <= k[1] < len(t) - 1:
                return vn.unwrap(t[1 + k[1]])
            if t[0] == "filled" and t[1] is not None:
                return vn.unwrap(t[2])
            if t[0] == "arr" and t[3][0] == "len":
                b = t[1][-1]
                return vn.subst(t[2][1], lambda x: k if x == b else None, (b,))
            if t[0] == "upd" and t[2] == ("i", k):
                return vn.unwrap(t[3])
            if t[0] == "upd" and t[2][0] == "i" and self.apart(t[2][1], k):
                return f(t[1], k)
            return vn.leaf(("elem", t, k))
        return vn.apply("elem", f, v, i)

    def size(self, v):
        vn = self.vn

        def f(t):
            if t[0] == "list":
                return vn.c(len(t) - 1)
            if t[0] == "upd" and t[2][0] == "i":
                return f(t[1])
            if t[0] == "filled":
                return vn.unwrap(t[1])
            if t[0] == "ordered":
                return f(t[1])
            if t[0] == "arr":
                return vn.unwrap(t[3][1]) if t[3][0] == "len" else f(t[3])
            return vn.leaf(("size", t))
        return vn.apply("size", f, v)

    def mkcall(self, name, *vals):
        vn = self.vn
        if sum(vn.size(v) for v in vals) > 400:
            return vn.leaf(("call", name, *[vn.term(v) for v in vals]))
        try:
            return vn.apply(("call", name), lambda *ts: vn.leaf(
                ("call", name, *ts)), *vals)
        except Blowup:
            return vn.leaf(("call", name, *[vn.term(v) for v in vals]))

    def deref(self, v):
        """*it for iterators, transparent for pointers and optionals."""
        vn = self.vn

        def f(t):
            p = vn.poly(t)
            begins = [m for m in p if len(m) == 1 and m[0][0] in
                      ("begin", "rbegin")]
            if len(begins) == 1 and p[begins[0]] == 1:
                b = begins[0][0]
                k = dict(p)
                del k[begins[0]]
                kt = vn.unpoly(k)
                if b[0] == "begin":
                    return self.elem(vn.unwrap(b[1]) if b[1][0] == "v" else
                                     vn.leaf(b[1]), vn.leaf(kt))
                n = ("size", b[1])
                idx = vn.tadd(vn.tadd(n, kt, -1), ("c", 1), -1)
                return self.elem(vn.leaf(b[1]), vn.leaf(idx))
            if t[0] == "findpos":
                return vn.leaf(("found", *t[1:]))
            if t[0] == "addr":
                return vn.unwrap(t[1])
            return vn.leaf(t)
        return vn.apply("deref", f, v)

    # -------------------------------------------------------------- lvalues
    def lval(self, e, st, fr):
        """Access path of an lvalue expression, or None."""
        vn = self.vn
        k = e.k
        if k == "cast":
            return self.lval(e.a[1], st, fr)
        if k == "var":
            vid = e.a[0]
            for f in reversed(self.frames):
                if vid in f.alias:
                    return f.alias[vid]
            v = st.env.get((vid,))
            return (vid,)
        if k == "gvar":
            return (("ptr", ("gvar", e.a[0])),)
        if k == "this":
            return self.norm_this(fr)
        if k == "mem":
            b = self.objpath(e.a[0], st, fr)
            return b + (("f", e.a[1]),) if b is not None else None
        if k == "idx":
            b = self.objpath(e.a[0], st, fr)
            if b is None:
                return None
            i = self.ev(e.a[1], st, fr)
            return b + (("i", vn.term(i)),)
        if k == "un" and e.a[0] in ("*", "->"):
            return self.objpath(e.a[1], st, fr, ptr=True)
        if k == "un" and e.a[0] in ("++", "--"):
            self.ev(e, st, fr)
            return self.lval(e.a[1], st, fr)
        if k == "asg":
            self.ev(e, st, fr)
            return self.lval(e.a[1], st, fr)
        if k == "call" and e.a[1] in PASS and e.a[3]:
            return self.lval(e.a[3][0], st, fr)
        if k == "call" and e.a[2] is not None and e.a[1] in (
                "at", "operator[]", "value", "operator*") and e.a[0] is None:
            b = self.objpath(e.a[2], st, fr)
            if b is None:
                return None
            if e.a[3]:
                return b + (("i", vn.term(self.ev(e.a[3][0], st, fr))),)
            return b
        if k == "call" and e.a[2] is not None and e.a[1] in ("back", "front") \
                and e.a[0] is None:
            b = self.objpath(e.a[2], st, fr)
            if b is None:
                return None
            n = self.size(self.read_path(st, b))
            i = vn.arith("-", n, vn.c(1)) if e.a[1] == "back" else vn.c(0)
            return b + (("i", vn.term(i)),)
        if k == "call" and e.a[0] is not None:
            f = self.p.funcs.get(e.a[0])
            if f is None:
                return None
            if self.isbits(f) and e.a[1] == "operator[]":
                b = self.objpath(e.a[2], st, fr)
                return b + (("i", vn.term(self.ev(e.a[3][0], st, fr))),)
            return self.ret_lval(e, f, st, fr)
        return None

    def isbits(self, f):
        return not self.raw_bits and f["record"] == "pyvrp::DynamicBitset"

    def ret_lval(self, e, f, st, fr):
        """Path denoted by a call that returns a reference: the callee must be
        a chain of declarations ended by a single return."""
        rt = f["type"].split("(")[0].strip()
        if not rt.endswith(("&", "::reference")) or rt.startswith("const") or " const" in rt \
                or not self.can_inline(f) or f["virtual"]:
            return None
        body = f["body"]
        stmts = list(body.a[0]) if body.k == "block" else [body]
        if not stmts or stmts[-1].k != "ret" or any(
                x.k == "ret" for y in stmts[:-1] for x in y.walk()):
            return None
        f2 = Frame(f, None)
        if e.a[2] is not None:
            f2.this = self.objpath(e.a[2], st, fr)
        else:
            f2.this = (("ptr", ("nothis",)),)
        for i, (vid, pn, pt) in enumerate(f["params"]):
            if i >= len(e.a[3]):
                return None
            x = e.a[3][i]
            if pt.rstrip().endswith("&") and "const" not in pt:
                lv = self.lval(x, st, fr)
                if lv is not None:
                    f2.alias[vid] = lv
                    continue
            st.env[(vid,)] = self.ev(x, st, fr)
        self.stack.append(f["qual"])
        self.frames.append(f2)
        try:
            s = st
            for x in stmts[:-1]:
                s = self.exec(x, s, f2)
            if s is not st:
                st.env, st.pc = s.env, s.pc
            return self.lval(stmts[-1].a[0], st, f2)
        finally:
            self.frames.pop()
            self.stack.pop()
            fr.throws.extend(f2.throws)

    def bits_call(self, e, f, name, recv, args, st, fr):
        """DynamicBitset as an array of booleans (C33 checks that it is one)."""
        vn = self.vn
        if name == "operator[]":
            return self.read_path(st, self.lval(e, st, fr))
        a = self.read_path(st, self.objpath(recv, st, fr))
        if name == "size":
            return self.size(a)
        if name == "operator==":
            return vn.eq(a, self.ev(args[0], st, fr))
        dom, it = self.domain(vn.c(0), self.size(a))
        bit = vn.truth(self.elem(a, it))
        if name == "any":
            return vn.exists(dom, bit)
        if name == "none":
            return vn.NOT(vn.exists(dom, bit))
        if name == "all":
            return vn.NOT(vn.exists(dom, vn.NOT(bit)))
        if name == "count":
            return self.mksum(dom, vn.ite(bit, vn.c(1), vn.c(0)))
        new = None
        if name in ("set", "reset") and not args:
            new = vn.leaf(("filled", vn.term(self.size(a)),
                           TRUE_T if name == "set" else FALSE_T))
        if name.startswith("operator") and name[8:] in (
                "&", "|", "^", "&=", "|=", "^=", "~"):
            o = vn.truth(self.elem(self.ev(args[0], st, fr), it)) \
                if args else None
            w = {"&": lambda: vn.AND(bit, o), "|": lambda: vn.OR(bit, o),
                 "^": lambda: vn.ite(bit, vn.NOT(o), o),
                 "~": lambda: vn.NOT(bit)}[name[8]]()
            b, (w,) = vn.close(dom[-1], w)
            new = vn.leaf(("arr", dom[:-1] + (b,), ("v", w),
                           ("len", vn.term(self.size(a)))))
        if new is None:
            return None
        if name in ("set", "reset") or name.endswith("="):
            self.write(st, self.objpath(recv, st, fr), new, fr, e.loc)
        return new

    def norm_this(self, fr):
        return fr.this if isinstance(fr.this[0], (tuple,)) or \
            fr.this[0] != "ptr" else (fr.this,)

    def objpath(self, e, st, fr, ptr=False):
        """Path of the object e denotes (through a pointer or a reference)."""
        vn = self.vn
        if e.k == "this":
            return self.norm_this(fr)
        lv = None
        isptr = ptr or e.t.rstrip().endswith(("*", "*const")) or \
            "_ptr<" in e.t
        if not isptr:
            lv = self.lval(e, st, fr)
            if lv is not None:
                return lv
        v = self.ev(e, st, fr)
        if isptr and ptr is False or ptr:
            v = self.deref(v)
        t = vn.term(v)
        return (("ptr", t),)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        v = self._ev(e, st, fr)
        vn = self.vn
        if isunsigned(e.t) and vn.isleaf(v):
            t = vn.term(v)
            if t[0] not in ("c", "+"):
                vn.nonneg_hint.add(t)
        elif e.k in ("mem", "idx", "call", "var") and e.t.replace(
                "const ", "").strip(" &") == "double" and vn.isleaf(v):
            t = vn.term(v)
            if t[0] in ("fld", "elem", "arg", "call"):
                vn.real_hint.add(t)
        elif e.k in ("mem", "idx", "call", "var") and vn.isleaf(v) and \
                e.t.rstrip().endswith(("*", "*const")):
            self.pointer(vn.term(v), e.t)
        return v

    def pointer(self, t, ty):
        if t[0] in ("fld", "elem", "arg", "call"):
            self.vn.ptr_hint.setdefault(t, re.sub(
                r"\bconst\b|struct |class |[\s*]", "", ty).split("::")[-1])

    def unk(self, what, loc):
        self.unknown.append((what, loc))
        return self.vn.leaf(("unk", str(what), str(loc[1]) if loc else ""))

    def _ev(self, e, st, fr):
        vn = self.vn
        k, a = e.k, e.a
        if k == "const":
            return vn.c(a[0])
        if k == "var":
            for f in reversed(self.frames):
                if a[0] in f.alias:
                    return self.read_path(st, f.alias[a[0]])
            if (a[0],) in st.env:
                return self.read_path(st, (a[0],))
            return vn.leaf(("free", a[0].split(":")[0]))
        if k == "enum":
            return vn.leaf(("enum", a[0]))
        if k == "gvar":
            g = self.p.gvars.get(a[0])
            if g and g.get("init") is not None and (
                    g["constexpr"] or g["type"].startswith("const")):
                return self.ev(g["init"], st, fr)
            return self.read_path(st, (("ptr", ("gvar", a[0])),))
        if k == "this":
            return self.read_path(st, self.norm_this(fr))
        if k == "mem":
            b = self.objpath(a[0], st, fr)
            return self.read_path(st, b + (("f", a[1]),))
        if k == "idx":
            lv = self.lval(e, st, fr)
            if lv is not None:
                return self.read_path(st, lv)
            return self.elem(self.ev(a[0], st, fr), self.ev(a[1], st, fr))
        if k == "cast":
            return self.cast(a[0], a[1], st, fr)
        if k == "un":
            return self.unary(e, st, fr)
        if k == "bin":
            return self.binary(e, st, fr)
        if k == "asg":
            return self.assign(e, st, fr)
        if k == "cond":
            c = self.truth(a[0], st, fr)
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = vn.AND(st.pc, c), vn.AND(st.pc, vn.NOT(c))
            x = self.ev(a[1], s1, fr) if s1.pc != vn.F else None
            y = self.ev(a[2], s2, fr) if s2.pc != vn.F else None
            j = self.join(s1, s2)
            st.env, st.pc = j.env, j.pc
            if x is None:
                return y if y is not None else vn.leaf(("dead",))
            if y is None:
                return x
            return vn.ite(c, x, y)
        if k == "call":
            return self.call(e, st, fr)
        if k == "ctor":
            return self.construct(e, st, fr)
        if k == "list":
            if len(a) == 1 and e.t and self.sametype(e.t, a[0].t):
                return self.ev(a[0], st, fr)
            if isnumeric(e.t) and len(a) <= 1:
                return self.ev(a[0], st, fr) if a else vn.c(0)
            t = e.t.strip()
            rec = self.find_rec(t)
            if rec:
                fds = list(rec["fields"].values())
                a = [fds[i]["init"] if x.k == "definit" and i < len(fds) and
                     fds[i].get("init") is not None else x
                     for i, x in enumerate(a)]
            vals = [self.ev(x, st, fr) for x in a]
            if rec and len(vals) <= len(rec["fields"]):
                fs = {}
                for (fn, fd), i in zip(rec["fields"].items(),
                                       range(len(rec["fields"]))):
                    if i < len(vals):
                        fs[fn] = vn.term(vals[i])
                    elif fd.get("init") is not None:
                        fs[fn] = vn.term(self.ev(fd["init"], st, fr))
                return vn.leaf(("obj", rec["qual"], tuple(sorted(fs.items()))))
            return vn.leaf(("list", *[vn.term(x) for x in vals]))
        if k == "lambda":
            cid = ("closure", f"{e.loc[0]}:{e.loc[1]}", id(e))
            self.closures[cid] = e
            return vn.leaf(cid)
        if k == "fnref":
            cid = ("fn", a[0], a[1])
            return vn.leaf(cid)
        if k == "new":
            vals = [self.ev(x, st, fr) for x in a[1]]
            self.seq += 1
            return vn.leaf(("new", a[0], *[vn.term(x) for x in vals]))
        if k == "del":
            v = self.ev(a[0], st, fr)
            self.event("delete", "delete[]" if a[1] else "delete", None, v, [],
                       st, e.loc)
            return vn.leaf(("void",))
        if k == "throw":
            self.throw(a[0], st, fr, e.loc)
            return vn.leaf(("dead",))
        if k == "tuple":
            return vn.leaf(("list", *[vn.term(self.ev(x, st, fr)) for x in a]))
        if k == "inst":
            return self.ev(a[0], st, fr)
        if k == "tupleget":
            return self.component(self.ev(a[1], st, fr), a[0])
        if k == "fieldref":
            return vn.leaf(("fieldref", a[0], a[1]))
        if k == "method":
            return vn.leaf(("boundmethod", a[1] or a[2],
                            vn.term(self.ev(a[0], st, fr))))
        if k in ("defarg", "definit"):
            return vn.leaf(("default",))
        if k == "unk":
            for x in a[1:]:
                if isinstance(x, N):
                    self.ev(x, st, fr)
            return self.unk(a[0], e.loc)
        return self.unk(k, e.loc)

    def find_rec(self, t):
        t = t.replace("const ", "").replace(" const", "").strip(" &")
        r = self.p.records
        for c in (t, "pyvrp::" + t, "pyvrp::search::" + t):
            if c in r and r[c]["fields"]:
                return r[c]
        return None

    @staticmethod
    def strip(t):
        return t.replace("const ", "").replace(" const", "").replace(
            "const", "").strip(" &").replace(" ", "").replace("std::", "") \
            .replace("__cxx11::", "")

    def sametype(self, a, b):
        a, b = self.strip(a), self.strip(b)
        return a == b or a.endswith("::" + b) or b.endswith("::" + a)

    def cast(self, t, e, st, fr):
        vn = self.vn
        v = self.ev(e, st, fr)
        tt = t.strip()
        if tt == "bool" and "bool" not in e.t:
            if isnumeric(e.t):
                return vn.NOT(vn.eq(v, vn.c(0), True))
            return vn.truth(v)
        if tt in ("float",) or tt.startswith("MeasureT"):
            return vn.apply(("cast", tt), lambda x: vn.leaf(("cast", tt, x)), v)
        if isnumeric(tt) and ("double" in e.t or "float" in e.t) and not (
                "double" in tt or "Coordinate" in tt or "COORD" in tt):
            return vn.apply("trunc", lambda x: vn.leaf(
                x if x[0] == "c" and isinstance(x[1], int) else ("trunc", x)),
                v)
        if self.isbool(e.t) and isnumeric(tt) and tt != "bool":
            return self.boolnum(v)
        # narrowing between integer widths is recorded
        if tt in ("int", "unsigned int", "short", "char", "unsigned char",
                  "unsigned short", "int8_t", "uint8_t", "int16_t", "int32_t",
                  "uint32_t", "uint16_t") and any(
                      w in e.t for w in ("long", "Measure", "size_t")):
            return vn.apply(("narrow", tt), lambda x: vn.leaf(
                x if x[0] == "c" else ("narrow", tt, x)), v)
        return v

    def truth(self, e, st, fr):
        vn = self.vn
        if e.k == "un" and e.a[0] == "!":
            return vn.NOT(self.truth(e.a[1], st, fr))
        if e.k == "bin" and e.a[0] in ("&&", "||", "and", "or"):
            isand = e.a[0] in ("&&", "and")
            l = self.truth(e.a[1], st, fr)
            s = st.copy()
            s.pc = vn.AND(st.pc, l if isand else vn.NOT(l))
            if s.pc == vn.F:
                return l
            pc0 = s.pc
            r = self.truth(e.a[2], s, fr)
            other = State(st.env, vn.AND(st.pc, vn.NOT(l) if isand else l))
            if s.env != st.env or s.pc != pc0:
                j = self.join(other, s)
                st.env, st.pc = j.env, j.pc
            return vn.AND(l, r) if isand else vn.OR(l, r)
        v = self.ev(e, st, fr)
        if "bool" in e.t:
            return vn.truth(v)
        if isnumeric(e.t):
            return vn.NOT(vn.eq(v, vn.c(0), True))
        return vn.truth(v)

    def unary(self, e, st, fr):
        vn = self.vn
        op, x = e.a
        if op in ("!", "not"):
            return vn.NOT(self.truth(x, st, fr))
        if op == "bool":
            return self.truth(x, st, fr)
        if op in ("++", "--", "post++", "post--"):
            old = self.ev(x, st, fr)
            new = vn.arith("+" if "++" in op else "-", old, vn.c(1))
            lv = self.lval(x, st, fr)
            if lv is None:
                self.event("store", "?", None, old, [new], st, e.loc)
            else:
                self.write(st, lv, new, fr, e.loc)
            return old if op.startswith("post") else new
        if op in ("*", "->"):
            v = self.ev(x, st, fr)
            return self.deref(v)
        if op == "&":
            v = self.ev(x, st, fr)
            lv = self.lval(x, st, fr)
            if lv is not None and isinstance(lv[0], str):
                return v
            return v
        v = self.ev(x, st, fr)
        if op == "-":
            return vn.arith("-", vn.c(0), v)
        if op == "+":
            return v
        return vn.apply(("un", op), lambda t: vn.leaf((op, t)), v)

    def binary(self, e, st, fr):
        vn = self.vn
        op, l, r = e.a
        if op in ("&&", "||", "and", "or"):
            return self.truth(e, st, fr)
        if op == ",":
            self.ev(l, st, fr)
            return self.ev(r, st, fr)
        if op == "<<" and not isnumeric(l.t):
            lv = self.lval(l, st, fr)
            a, b = self.ev(l, st, fr), self.ev(r, st, fr)
            out = vn.leaf(("stream", vn.term(a), vn.term(b)))
            if lv is not None and isinstance(lv[0], str):
                self.write(st, lv, out, fr, e.loc, silent=True)
            return out
        a, b = self.ev(l, st, fr), self.ev(r, st, fr)
        return self.binop(op, a, b, l.t, r.t)

    def binop(self, op, a, b, lt="", rt=""):
        vn = self.vn
        fl = any(k in t for t in (lt, rt) for k in ("double", "float", "COORD",
                                                     "Coordinate", "pyfloat"))
        if op in ("+", "-", "*"):
            if self.isbool(lt):
                a = self.boolnum(a)
            if self.isbool(rt):
                b = self.boolnum(b)
            return vn.arith(op, a, b)
        if op == "<":
            return vn.lt(a, b, not fl)
        if op == ">":
            return vn.lt(b, a, not fl)
        if op == "<=":
            return vn.NOT(vn.lt(b, a, not fl))
        if op == ">=":
            return vn.NOT(vn.lt(a, b, not fl))
        if op in ("==", "!="):
            num = (isnumeric(lt) or isnumeric(rt)) and not fl
            if all(re.fullmatch(r"(const )?char (const )?\*( const)?",
                                t.strip()) for t in (lt, rt)):
                a, b = [vn.apply("addrof", lambda t: vn.leaf(("addrof", t)),
                                 x) for x in (a, b)]  # not the characters
            g = vn.eq(a, b, num)
            return g if op == "==" else vn.NOT(g)
        if op in ("&", "|", "^") and ("bool" in lt and "bool" in rt):
            x, y = vn.truth(a), vn.truth(b)
            return {"&": vn.AND(x, y), "|": vn.OR(x, y),
                    "^": vn.ite(x, vn.NOT(y), y)}[op]
        return vn.arith(op, a, b)

    @staticmethod
    def isbool(t):
        return t.replace("const", "").strip(" &") == "bool"

    def boolnum(self, v):
        vn = self.vn
        return vn.ite(vn.truth(v), vn.c(1), vn.c(0))

    def assign(self, e, st, fr):
        vn = self.vn
        op, l, r = e.a
        if l.k == "tuple" or l.k == "list":
            v = self.ev(r, st, fr)
            for i, x in enumerate(l.a):
                lv = self.lval(x, st, fr)
                if lv is not None:
                    self.write(st, lv, self.elem(v, vn.c(i)), fr, e.loc)
            return v
        v = self.ev(r, st, fr)
        if op != "=":
            old = self.ev(l, st, fr)
            v = self.binop(op[:-1], old, v, l.t, r.t)
        lv = self.lval(l, st, fr)
        if lv is None:
            tgt = self.ev(l, st, fr)
            self.event("store", "?", None, tgt, [v], st, e.loc)
            self.unk("store to an unknown place", e.loc)
        else:
            self.write(st, lv, v, fr, e.loc)
        return v

    def throw(self, e, st, fr, loc):
        vn = self.vn
        ty = ""
        if e is not None:
            x = e
            while x.k in ("cast",):
                x = x.a[1]
            ty = x.a[0] if x.k == "ctor" else (x.a[1] if x.k == "call"
                                               else e.t)
            self.ev(e, st, fr)
        if st.pc != vn.F:
            self.event("throw", ty, None, None, [], st, loc)
            fr.throws.append(st.pc)
        st.pc = vn.F

    # ------------------------------------------------------------------ calls
    def construct(self, e, st, fr):
        vn = self.vn
        t, key, args = e.a
        f = self.p.funcs.get(key) if key else None
        if len(args) == 1 and self.sametype(t, args[0].t) and not (
                self.copies and f is not None and f["body"] is not None):
            return self.ev(args[0], st, fr)   # copy or move
        if "Measure<" in t.split("vector")[0] and len(args) == 1 and \
                "vector" not in t:
            return self.cast(t, args[0], st, fr)
        if "Measure<" in t and not args and "vector" not in t and \
                "Matrix" not in t:
            return vn.c(0)
        if f is not None and self.isbits(f) and len(args) == 1 and \
                isnumeric(args[0].t):
            return vn.leaf(("filled", vn.term(self.ev(args[0], st, fr)),
                            FALSE_T))
        if f is not None and f["body"] is not None and not f["template"] \
                and self.inline_ctor(f) and self.can_inline(f):
            self.seq += 1
            root = f"new#{self.seq}:obj"
            n0 = len(self.events)
            self.call_func(f, None, list(args), st, fr, e.loc,
                           thispath=(root,), argexprs=True)
            rec = self.p.records.get(f["record"])
            fs = {}
            for fn in self.all_fields(f["record"]):
                key2 = (root, ("f", fn))
                if any(k[:2] == key2 for k in st.env):
                    fs[fn] = vn.term(self.read_path(st, key2))
                else:
                    fs[fn] = ("default", fn)
            for k in [k for k in st.env if k[0] == root]:
                del st.env[k]
            if self.track_ctor(f):
                self.event("construct", f["qual"], f["key"], None,
                           [vn.leaf(("obj", f["record"],
                                     tuple(sorted(fs.items()))))], st, e.loc)
            return vn.leaf(("obj", f["record"], tuple(sorted(fs.items()))))
        vals = [self.ev(x, st, fr) for x in args]
        if args and args[-1].k == "defarg":
            vals = [v for v, x in zip(vals, args) if x.k != "defarg"]
        tt = self.strip(t)
        if tt.startswith("vector<") and len(vals) in (1, 2) and \
                len(args) >= 1 and isnumeric(args[0].t) and args[0].k != "list":
            fill = vals[1] if len(vals) == 2 else vn.c(0)
            return vn.leaf(("filled", vn.term(vals[0]), vn.term(fill)))
        if len(vals) == 1 and tt.startswith(("optional<", "unique_ptr<",
                                             "basic_string<", "string",
                                             "function<", "basic_string_view",
                                             "span<", "vector<",
                                             "initializer_list<")):
            return self.text(vals[0])
        if tt.startswith("tuple<") and vals:
            return vn.leaf(("list", *[vn.term(x) for x in vals]))
        if tt.startswith("pair<") and len(vals) == 2:
            return vn.leaf(("pair", vn.term(vals[0]), vn.term(vals[1])))
        if tt.startswith("optional<") and not vals:
            return vn.c(None)
        if f is not None and self.track(f):
            self.event("construct", f["qual"], f["key"], None, vals, st, e.loc)
        return vn.leaf(("ctor", tt, *[vn.term(v) for v in vals]))

    def track(self, f):
        return True

    def track_ctor(self, f):
        return False

    def all_fields(self, rec):
        out = []
        r = self.p.records.get(rec)
        if not r:
            return out
        for b in r["bases"]:
            bq = b if b in self.p.records else "pyvrp::" + b
            out += self.all_fields(bq)
        return out + list(r["fields"])

    def field_type(self, rec, name):
        r = self.p.records.get(rec)
        if not r:
            return ""
        if name in r["fields"]:
            return r["fields"][name].get("type", "")
        for b in r["bases"]:
            t = self.field_type(b if b in self.p.records else "pyvrp::" + b,
                                name)
            if t:
                return t
        return ""

    def can_inline(self, f):
        if f["body"] is None or f["template"]:
            return False
        if f["qual"] in self.stack and self.stack.count(f["qual"]) > 1:
            return False
        if len(self.stack) >= self.max_depth:
            return False
        if f["key"] in [g.func["key"] for g in self.frames
                        if g.func is not None]:
            return False
        if self.opaque(f):
            return False
        return True

    def isconst(self, f):
        return f["type"].rstrip().endswith(("const", "const noexcept",
                                            "const &")) or f["static"]

    def default_eq(self, rec, a, b):
        """A defaulted operator==: all members compare equal."""
        vn = self.vn
        r = vn.T
        for n in self.all_fields(rec):
            ty = self.field_type(rec, n)
            sub = self.rec_of_type(ty)
            x, y = self.field(a, n), self.field(b, n)
            g = None
            if sub:
                fs = [self.p.funcs[k] for k in self.p.records[sub]["methods"]
                      .get("operator==", ())]
                if len(fs) == 1 and fs[0]["body"] is None and \
                        fs[0]["defaulted"]:
                    g = self.default_eq(sub, x, y)
            if g is None:
                g = vn.eq(x, y, isnumeric(ty) and "double" not in ty)
            r = vn.AND(r, g)
        return r

    def call(self, e, st, fr):
        vn = self.vn
        key, name, recv, args = e.a
        f = self.p.funcs.get(key) if key else None
        if f is None or (f["body"] is None and not f["virtual"] and
                         f["defaulted"]):
            r = self.builtin(e, name, recv, args, st, fr)
            if r is not None:
                return r
        if f is None and name in ("()", "operator()"):
            cv = self.ev(recv, st, fr)
            vals = [self.ev(x, st, fr) for x in args]
            return self.call_value(cv, vals, args, st, fr, e.loc,
                                   recv.a[1] if recv.k == "inst" else None)
        if name == "get" and recv is not None and f is not None and \
                (f["record"] or "").startswith("pyvrp::Measure<"):
            return self.ev(recv, st, fr)
        if f is not None and f["defaulted"] and f["body"] is None and \
                name == "operator==" and recv is not None and f["record"]:
            return self.default_eq(f["record"], self.ev(recv, st, fr),
                                   self.ev(args[0], st, fr))
        if f is not None and self.isbits(f) and recv is not None:
            r = self.bits_call(e, f, name, recv, args, st, fr)
            if r is not None:
                return r
        if f is not None and self.silent(f):
            return vn.leaf(("void",))
        if f is not None and self.movers(f):
            return self.hidden(f, recv, args, st, fr, e.loc, True)
        if f is not None and self.readers(f) and \
                st.env.get(HIDDEN) not in (None, vn.leaf(("hidden",))):
            return self.hidden(f, recv, args, st, fr, e.loc, False)
        if f is not None and (not f["virtual"] or self.isleafclass(f)) and \
                self.can_inline(f):
            return self.call_func(f, recv, list(args), st, fr, e.loc,
                                  argexprs=True)
        # opaque
        rv = None
        if recv is not None:
            rp = self.objpath(recv, st, fr)
            rv = self.read_path(st, rp)
        vals = []
        if f is None and name == "emplace_back" and recv is not None:
            x = self.emplaced(recv, args, st, fr, e.loc)
            if x is not None:
                name, vals, args = "push_back", [x], []
                rv = self.read_path(st, rp)
        for i, x in enumerate(args):
            if x.k == "defarg":
                if f is not None and i in f["defaults"]:
                    vals.append(self.ev(f["defaults"][i], st, fr))
                continue
            vals.append(self.ev(x, st, fr))
        label = f["qual"] if f is not None else name
        if f is not None and f.get("targs") and \
                f["targs"][0] in ("true", "false"):
            label += f"<{f['targs'][0]}>"
        allv = ([rv] if rv is not None else []) + vals
        out = self.mkcall(label, *allv)
        if f is not None or self.track_std:
            self.event("call", label, key, rv, vals, st, e.loc, extra=e)
        # side effects
        if f is not None:
            if recv is not None and not self.isconst(f) and not \
                    recv.t.startswith("const"):
                self.mutate(st, rp, label, rv, vals)
            for (vid, pn, pt), x, v in zip(f["params"] or (), args, vals):
                if pt.endswith("&") and "const" not in pt and "&&" not in pt:
                    lv = self.lval(x, st, fr)
                    if lv is not None:
                        self.mutate(st, lv, label, v, vals)
        else:
            if recv is not None and name in STD_MUT and not \
                    recv.t.startswith("const"):
                self.mutate(st, rp, name, rv, vals)
            elif recv is None and name in ("sort", "stable_sort", "reverse",
                                           "rotate", "swap", "fill", "iota",
                                           "shuffle", "transform", "fill_n",
                                           "copy", "generate", "remove_if",
                                           "unique", "partition", "nth_element",
                                           "strcpy", "exchange", "replace"):
                for x, v in zip(args, vals):
                    y = x
                    while y.k == "call" and y.a[1] in ("begin", "end", "rbegin",
                                                       "rend", "back_inserter",
                                                       "data") \
                            and (y.a[2] is not None or y.a[3]):
                        y = y.a[2] if y.a[2] is not None else y.a[3][0]
                    lv = self.lval(y, st, fr)
                    if lv is not None and y is not x:
                        self.mutate(st, lv, name, self.read_path(st, lv), vals)
                        break
        return out

    def hidden(self, f, recv, args, st, fr, loc, moves):
        """A call that changes the hidden state, or depends on it."""
        vn = self.vn
        vals = []
        if recv is not None:
            p = self.objpath(recv, st, fr)
            if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "ptr":
                vals.append(vn.leaf(p[0][1]))
            else:
                v = self.read_path(st, p)
                if any(t[0] in ("obj", "uninit") for t in vn.leaves(v)):
                    v = vn.leaf(("addr", p))
                vals.append(v)
        for i, x in enumerate(args):
            if x.k == "defarg":
                x = f["defaults"].get(i)
            if x is not None:
                vals.append(self.ev(x, st, fr))
        old = st.env.get(HIDDEN, vn.leaf(("hidden",)))
        if moves:
            st.env[HIDDEN] = vn.leaf(("after", f["qual"], vn.term(old),
                                      *[vn.term(v) for v in vals]))
            return vn.leaf(("void",))
        return self.mkcall(f["qual"], *vals, old)

    def emplaced(self, recv, args, st, fr, loc):
        """The element that emplace_back(args) constructs, if known."""
        m = re.search(r"vector<(?:const )?([\w:]+)(?: ?\*)?(?:, .*)?>", recv.t)
        if len(args) == 1 and (self.isscalar(args[0].t) or m and
                               self.sametype(m.group(1), args[0].t)):
            return self.ev(args[0], st, fr)
        if not m:
            return None
        rec = self.rec_of_type(m.group(1))
        if rec is None:
            return None
        simple = rec.split("::")[-1]
        cands = []
        for g in self.p.find(f"{rec}::{simple}"):
            ps = g["params"] or ()
            need = len(ps) - len(g["defaults"])
            if not need <= len(args) <= len(ps):
                continue
            score = 0
            for (_, _, pt), a in zip(ps, args):
                if self.sametype(pt, a.t):
                    score += 2
                elif "vector<" in pt and "vector<" in a.t and \
                        "::" not in self.strip(pt):
                    score -= 5
                elif isnumeric(pt) == isnumeric(a.t):
                    score += 1
                else:
                    score -= 5
            cands.append((score, len(cands), g))
        if not cands:
            return None
        cands.sort(key=lambda c: (-c[0], c[1]))
        if cands[0][0] < 0 or len(cands) > 1 and cands[0][0] == cands[1][0]:
            return None
        g = cands[0][2]
        extra = [N("defarg", (), loc)
                 for _ in range(len(g["params"]) - len(args))]
        return self.construct(N("ctor", (rec, g["key"], list(args) + extra),
                                loc, rec), st, fr)

    @staticmethod
    def isscalar(t):
        return isnumeric(t) or t.rstrip().endswith("*")

    def mutate(self, st, path, name, old, vals):
        vn = self.vn
        for k in [k for k in st.env if k[:len(path)] == path]:
            del st.env[k]
        st.env[path] = vn.leaf(("after", name, vn.term(old),
                                *[vn.term(v) for v in vals]))

    def call_value(self, cv, vals, argexprs, st, fr, loc, inst=None):
        vn = self.vn
        if vn.isleaf(cv):
            t = vn.term(cv)
            if t[0] == "closure" and t in self.closures:
                return self.call_lambda(self.closures[t], vals, argexprs, st,
                                        fr, loc, inst)
            if t[0] == "fn":
                f = self.p.funcs.get(t[1])
                if f is not None and self.can_inline(f):
                    return self.call_func(f, None, vals, st, fr, loc,
                                          argexprs=False, srcs=argexprs)
                self.event("call", t[2], t[1], None, vals, st, loc)
                return self.mkcall(t[2], *vals)
            if t[0] == "fieldref" and vals:
                return self.field(vals[0], t[2])
        self.event("call", "()", None, cv, vals, st, loc)
        return self.mkcall("()", cv, *vals)

    def call_lambda(self, lam, vals, argexprs, st, fr, loc, inst=None):
        params, caps, body, insts = lam.a
        if insts:
            fit = [x for x in insts if x[0] == inst] or \
                [x for x in insts if len(x[1]) == len(vals)]
            if len(fit) != 1:
                return self.unk("generic lambda", loc)
            _, params, body = fit[0]
        tag = f"lambda@{lam.loc[1]}:{id(body)}"
        if body is None or len(self.stack) > self.max_depth + 4 or \
                self.stack.count(tag) > 1:
            return self.mkcall("lambda", *vals)
        f2 = Frame(None, fr.this)
        f2.func = dict(key=f"lambda{id(lam)}", qual="lambda", params=params)
        for i, ((vid, pn, pt), v) in enumerate(zip(params, vals)):
            bound = False
            if pt.rstrip().endswith("&") and "const" not in pt and argexprs \
                    and i < len(argexprs):
                lv = self.lval(argexprs[i], st, fr) if isinstance(
                    argexprs[i], N) else None
                if lv is not None:
                    f2.alias[vid] = lv
                    bound = True
            if not bound:
                st.env[(vid,)] = v
        self.stack.append(tag)
        self.frames.append(f2)
        out = self.finish_call(f2, body, st, fr)
        self.frames.pop()
        self.stack.pop()
        return out

    def call_func(self, f, recv, args, st, fr, loc, thispath=None,
                  argexprs=True, srcs=None):
        vn = self.vn
        f2 = Frame(f, None)
        if thispath is not None:
            f2.this = thispath
        elif recv is not None:
            f2.this = self.objpath(recv, st, fr)
        else:
            f2.this = (("ptr", ("nothis",)),)
        newenv = {}
        for i, (vid, pn, pt) in enumerate(f["params"]):
            if i < len(args):
                x = args[i]
                if argexprs:
                    if x.k == "defarg":
                        d = f["defaults"].get(i)
                        newenv[(vid,)] = self.ev(d, st, fr) if d is not None \
                            else vn.leaf(("default", i))
                        continue
                    if pt.rstrip().endswith("&") and not pt.rstrip().endswith(
                            "&&") and "const" not in pt:
                        lv = self.lval(x, st, fr)
                        if lv is not None:
                            f2.alias[vid] = lv
                            continue
                    newenv[(vid,)] = self.ev(x, st, fr)
                else:
                    newenv[(vid,)] = x
            else:
                d = f["defaults"].get(i)
                newenv[(vid,)] = self.ev(d, st, fr) if d is not None else \
                    vn.leaf(("default", i))
            if pt.rstrip().endswith(("*", "*const")) and \
                    vn.isleaf(newenv[(vid,)]):
                self.pointer(vn.term(newenv[(vid,)]), pt)
            if isunsigned(pt) and vn.isleaf(newenv[(vid,)]):
                t = vn.term(newenv[(vid,)])
                if t[0] not in ("c", "+"):
                    vn.nonneg_hint.add(t)
        for k in newenv:
            for kk in [kk for kk in st.env if kk[0] == k[0]]:
                del st.env[kk]
        st.env.update(newenv)
        self.stack.append(f["qual"])
        self.frames.append(f2)
        self.expanded[f["qual"]] = self.expanded.get(f["qual"], 0) + 1
        if f["fkind"] == "CXXConstructorDecl":
            self.run_inits(f, f2, st)
        out = self.finish_call(f2, f["body"], st, fr)
        self.frames.pop()
        self.stack.pop()
        return out

    def finish_call(self, f2, body, st, fr):
        vn = self.vn
        s = State(dict(st.env), st.pc)
        end = self.exec(body, s, f2)
        outs = [end] + [x for _, _, x in f2.returns]
        j = self.join_many([x for x in outs if x.pc != vn.F])
        fr.throws.extend(f2.throws)
        ret = vn.leaf(("void",))
        for pc, v, _ in reversed(f2.returns):
            ret = vn.ite(pc, v, ret) if v is not None and \
                ret != vn.leaf(("void",)) else (v if v is not None else ret)
        if j is None:
            st.pc = vn.F
            return ret
        st.env, st.pc = j.env, j.pc
        return ret

    # ------------------------------------------------------------- builtins
    def text(self, v):
        """The characters of a C string: those it was copied from."""
        return self.vn.apply("text", lambda t: self.vn.leaf(
            t[1] if t[0] == "dup" else t), v)

    def builtin(self, e, name, recv, args, st, fr):
        """Known library operations; None when not modelled."""
        vn = self.vn
        if recv is None and name in ("strcpy", "memcpy", "strncpy") and \
                len(args) >= 2:
            lv = self.lval(args[0], st, fr)
            old = self.ev(args[0], st, fr)
            src = self.text(self.ev(args[1], st, fr))
            room = ("?",)
            if vn.isleaf(old) and vn.term(old)[0] == "new":
                room = vn.term(old)
            if len(args) > 2:
                n = vn.term(self.ev(args[2], st, fr))
                if n != vn.tadd(("call", "strlen", vn.term(src)), ("c", 1)):
                    return None
            new = vn.leaf(("dup", vn.term(src), room))
            if lv is None:
                return None
            self.write(st, lv, new, fr, e.loc)
            return new
        if recv is None and name == "strcmp" and len(args) == 2:
            a, b = [self.text(self.ev(x, st, fr)) for x in args]
            return vn.ite(vn.eq(a, b), vn.c(0), vn.c(1))
        if recv is None and name in ("forward_as_tuple", "make_tuple", "tie"):
            return vn.leaf(("list", *[vn.term(self.ev(x, st, fr))
                                      for x in args]))
        if recv is None and name == "apply" and len(args) == 2:
            fn, tup = self.ev(args[0], st, fr), self.ev(args[1], st, fr)
            if vn.isleaf(tup) and vn.term(tup)[0] == "list":
                vals = [vn.unwrap(x) for x in vn.term(tup)[1:]]
                return self.call_value(fn, vals, [None] * len(vals), st, fr,
                                       e.loc)
        if recv is None and name in PASS and len(args) == 1:
            return self.ev(args[0], st, fr)
        if recv is None and name in ("max", "min") and not args:
            return vn.leaf(("limit", name, self.strip(e.t)))
        if recv is None and name in ("max", "min") and len(args) == 2 \
                and args[1].k not in ("lambda",):
            a, b = self.ev(args[0], st, fr), self.ev(args[1], st, fr)
            return self.maxmin(name, a, b)
        if recv is None and name in ("max", "min") and len(args) == 1:
            x = args[0]
            while x.k in ("cast", "ctor") and not x.k == "list":
                nx = x.a[1] if x.k == "cast" else (x.a[2][0] if x.a[2] else None)
                if nx is None:
                    break
                x = nx
            if x.k == "list" and x.a:
                v = self.ev(x.a[0], st, fr)
                for y in x.a[1:]:
                    v = self.maxmin(name, v, self.ev(y, st, fr))
                return v
        if recv is None and name == "clamp" and len(args) == 3:
            v, lo, hi = [self.ev(x, st, fr) for x in args]
            return self.maxmin("min", self.maxmin("max", v, lo), hi)
        if recv is None and name in ("begin", "end", "cbegin", "cend", "rbegin",
                                     "rend", "size", "ssize", "empty", "data") \
                and len(args) == 1:
            recv, args = args[0], ()
        if recv is None and name == "distance" and len(args) == 2:
            a, b = [self.ev(x, st, fr) for x in args]
            return vn.arith("-", b, a)
        if recv is None and name in ("next", "prev", "advance") and args:
            a = self.ev(args[0], st, fr)
            n = self.ev(args[1], st, fr) if len(args) > 1 and \
                args[1].k != "defarg" else vn.c(1)
            return vn.arith("+" if name == "next" else "-", a, n)
        if recv is None and name in ("any_of", "all_of", "none_of", "find_if",
                                     "find", "count", "count_if", "accumulate",
                                     "for_each", "find_if_not", "contains",
                                     "reduce"):
            r = self.algorithm(name, args, st, fr, e)
            if r is not None:
                return r
        if recv is None and name in ("iota", "sort", "stable_sort") and \
                len(args) in (2, 3):
            r = self.arrange(name, args, st, fr, e)
            if r is not None:
                return r
        if recv is None and name == "make_pair" and len(args) == 2:
            vals = [self.ev(x, st, fr) for x in args]
            return vn.leaf(("pair", vn.term(vals[0]), vn.term(vals[1])))
        if recv is None and name in ("abs", "fabs") and len(args) == 1:
            return vn.apply("abs", lambda t: vn.leaf(("abs", t)),
                            self.ev(args[0], st, fr))
        if recv is None and name == "swap" and len(args) == 2:
            l0, l1 = self.lval(args[0], st, fr), self.lval(args[1], st, fr)
            if l0 is not None and l1 is not None:
                a, b = self.read_path(st, l0), self.read_path(st, l1)
                self.write(st, l0, b, fr, e.loc)
                self.write(st, l1, a, fr, e.loc)
                return vn.leaf(("void",))
        if recv is None and name == "exchange" and len(args) == 2:
            l0 = self.lval(args[0], st, fr)
            if l0 is not None:
                old = self.read_path(st, l0)
                self.write(st, l0, self.ev(args[1], st, fr), fr, e.loc)
                return old
        if recv is None:
            return None
        # methods
        if name in ("begin", "cbegin"):
            v = self.ev(recv, st, fr)
            return vn.apply("begin", lambda t: vn.leaf(("begin", t)), v)
        if name in ("end", "cend"):
            v = self.ev(recv, st, fr)
            return vn.arith("+", vn.apply("begin", lambda t: vn.leaf(
                ("begin", t)), v), self.size(v))
        if name in ("rbegin", "crbegin"):
            v = self.ev(recv, st, fr)
            return vn.apply("rbegin", lambda t: vn.leaf(("rbegin", t)), v)
        if name in ("rend", "crend"):
            v = self.ev(recv, st, fr)
            return vn.arith("+", vn.apply("rbegin", lambda t: vn.leaf(
                ("rbegin", t)), v), self.size(v))
        if name in ("size", "length") and not args:
            return self.size(self.ev(recv, st, fr))
        if name == "empty" and not args:
            return vn.eq(self.size(self.ev(recv, st, fr)), vn.c(0), True)
        if name == "has_value" and not args:
            return vn.truth(self.ev(recv, st, fr))
        if name in ("value", "get", "c_str", "data", "base", "str") and not args:
            v = self.ev(recv, st, fr)
            return self.deref(v) if name == "value" else v
        if name == "value_or" and len(args) == 1:
            v = self.ev(recv, st, fr)
            d = self.ev(args[0], st, fr)
            return vn.ite(vn.truth(v), v, d)
        if name in ("back", "front") and not args:
            lv = self.lval(e, st, fr)
            if lv is not None:
                return self.read_path(st, lv)
        if name in ("at", "operator[]") and len(args) == 1:
            lv = self.lval(e, st, fr)
            if lv is not None:
                return self.read_path(st, lv)
            return self.elem(self.ev(recv, st, fr), self.ev(args[0], st, fr))
        if name == "test" and len(args) == 1:
            return self.elem(self.ev(recv, st, fr), self.ev(args[0], st, fr))
        if name in STD_NOOP:
            for x in args:
                self.ev(x, st, fr)
            return vn.leaf(("void",))
        return None

    def maxmin(self, name, a, b):
        vn = self.vn
        g = vn.lt(a, b)
        return vn.ite(g, b, a) if name == "max" else vn.ite(g, a, b)

    def range_of(self, args, st, fr):
        """(begin value, size value, number of args used)."""
        vn = self.vn
        if len(args) >= 2 and not (isinstance(args[0], N) and
                                   self.isrange(args[0])):
            b, e = self.ev(args[0], st, fr), self.ev(args[1], st, fr)
            return b, vn.arith("-", e, b), 2
        v = self.ev(args[0], st, fr)
        return vn.apply("begin", lambda t: vn.leaf(("begin", t)), v), \
            self.size(v), 1

    def isrange(self, x):
        return "iterator" not in x.t and "*" not in x.t and x.k != "call" or \
            (x.k == "call" and x.a[1] not in ("begin", "end", "cbegin", "cend",
                                              "rbegin", "rend", "next", "prev")
             and "iterator" not in x.t and not x.t.rstrip().endswith("*"))

    def algorithm(self, name, args, st, fr, e):
        vn = self.vn
        b, n, used = self.range_of(args, st, fr)
        rest = list(args[used:])
        dom, it = self.domain(vn.c(0), n)
        item = self.deref(vn.arith("+", b, it))
        if name in ("any_of", "all_of", "none_of", "find_if", "count_if",
                    "find_if_not"):
            if not rest:
                return None
            fv = self.ev(rest[0], st, fr)
            g = self.in_iter(dom, st, fr, lambda s: vn.truth(
                self.call_value(fv, [item], None, s, fr, e.loc)))
        elif name in ("find", "count", "contains"):
            x = self.ev(rest[0], st, fr)
            g = vn.eq(item, x, isnumeric(rest[0].t))
        if name == "any_of" or name == "contains":
            return vn.exists(dom, g)
        if name == "all_of":
            return vn.NOT(vn.exists(dom, vn.NOT(g)))
        if name == "none_of":
            return vn.NOT(vn.exists(dom, g))
        if name in ("count", "count_if"):
            return self.mksum(dom, vn.ite(g, vn.c(1), vn.c(0)))
        if name in ("find", "find_if", "find_if_not"):
            if name == "find_if_not":
                g = vn.NOT(g)
            coll = None
            bt = vn.term(b)
            if bt[0] == "begin":
                coll = bt[1]
            b1, (g1,) = vn.close(dom[-1], g)
            pos = vn.leaf(("findpos", coll if coll else bt, ("g", g1),
                           dom[:-1] + (b1,)))
            return vn.ite(vn.exists(dom, g), pos, vn.arith("+", b, n))
        if name in ("accumulate", "reduce"):
            init = self.ev(rest[0], st, fr)
            fv = self.ev(rest[1], st, fr) if len(rest) > 1 else None
            ph = vn.leaf(("ph", self.level, 0))
            def body(s):
                if fv is None:
                    return vn.arith("+", ph, item)
                return self.call_value(fv, [ph, item], None, s, fr, e.loc)
            new = self.in_iter(dom, st, fr, body)
            return self.closed(dom, init, ph, new, vn.F)
        if name == "for_each":
            fv = self.ev(rest[0], st, fr)
            self.loop(st, fr, dom, lambda s: (self.call_value(
                fv, [item], None, s, fr, e.loc), s)[1], e.loc)
            return vn.leaf(("void",))
        return None

    def arrange(self, name, args, st, fr, e):
        """iota, sort and stable_sort over all of a vector."""
        vn = self.vn
        whole = []
        for x, want in zip(args, ("begin", "end")):
            if x.k != "call" or x.a[1] not in (want, "c" + want):
                return None
            y = x.a[2] if x.a[2] is not None else \
                x.a[3][0] if x.a[3] else None
            whole.append(self.lval(y, st, fr) if y is not None else None)
        if whole[0] is None or whole[0] != whole[1]:
            return None
        v = self.read_path(st, whole[0])
        if not vn.isleaf(v):
            return None
        if name == "iota":
            start = self.ev(args[2], st, fr)
            dom, it = self.domain(vn.c(0), self.size(v))
            b, (body,) = vn.close(dom[-1], vn.arith("+", start, it))
            new = vn.leaf(("arr", dom[:-1] + (b,), ("v", body),
                           ("len", vn.term(self.size(v)))))
        else:
            octx, olev = self.ctx, self.level
            n = self.size(v)
            dx, x = self.domain(vn.c(0), n)
            self.level += 1
            dy, y = self.domain(vn.c(0), n)
            self.level += 1
            self.ctx = self.ctx + ((dx, st.pc), (dy, st.pc))
            if len(args) == 3:
                s = State(dict(st.env), vn.T)
                fv = self.ev(args[2], s, fr)
                g = vn.truth(self.call_value(fv, [x, y], None, s, fr, e.loc))
            else:
                g = vn.lt(x, y)
            self.ctx, self.level = octx, olev
            b1, (g,) = vn.close(dx[-1], g)
            b2, (g,) = vn.close(dy[-1], g)
            new = vn.leaf(("ordered", vn.term(v), b1, b2, ("g", g)))
        self.write(st, whole[0], new, fr, e.loc)
        return vn.leaf(("void",))

    def in_iter(self, dom, st, fr, fn):
        """Evaluate fn in one symbolic iteration over dom (no carried state)."""
        octx = self.ctx
        self.ctx = self.ctx + ((dom, st.pc),)
        self.level += 1
        s = State(dict(st.env), self.vn.T)
        r = fn(s)
        self.level -= 1
        self.ctx = octx
        return r

    # ---------------------------------------------------------------- loops
    def domain(self, lo, hi):
        vn = self.vn
        it = ("it", self.level)
        vn.nonneg_hint.add(it)
        return ("range", vn.term(lo), vn.term(hi), it), vn.leaf(it)

    def mksum(self, dom, d):
        """Sum of d over dom, split into monomials (order independent)."""
        vn = self.vn
        if d == vn.c(0):
            return d
        it = dom[-1]
        mons = []
        for t in vn.leaves(d):
            for m in vn.poly(t):
                if m not in mons:
                    mons.append(m)
        if len(mons) > 24:
            mons = [None]
        out = vn.c(0)
        for m in mons:
            if m is None:
                coef, inv = d, ("c", 1)
            else:
                inv, dep = ("c", 1), ("c", 1)
                for x in m:
                    if it in vn.sub_terms(x):
                        dep = vn.tmul(dep, x)
                    else:
                        inv = vn.tmul(inv, x)
                coef = vn.apply(("coef", m), lambda t: vn.leaf(vn.tmul(
                    ("c", vn.poly(t).get(m, 0)), dep)), d)
            if not vn.depends(coef, it) and dom[0] == "range" and \
                    vn.isleaf(coef):
                s = vn.leaf(vn.tmul(vn.tadd(dom[2], dom[1], -1),
                                    vn.term(coef)))
            else:
                b, (coef,) = vn.close(it, coef)
                s = vn.leaf(("sum", dom[:-1] + (b,), ("v", coef)))
            out = vn.arith("+", out, vn.arith("*", vn.leaf(inv), s))
        return out

    def closed(self, dom, init, ph, new, brk, canon=None):
        """Closed form of a loop-carried value, if it has one."""
        vn = self.vn
        pt = vn.term(ph)
        if new == ph:
            return init
        if brk == vn.F:
            d = vn.arith("-", new, ph)
            if not vn.depends(d, pt):
                if canon is not None:
                    d = canon(d)
                if not vn.mentions(d, lambda t: t[0] == "ph"
                                   and t[1] == self.level):
                    return vn.arith("+", init, self.mksum(dom, d))
        # flag: new is ph, or a constant under g
        others = [t for t in vn.leaves(new) if t != pt]
        if len(others) == 1 and not vn.sub_terms(others[0]) & {pt, dom[-1]} \
                and not any(t[:1] == ("ph",) and t[1] == self.level
                            for t in vn.sub_terms(others[0])):
            g = vn.apply(("isnot", pt), lambda x: vn.F if x == pt else vn.T, new)
            cn = canon or (lambda v: v)
            if not vn.depends(g, pt):
                return vn.ite(vn.exists(dom, cn(g)), vn.leaf(others[0]), init)
            # once set it may stay set: drop the dependence on itself
            if others[0] == TRUE_T or others[0] == FALSE_T:
                g2 = vn.subst(g, lambda t: (FALSE_T if others[0] == TRUE_T
                                            else TRUE_T) if t == pt else None)
                if not vn.depends(g2, pt):
                    return vn.ite(vn.exists(dom, cn(g2)), vn.leaf(others[0]),
                                  init)
        # boolean accumulators: ph || g, ph && g
        if vn.isguard(vn.ite(vn.falsy_leaf(pt), vn.T, vn.F)) and all(
                t in (TRUE_T, FALSE_T, pt) for t in vn.leaves(new)):
            nf = vn.subst(vn.truth(new), lambda t: FALSE_T if t == pt else None, (pt,))
            nt = vn.subst(vn.truth(new), lambda t: TRUE_T if t == pt else None, (pt,))
            cn = canon or (lambda v: v)
            if nt == vn.T and not vn.depends(nf, pt):
                return vn.OR(vn.truth(init), vn.exists(dom, cn(nf)))
            if nf == vn.F and not vn.depends(nt, pt):
                return vn.AND(vn.truth(init), vn.NOT(vn.exists(
                    dom, cn(vn.NOT(nt)))))
        col = dict(self._col) if canon is not None else {}
        if brk == vn.F:
            nt = vn.term(new) if vn.isleaf(new) else None
            if nt and nt[0] == "after" and nt[1] == "push_back" and \
                    nt[2] == pt and len(nt) == 4 and vn.isleaf(init) and \
                    self.isempty(vn.term(init)) and dom[0] == "range":
                w = vn.subst(vn.unwrap(nt[3]), lambda x: col.get(x), col)
                if not vn.depends(w, pt) and not vn.mentions(
                        w, lambda t: t[0] == "rec" and t[1] == "?"):
                    n = vn.tadd(dom[2], dom[1], -1)
                    if dom[1] != ("c", 0):
                        it, lo = dom[-1], dom[1]
                        w = vn.subst(w, lambda t: vn.tadd(it, lo)
                                     if t == it else None)
                    b, (w,) = vn.close(dom[-1], w)
                    return vn.leaf(("arr", ("range", ("c", 0), n, b),
                                    ("v", w), ("len", n)))
            r = self.array_loop(dom, init, pt, new, col)
            if r is not None:
                return r
        if canon is not None and self._sys is not None and \
                pt in self._sys["nexts"]:
            return vn.leaf(self.system(pt, dom, brk))
        me = ("rec", "?")
        col[pt] = me
        new = vn.subst(new, lambda x: col.get(x), col)
        brk = vn.subst(brk, lambda x: col.get(x), col)
        new, brk, own = self.close_rec(me, new, brk)
        b, (new, brk) = vn.close(dom[-1], new, brk)
        return vn.leaf(("fold", dom[:-1] + (b,), ("v", new), vn.term(init),
                        ("g", brk), own))

    @staticmethod
    def isempty(t):
        return t == ("list",) or len(t) == 2 and t[0] == "ctor" and \
            t[1].startswith("vector<")

    def close_rec(self, me, *vals):
        vn = self.vn
        h = 0
        for v in vals:
            for t in vn.occ(v):
                if t[0] == "rec" and isinstance(t[1], int):
                    h = max(h, t[1])
        return tuple(vn.subst(v, lambda t: ("rec", h + 1) if t == me else None, (me,))
                     for v in vals) + (("rec", h + 1),)

    def array_loop(self, dom, init, pt, new, col):
        """
        Element-wise array updates: x[i] = e(x[i]) for every i of the range,
        or a loop around such an update (per-element accumulation).
        """
        vn = self.vn
        it = dom[-1]
        leaves = vn.leaves(new)
        cur = ("elem", pt, it)
        if all(t == pt or (t[0] == "upd" and t[1] == pt and t[2] ==
                           ("i", it)) for t in leaves):
            w = vn.apply(("cell", pt, cur), lambda t: vn.leaf(cur) if t == pt
                         else vn.unwrap(t[3]), new)
            hole = ("hole", self.seq)
            w2 = vn.subst(w, lambda t: hole if t == cur else None, (pt,))
            if vn.depends(w2, pt):
                return None
            if any(t in col for t in vn.occ(w2)):
                w2 = vn.subst(w2, lambda x: col.get(x), col)
            old = vn.term(self.elem(init, vn.leaf(it)))
            body = vn.subst(w2, lambda t: old if t == hole else None, (hole,))
            b, (body,) = vn.close(it, body)
            return self.mkarr(dom[:-1] + (b,), body, init)
        # one cell, at a loop-invariant index
        accs = {t[2] for t in leaves if t != pt and t[0] == "upd"
                and t[1] == pt}
        if len(accs) == 1 and all(t == pt or t[0] == "upd" and t[1] == pt
                                  for t in leaves):
            acc = next(iter(accs))
            if acc[0] == "i" and it not in vn.sub_terms(acc[1]) and not (
                    vn.sub_terms(acc[1]) & (set(col) | {pt})):
                cell = ("elem", pt, acc[1])
                w = vn.apply(("cell", pt, cell), lambda t: vn.leaf(cell) if t == pt
                             else vn.unwrap(t[3]), new)
                self.seq += 1
                hole = ("ph", "hole", self.seq)
                w = vn.subst(w, lambda t: hole if t == cell else None, (pt,))
                if not vn.depends(w, pt):
                    if any(t in col for t in vn.occ(w)):
                        w = vn.subst(w, lambda x: col.get(x), col)
                    r = self.closed(dom, self.elem(init, vn.unwrap(acc[1])),
                                    vn.leaf(hole), w, vn.F)
                    return self.upd(init, acc, r)
        # accumulation around an element-wise update
        if len(leaves) == 1 and leaves[0][0] == "arr" and leaves[0][3] == pt:
            d1, body, _ = leaves[0][1], leaves[0][2][1], leaves[0][3]
            self.seq += 1
            fresh = ("it", "open%d" % self.seq)
            body = vn.subst(body, lambda t: fresh if t == d1[-1] else None, (d1[-1],))
            cell = ("elem", pt, fresh)
            hole = ("ph", "hole", self.seq)
            body = vn.subst(body, lambda t: hole if t == cell else None, (pt,))
            if vn.depends(body, pt) or vn.depends(vn.leaf(d1[:-1]), it):
                return None
            if any(t in col for t in vn.occ(body)):
                body = vn.subst(body, lambda x: col.get(x), col)
            r = self.closed(dom, self.elem(init, vn.leaf(fresh)),
                            vn.leaf(hole), body, vn.F)
            b, (r,) = vn.close(fresh, r)
            return self.mkarr(d1[:-1] + (b,), r, init)
        return None

    def mkarr(self, dom, body, init):
        vn = self.vn
        if vn.isleaf(init) and vn.term(init)[0] == "filled":
            n = vn.term(init)[1]
            if dom[1] == ("c", 0) and dom[2] == n:
                return vn.leaf(("arr", dom, ("v", body), ("len", n)))
        if vn.isleaf(init) and vn.term(init)[0] == "arr" and \
                vn.term(init)[3] == ("len", dom[2]) and dom[1] == ("c", 0):
            return vn.leaf(("arr", dom, ("v", body), ("len", dom[2])))
        return vn.leaf(("arr", dom, ("v", body), vn.term(init)))

    def loop(self, st, fr, dom, body, loc, first_cond=None):
        """
        Run one symbolic iteration of body over dom. body: State -> State (may
        register breaks/continues/returns/throws). Updates st in place.
        """
        vn = self.vn
        rec0 = self.recording
        lvl = self.level
        octx = self.ctx
        # --- discover the carried locations
        carried = {}
        for attempt in range(6):
            self.recording = False
            s = State(dict(st.env), vn.T)
            for i, (k, ph) in enumerate(carried.items()):
                for kk in [kk for kk in s.env if kk[:len(k)] == k]:
                    del s.env[kk]
                s.env[k] = ph
            before = dict(s.env)
            end, brks, _ = self.iterate(s, fr, dom, body, st.pc, dry=True)
            changed = set()
            for x in [end] + brks:
                if x is None:
                    continue
                for k, v in x.env.items():
                    if k in before and before[k] != v:
                        changed.add(k)
                    elif k not in before and (
                            not isinstance(k[0], str)
                            or (k[0],) in before and len(k) > 1
                            or any(b[0] == k[0] for b in before)):
                        changed.add(k)
                for k in before:
                    if k not in x.env and (k in st.env or k in carried):
                        # a prefix was overwritten
                        for j in range(len(k) - 1, 0, -1):
                            if k[:j] in x.env:
                                changed.add(k[:j])
                                break
            new = {}
            for k in changed:
                # generalise element writes to the container
                kk = k
                for j, acc in enumerate(k):
                    if isinstance(acc, tuple) and acc[0] == "i":
                        kk = k[:j]
                        break
                # and member writes of a carried object
                for j in range(1, len(kk)):
                    if kk[:j] in carried:
                        kk = kk[:j]
                        break
                if kk not in carried:
                    new[kk] = True
            if not new:
                break
            for kk in sorted(new, key=repr):
                nm = [str(a[1]) for a in kk[1:] if isinstance(a, tuple)]
                label = "/".join([str(kk[0]).split(":")[0]] + nm)
                carried[kk] = vn.leaf(("ph", lvl, len(carried), label))
            for kk, o in self.shared(carried, st).items():
                carried[kk] = carried[o]
        self.recording = rec0
        # --- the recorded pass
        inits = {k: self.read_path(st, k) for k in carried}
        s = State(dict(st.env), vn.T)
        for k, ph in carried.items():
            for kk in [kk for kk in s.env if kk[:len(k)] == k]:
                del s.env[kk]
            s.env[k] = ph
        n0 = len(self.events)
        start = dict(s.env)
        end, brks, rets = self.iterate(s, fr, dom, body, st.pc)
        # --- leave
        brk = vn.OR(*[b.pc for b in brks]) if brks else vn.F
        nexts = {}
        for k, ph in carried.items():
            pieces = [x for x in [end] + brks if x is not None and x.pc != vn.F]
            if not pieces:
                nexts[k] = ph
                continue
            nv = self.read_path(pieces[0], k)
            for x in pieces[1:]:
                nv = vn.ite(x.pc, self.read_path(x, k), nv)
            nexts[k] = nv
        for k, ph in list(carried.items()):
            o = next(o for o in carried if carried[o] == ph)
            if nexts[o] != nexts[k]:  # (no longer the same object)
                self.unk("two names of one object part in a loop", loc)
                self.seq += 1
                carried[k] = vn.leaf(("ph", lvl, "parted", self.seq))
        canon = self.canonical_phs(carried, inits, nexts, brk, dom)
        if canon:
            for e in self.events[n0:]:
                e.guard = canon(e.guard)
                e.args = [canon(a) if isinstance(a, int) else a
                          for a in e.args]
                if e.recv is not None:
                    e.recv = canon(e.recv)
                e.ctx = tuple((d, canon(g)) if isinstance(g, int) else (d, g)
                              for d, g in e.ctx)
        cn = canon or (lambda v: v)
        rets_ = [(cn(pc), v, rs) for pc, v, rs in rets["returns"]]
        pcr = vn.OR(*[pc for pc, _, _ in rets_]) if rets_ else vn.F
        thr_ = [cn(pc) for pc in rets["throws"]]
        pct = vn.OR(*thr_) if thr_ else vn.F
        cbrk = cn(brk)
        mixed = sum(x != vn.F for x in (pcr, pct, cbrk)) > 1
        every = vn.OR(vn.OR(pcr, pct), cbrk) if mixed else None

        def first(g, v):
            """v at the first iteration at which g holds."""
            if not vn.depends(v, dom[-1]):
                return v
            b, (g1, v1) = vn.close(dom[-1], g, v)
            return vn.leaf(("first", dom[:-1] + (b,), ("g", g1), ("v", v1)))

        def leaves(g):
            """The loop is left through g (and nothing else came first)."""
            if dom[0] == "while":  # (one that ends)
                return vn.truth(first(every, g)) if mixed else \
                    vn.T if g != vn.F else vn.F
            if not mixed:
                return vn.exists(dom, g)
            return vn.AND(vn.exists(dom, g), vn.truth(first(every, g)))
        if rets_:
            x = every if mixed else pcr
            v = rets_[-1][1]
            if v is not None:
                for pc, w, _ in reversed(rets_[:-1]):
                    v = vn.ite(pc, w, v)
                v = first(x, cn(v))
            rstate = State(dict(st.env), vn.AND(st.pc, leaves(pcr)))
            also = {}  # written only on the way out
            for _, _, rs in rets_:
                for k in rs.env:
                    if start.get(k) != rs.env[k] and not any(
                            k[:len(c)] == c for c in carried):
                        also[k] = True
            for k in [*carried, *sorted(also, key=len)]:
                w = self.read_path(rets_[-1][2], k)
                for pc, _, rs in reversed(rets_[:-1]):
                    w = vn.ite(pc, self.read_path(rs, k), w)
                for kk in [kk for kk in rstate.env if kk[:len(k)] == k]:
                    del rstate.env[kk]
                rstate.env[k] = first(x, cn(w))
            fr.returns.append((rstate.pc, v, rstate))
        if thr_:
            fr.throws.append(vn.AND(st.pc, leaves(pct)))
        exitg = vn.OR(pcr, pct)
        out = dict(st.env)
        for k, ph in carried.items():
            for kk in [kk for kk in out if kk[:len(k)] == k]:
                del out[kk]
            out[k] = self.closed(dom, inits[k], ph, nexts[k], brk, canon)
        st.env = out
        if exitg != vn.F:
            st.pc = vn.AND(st.pc, vn.NOT(leaves(exitg)))
        return st

    def shared(self, carried, st):
        """Carried locations that are other names of one object."""
        return {}

    def canonical_phs(self, carried, inits, nexts, brk, dom):
        """
        Name-independent form of the loop-carried placeholders: each is
        identified by its initial value and its (refined) update, so variable
        names, declaration order and unrelated carried state do not matter.
        """
        vn = self.vn
        if not carried:
            return None
        phs = {vn.term(ph): k for k, ph in carried.items()}
        used = set()
        for v in list(nexts.values()) + [brk]:
            used |= {t for t in vn.occ(v) if t in phs}
        col = {t: ("phc", dom[-1]) for t in phs}
        for _ in range(min(len(used) + 1, 6)):
            new = {}
            for t, k in phs.items():
                m = dict(col)
                m[t] = ("rec", "?")
                nx = vn.subst(nexts[k], lambda x: m.get(x), m)
                bk = vn.subst(brk, lambda x: m.get(x), m) if brk != vn.F else brk
                nx, bk, own = self.close_rec(("rec", "?"), nx, bk)
                b, (nx, bk) = vn.close(dom[-1], nx, bk)
                new[t] = ("phc", ("v", inits[k]), ("v", nx), ("g", bk), b,
                          dom[-1], own)
            if len(set(new.values())) == len(set(col.values())) and \
                    _ >= len(used):
                col = new
                break
            col = new
        self._sys = None
        deps = {t: {x for x in vn.occ(nexts[k]) if x in phs} for t, k in
                phs.items()}
        reach = {t: self.closure(deps, [t]) for t in phs}
        if any(u != t and t in reach[u] for t in phs for u in reach[t]):
            # variables defined by each other: one system of equations
            self._sys = dict(
                nexts={t: nexts[k] for t, k in phs.items()},
                inits={t: inits[k] for t, k in phs.items()},
                deps=deps, col=col)
            knot = {t for t in phs if any(u != t and t in reach[u]
                                          for u in reach[t])}
            new = {t: self.system(t, dom, None) if reach[t] & knot or
                   t in knot else col[t] for t in phs}
            col = new
        self._col = col
        return lambda v: vn.subst(v, lambda x: col.get(x), col)

    @staticmethod
    def closure(deps, start):
        out, todo = set(), list(start)
        while todo:
            t = todo.pop()
            for u in deps.get(t, ()):
                if u not in out:
                    out.add(u)
                    todo.append(u)
        return out

    def system(self, pt, dom, brk):
        """
        The joint recursion of the carried values that pt (and brk) depend on:
        ("phs", own index, iteration, ...) is pt's value when an iteration
        begins, ("folds", own index, domain, ...) its value after the loop.
        """
        vn, S = self.vn, self._sys
        start = [pt]
        if brk is not None:
            start += [t for t in vn.occ(brk) if t in S["nexts"]]
        members = self.closure(S["deps"], start) | set(start)
        order = sorted(members, key=lambda t: (repr(S["col"][t]), repr(t)))
        idx = {t: i for i, t in enumerate(order)}
        vals = [S["nexts"][t] for t in order]
        vals.append(brk if brk is not None else vn.F)
        h = 0
        for v in vals:
            for t in vn.occ(v):
                if t[0] == "rec" and isinstance(t[1], int):
                    h = max(h, t[1])
        h += 1
        m = {t: ("rec", h, i) for t, i in idx.items()}
        vals = [vn.subst(v, lambda x: m.get(x), m) for v in vals]
        b, vals = vn.close(dom[-1], *vals)
        nx = ("sys",) + tuple(("v", v) for v in vals[:-1])
        ini = ("sys",) + tuple(("v", S["inits"][t]) for t in order)
        if brk is None:
            return ("phs", idx[pt], dom[-1], b, ("rec", h), ini, nx)
        return ("folds", idx[pt], dom[:-1] + (b,), ("rec", h), ini, nx,
                ("g", vals[-1]))

    def iterate(self, s, fr, dom, body, outer_pc, dry=False):
        vn = self.vn
        octx = self.ctx
        self.ctx = self.ctx + ((dom, outer_pc),)
        self.level += 1
        sr, stw = fr.returns, fr.throws
        fr.returns, fr.throws = [], []
        fr.loops.append(dict(breaks=[], continues=[]))
        unk0 = len(self.unknown)
        try:
            end = body(s)
        finally:
            info = fr.loops.pop()
            rets = dict(returns=fr.returns, throws=fr.throws)
            fr.returns, fr.throws = sr, stw
            self.level -= 1
            self.ctx = octx
            if dry:
                del self.unknown[unk0:]
        end = self.join_many([x for x in [end] + info["continues"]
                              if x.pc != vn.F]) or end
        return end, [b for b in info["breaks"] if b.pc != vn.F], rets

    # ------------------------------------------------------------- statements
    def exec(self, s, st, fr):
        vn = self.vn
        if s is None or st.pc == vn.F:
            return st
        k, a = s.k, s.a
        if k == "block":
            for x in a[0]:
                st = self.exec(x, st, fr)
                if st.pc == vn.F:
                    break
            return st
        if k == "expr":
            self.ev(a[0], st, fr)
            return st
        if k == "decl":
            vid, ty, init = a[0], a[1], a[2]
            for kk in [kk for kk in st.env if kk[0] == vid]:
                del st.env[kk]
            fr.alias.pop(vid, None)
            if init is None:
                st.env[(vid,)] = vn.leaf(("uninit", ty))
                return st
            tt = ty.rstrip()
            if tt.endswith("&") and not tt.endswith("&&"):
                lv = self.lval(init, st, fr)
                if lv is not None and ("const" not in tt):
                    fr.alias[vid] = lv
                    return st
            st.env[(vid,)] = self.ev(init, st, fr)
            return st
        if k == "decomp":
            v = self.ev(a[1], st, fr) if a[1] is not None else \
                vn.leaf(("uninit", ""))
            for i, vid in enumerate(a[0]):
                st.env[(vid,)] = self.component(v, i)
            return st
        if k == "if":
            c = self.truth(a[0], st, fr)
            s1, s2 = st.copy(), st.copy()
            s1.pc = vn.AND(st.pc, c)
            s2.pc = vn.AND(st.pc, vn.NOT(c))
            s1 = self.exec(a[1], s1, fr)
            if a[2] is not None:
                s2 = self.exec(a[2], s2, fr)
            return self.join(s1, s2)
        if k == "ret":
            v = self.ev(a[0], st, fr) if a[0] is not None else None
            if st.pc != vn.F:
                fr.returns.append((st.pc, v, st.copy()))
            return State(st.env, vn.F)
        if k == "throw":
            self.throw(a[0], st, fr, s.loc)
            return st
        if k in ("break", "continue"):
            if fr.loops:
                fr.loops[-1]["breaks" if k == "break" else "continues"].append(
                    st.copy())
            return State(st.env, vn.F)
        if k == "foreach":
            return self.foreach(s, st, fr)
        if k == "for":
            if a[0] is not None:
                st = self.exec(a[0], st, fr)
            return self.while_loop(s, a[1], a[3], a[2], st, fr)
        if k == "while":
            return self.while_loop(s, a[0], a[1], None, st, fr,
                                   decl=a[2] if len(a) > 2 else None)
        if k == "do":
            return self.while_loop(s, a[1], a[0], None, st, fr, dowhile=True)
        if k == "switch":
            return self.switch(s, st, fr)
        if k == "try":
            pre = st.copy()
            n = len(fr.throws)
            r = self.exec(a[0], st, fr)
            tg = vn.OR(*fr.throws[n:])
            del fr.throws[n:]
            outs = [r]
            for h in a[1]:
                hs = pre.copy()
                hs.pc = vn.AND(pre.pc, vn.OR(tg, vn.node_of_var(
                    vn.var(("falsy", ("noexc", s.loc[1]))))))
                outs.append(self.exec(h, hs, fr))
            return self.join_many([x for x in outs if x.pc != vn.F]) or r
        if k == "del":
            for x in a[0]:
                pass
            return st
        return self.exec_other(s, st, fr)

    def exec_other(self, s, st, fr):
        self.unk("stmt " + s.k, s.loc)
        return st

    def component(self, v, i):
        vn = self.vn

        def f(t):
            if t[0] == "pair":
                return vn.unwrap(t[1 + i])
            if t[0] == "list" and i < len(t) - 1:
                return vn.unwrap(t[1 + i])
            if t[0] == "obj":
                rec = self.p.records.get(t[1])
                if rec:
                    names = list(rec["fields"])
                    if i < len(names):
                        return self.field(vn.leaf(t), names[i])
            return vn.leaf(("fld", t, ("first", "second")[i]) if i < 2
                           else ("get", i, t))
        return vn.apply(("get", i), f, v)

    def switch(self, s, st, fr):
        vn = self.vn
        cond, cases = s.a
        v = self.ev(cond, st, fr)
        fr.loops.append(dict(breaks=[], continues=fr.loops[-1]["continues"]
                             if fr.loops else []))
        notprev = vn.T
        entry = []
        for labels, body in cases:
            g = vn.F
            for l in labels:
                if l is not None:
                    g = vn.OR(g, vn.eq(v, self.ev(l, st, fr)))
            entry.append(g)
        allg = vn.OR(*entry)
        cur = None
        hasdef = False
        for (labels, body), g in zip(cases, entry):
            if None in labels:
                g = vn.OR(g, vn.NOT(allg))
                hasdef = True
            ent = st.copy()
            ent.pc = vn.AND(st.pc, g)
            cur = ent if cur is None or cur.pc == vn.F else self.join(cur, ent)
            for x in body:
                cur = self.exec(x, cur, fr)
        outs = list(fr.loops.pop()["breaks"])
        if cur is not None:
            outs.append(cur)
        if not hasdef:
            n = st.copy()
            n.pc = vn.AND(st.pc, vn.NOT(allg))
            outs.append(n)
        return self.join_many([x for x in outs if x.pc != vn.F]) or \
            State(st.env, vn.F)

    def rec_of_type(self, t):
        t = t.replace("const ", "").replace(" const", "").strip(" &*")
        for c in (t, "pyvrp::" + t, "pyvrp::search::" + t):
            if c in self.p.records:
                return c
        return None

    def begin_end(self, coll, st, fr):
        """(begin value, size value) for a range-for over expression coll."""
        vn = self.vn
        rec = self.rec_of_type(coll.t)
        if rec:
            ms = self.p.records[rec]["methods"]
            bs = [self.p.funcs[k] for k in ms.get("begin", ())]
            es = [self.p.funcs[k] for k in ms.get("end", ())]
            bs = sorted([f for f in bs if f["body"] is not None],
                        key=lambda f: not self.isconst(f))
            es = sorted([f for f in es if f["body"] is not None],
                        key=lambda f: not self.isconst(f))
            if bs and es:
                b = self.call_func(bs[0], coll, [], st, fr, coll.loc)
                e = self.call_func(es[0], coll, [], st, fr, coll.loc)
                return b, vn.arith("-", e, b)
        v = self.ev(coll, st, fr)
        b = vn.apply("begin", lambda t: vn.leaf(("begin", t)), v)
        return b, self.size(v)

    def foreach(self, s, st, fr):
        vn = self.vn
        vid, name, ty, coll, body = s.a[:5]
        b, n = self.begin_end(coll, st, fr)
        dom, it = self.domain(vn.c(0), n)
        isref = ty.rstrip().endswith("&") and "const" not in ty
        cpath = self.lval(coll, st, fr) if isref else None
        plain = vn.isleaf(b) and vn.term(b)[0] == "begin"

        def run(x):
            fr.alias.pop(vid, None)
            if isref and cpath is not None and plain:
                fr.alias[vid] = cpath + (("i", vn.term(it)),)
            else:
                x.env[(vid,)] = self.deref(vn.arith("+", b, it))
            if isinstance(name, list):
                base = self.deref(vn.arith("+", b, it))
                for i, nn in enumerate(name):
                    x.env[(nn,)] = self.component(base, i)
            return self.exec(body, x, fr)
        return self.loop(st, fr, dom, run, s.loc)

    def while_loop(self, s, cond, body, inc, st, fr, dowhile=False, decl=None):
        """Counting loops become ranges; anything else an opaque domain."""
        vn = self.vn
        ind = None
        if cond is not None and not dowhile and decl is None:
            ind = self.induction(cond, body, inc, st, fr)
        if ind is not None:
            vid, lo, hi, extra, negate = ind
            dom, it = self.domain(vn.c(0), vn.arith("-", hi, lo))
            val = vn.arith("+", lo, it)
            def run(x):
                x.env[(vid,)] = val
                if extra is not None:
                    g = self.truth(extra, x, fr)
                    b = x.copy()
                    b.pc = vn.AND(x.pc, vn.NOT(g))
                    if b.pc != vn.F:
                        fr.loops[-1]["breaks"].append(b)
                    x.pc = vn.AND(x.pc, g)
                r = self.exec(body, x, fr)
                # the induction variable is not carried state
                for y in [r] + fr.loops[-1]["breaks"] + \
                        fr.loops[-1]["continues"]:
                    y.env[(vid,)] = val
                return r
            saved = st.env.get((vid,))
            st.env[(vid,)] = vn.leaf(("loopidx",))
            st2 = self.loop(st, fr, dom, run, s.loc)
            st2.env[(vid,)] = hi if extra is None else vn.leaf(
                ("exitidx", dom, str(s.loc[1])))
            return st2
        it = ("it", self.level)
        dom = ("while", str(s.loc[1]) if False else "", it)

        def run(x):
            if dowhile:
                x = self.exec(body, x, fr)
                for c in fr.loops[-1]["continues"]:
                    x = self.join(x, c)
                fr.loops[-1]["continues"].clear()
            if decl is not None:
                x = self.exec(decl, x, fr)
            g = self.truth(cond, x, fr) if cond is not None else vn.T
            b = x.copy()
            b.pc = vn.AND(x.pc, vn.NOT(g))
            if b.pc != vn.F:
                fr.loops[-1]["breaks"].append(b)
            x.pc = vn.AND(x.pc, g)
            if dowhile:
                return x
            r = self.exec(body, x, fr)
            if inc is not None:
                cs = fr.loops[-1]["continues"]
                r = self.join_many([y for y in [r] + cs if y.pc != vn.F]) or r
                fr.loops[-1]["continues"] = []
                if r.pc != vn.F:
                    self.ev(inc, r, fr)
            return r
        return self.loop(st, fr, dom, run, s.loc)

    def induction(self, cond, body, inc, st, fr):
        """(var, lo, hi, extra condition) of a counting loop, or None."""
        vn = self.vn
        conds = []

        def split(c):
            if c.k == "bin" and c.a[0] in ("&&", "and"):
                split(c.a[1])
                split(c.a[2])
            else:
                conds.append(c)
        split(cond)

        def var_of(x):
            while x.k in ("cast",):
                x = x.a[1]
            return x.a[0] if x.k == "var" else None

        def shifted(x):
            """x as (variable, constant) when it is variable + constant."""
            while x.k == "cast":
                x = x.a[1]
            if x.k == "bin" and x.a[0] in ("+", "-"):
                l, r = x.a[1], x.a[2]
                while r.k == "cast":
                    r = r.a[1]
                if var_of(l) and r.k == "const" and \
                        isinstance(r.a[0], int):
                    return var_of(l), (r.a[0] if x.a[0] == "+" else -r.a[0])
            return var_of(x), 0

        def writes(node, vid):
            n = 0
            for x in node.walk():
                if x.k == "asg" and var_of(x.a[1]) == vid:
                    n += 1
                if x.k == "un" and x.a[0] in ("++", "--", "post++", "post--") \
                        and var_of(x.a[1]) == vid:
                    n += 1
            return n
        for i, c in enumerate(conds):
            if c.k == "un" and c.a[0] == "!" and c.a[1].k == "bin" and \
                    c.a[1].a[0] == "==":
                op, l, r = "!=", c.a[1].a[1], c.a[1].a[2]
            elif c.k == "bin" and c.a[0] in ("<", "!=", ">", "<="):
                op, l, r = c.a
            else:
                continue
            cand, off = None, 0
            if op in ("<", "!=", "<=") and shifted(l)[0]:
                (cand, off), bound = shifted(l), r
            elif op in (">", "!=") and shifted(r)[0]:
                (cand, off), bound = shifted(r), l
            if cand is None:
                continue
            nb = writes(body, cand)
            ok = False
            if inc is not None and nb == 0 and inc.k == "un" and inc.a[0] in (
                    "++", "post++") and var_of(inc.a[1]) == cand:
                ok = True
            if inc is not None and nb == 0 and inc.k == "asg" and \
                    inc.a[0] == "+=" and var_of(inc.a[1]) == cand and \
                    inc.a[2].k == "const" and inc.a[2].a[0] == 1:
                ok = True
            if inc is None and nb == 1 and body.k == "block" and body.a[0]:
                last = body.a[0][-1]
                if last.k == "expr" and writes(last, cand) == 1 and \
                        last.a[0].k == "un" and last.a[0].a[0] in (
                            "++", "post++") and not any(
                                x.k == "continue" for x in body.walk()):
                    ok = True
            if not ok:
                continue
            # the bound must be loop invariant (syntactically: no write to the
            # variables it mentions)
            inv = True
            for x in bound.walk():
                if x.k == "var" and writes(body, x.a[0]):
                    inv = False
            if not inv:
                continue
            if any(cand in f.alias for f in self.frames):
                continue
            s = st.copy()
            lo = self.ev(N("var", (cand,), (None, None), l.t), s, fr)
            hi = self.ev(bound, s, fr)
            if op == "<=":
                hi = vn.arith("+", hi, vn.c(1))
            if off:
                hi = vn.arith("-", hi, vn.c(off))
            extra = None
            rest = conds[:i] + conds[i + 1:]
            if rest:
                extra = rest[0]
                for x in rest[1:]:
                    extra = N("bin", ("&&", extra, x), x.loc, "bool")
            return cand, lo, hi, extra, False
        return None
