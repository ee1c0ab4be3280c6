"""C09: same seed, same result."""
import ast
import os

from engine.check import REPO, Check
from engine.facts import uninitialised

from .common import program

CLOCKS = {"perf_counter", "perf_counter_ns", "time", "time_ns", "monotonic",
          "monotonic_ns", "process_time", "process_time_ns", "thread_time",
          "now", "utcnow", "today", "localtime", "gmtime", "default_timer",
          "getloadavg", "getrusage"}
CLOCKMODS = {"time", "datetime", "timeit", "resource"}
BANNED = {"random", "secrets", "uuid", "numpy.random", "threading",
          "multiprocessing", "concurrent.futures", "asyncio"}
BANNED_CALLS = {"os.urandom", "os.getpid", "os.getenv", "os.environ.get",
                "os.cpu_count", "os.listdir", "os.scandir", "glob.glob",
                "numpy.random", "socket.gethostname", "os.times"}
SINGLE = {"len", "sum", "min", "max", "any", "all", "sorted", "set",
          "frozenset", "isinstance", "bool", "print"}
QUIET = {"print", "info", "debug", "warning", "error", "log", "format",
         "round", "sum", "len", "str", "float", "int", "min", "max", "repr",
         "isinstance", "abs", "join", "write", "update_progress"}
REPORTS = ("plotting/", "show_versions.py", "__init__.py")


def modules():
    root = REPO / "pyvrp"
    for p in sorted(root.rglob("*.py")):
        rel = str(p.relative_to(root))
        if not rel.startswith(REPORTS):
            yield rel, ast.parse(p.read_text())


def dotted(n, names):
    """a.b.c as text, its first part resolved by the module's imports."""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    parts.append(names.get(n.id, n.id))
    return ".".join(reversed(parts))


def imports(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = \
                    a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def functions(tree):
    """(qualified name, class, function) of everything in a module."""
    def go(body, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield cls, n
                yield from go(n.body, cls)
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, n.name)
            elif isinstance(n, (ast.If, ast.With, ast.Try, ast.For)):
                yield from go(n.body, cls)
    yield from go(tree.body, None)


def is_clock(call, names):
    d = dotted(call.func, names)
    if not d or "." not in d:
        return False
    head, last = d.split(".")[0], d.split(".")[-1]
    return head in CLOCKMODS and last in CLOCKS


def own(fn):
    """Statements and expressions of a function, without nested ones."""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Time:
    """Where values that depend on a clock can go.  Attributes are one per
    name, functions and their parameters one per name as well: only ever more
    values are thought to depend on a clock than do."""

    def __init__(self, mods):
        self.mods = mods
        self.attrs = set()
        self.rets = set()
        self.params = set()     # (function, parameter)
        self.funcs = {}         # name -> [(rel, class, node, imports)]
        self.fields = {}        # dataclass -> field names
        self.native = set()
        for rel, tree in mods:
            nm = imports(tree)
            for k, v in nm.items():
                if "._pyvrp." in v or "._search." in v:
                    self.native.add(k)
            for cls, f in functions(tree):
                key = cls if f.name == "__init__" else f.name
                self.funcs.setdefault(key, []).append((rel, cls, f, nm))
            for n in ast.walk(tree):
                if isinstance(n, ast.ClassDef):
                    fs = [x.target.id for x in n.body
                          if isinstance(x, ast.AnnAssign)
                          and isinstance(x.target, ast.Name)]
                    self.fields[n.name] = fs
        self.types = {}         # (class, attribute) -> class
        for rel, tree in mods:
            for cls, f in functions(tree):
                for n in ast.walk(f):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        t = self.made(n.value)
                        for x in getattr(n, "targets", None) or [n.target]:
                            if t and isinstance(x, ast.Attribute):
                                self.types[cls, x.attr] = t
                ps = {a.arg: a.annotation.id for a in f.args.args
                      if isinstance(a.annotation, ast.Name)}
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and isinstance(
                            n.value, ast.Name) and n.value.id in ps:
                        for x in n.targets:
                            if isinstance(x, ast.Attribute):
                                self.types.setdefault((cls, x.attr),
                                                      ps[n.value.id])
        self.found = {}
        for _ in range(12):
            before = (len(self.attrs), len(self.rets), len(self.params))
            self.found = {}
            for name, fs in self.funcs.items():
                for rel, cls, f, nm in fs:
                    self.function(rel, cls, f, nm)
            if before == (len(self.attrs), len(self.rets), len(self.params)):
                break

    def made(self, e):
        """The class of this repository an expression constructs."""
        if isinstance(e, ast.IfExp):
            return self.made(e.body) or self.made(e.orelse)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                (e.func.id in self.fields or e.func.id in self.native):
            return e.func.id
        return None

    def type(self, e):
        if isinstance(e, ast.Name):
            return self.local.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and e.value.id == "self":
            return self.types.get((self.cur[1], e.attr))
        return self.made(e)

    def callees(self, e):
        """Definitions a call may reach: all that share the name when the
        receiver's class is not known; none for built-in containers."""
        if isinstance(e.func, ast.Name):
            return [x for x in self.funcs.get(e.func.id, ())
                    if x[1] is None or x[2].name == "__init__"]
        if not isinstance(e.func, ast.Attribute):
            return []
        fs = [x for x in self.funcs.get(e.func.attr, ()) if x[1]]
        b = e.func.value
        c = self.cur[1] if isinstance(b, ast.Name) and b.id in ("self", "cls") \
            else self.type(b)
        if c is not None:
            mine = [x for x in fs if x[1] == c]
            return mine or ([] if c in self.native or c in self.fields else fs)
        return [] if e.func.attr in BUILTIN else fs

    def report(self, rel, cls, f, n, why):
        self.found[(rel, n.lineno)] = (
            f"{cls}.{f.name}" if cls else f.name, why)

    def function(self, rel, cls, f, nm):
        self.names = {p for c, fn, p in self.params
                      if (c, fn) == (cls, f.name)}
        self.cur = (rel, cls, f, nm)
        self.local = {a.arg: a.annotation.id for a in f.args.args
                      if isinstance(a.annotation, ast.Name)}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and self.made(n.value):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        self.local[x.id] = self.made(n.value)
        for _ in range(4):
            before = len(self.names)
            self.block(f.body, False)
            if len(self.names) == before:
                break

    # a value
    def tainted(self, e):
        if e is None:
            return False
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, ast.Attribute):
            return self.known(e) or self.tainted(e.value)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return False
        if isinstance(e, ast.IfExp):
            hit = [self.tainted(x) for x in (e.test, e.body, e.orelse)]
            return any(hit)
        if isinstance(e, ast.comprehension):
            if self.tainted(e.iter):
                self.names |= {x.id for x in ast.walk(e.target)
                               if isinstance(x, ast.Name)}
                return True
            return any([self.tainted(x) for x in e.ifs])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            hit = [self.tainted(g) for g in e.generators]
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) \
                else [e.elt]
            return any(hit + [self.tainted(x) for x in parts])
        return any([self.tainted(x) for x in ast.iter_child_nodes(e)
                    if isinstance(x, (ast.expr, ast.keyword, ast.Slice))])

    def known(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == "self":
            return (self.cur[1], e.attr) in self.attrs or \
                (None, e.attr) in self.attrs
        return any(a == e.attr for _, a in self.attrs)

    def call(self, e):
        rel, cls, f, nm = self.cur
        if is_clock(e, nm):
            return True
        args = [self.tainted(a.value if isinstance(a, ast.Starred) else a)
                for a in e.args]
        kws = {k.arg: self.tainted(k.value) for k in e.keywords}
        base = e.func.value if isinstance(e.func, ast.Attribute) else None
        name = e.func.attr if base is not None else \
            e.func.id if isinstance(e.func, ast.Name) else ""
        recv = self.tainted(base)
        if not any(args) and not any(kws.values()):
            return recv or any((c, g.name) in self.rets
                               for _, c, g, _ in self.callees(e))
        if name in self.fields and name not in self.funcs:
            for i, t in enumerate(args):
                if t and i < len(self.fields[name]):
                    self.attrs.add((name, self.fields[name][i]))
            self.attrs |= {(name, k) for k, t in kws.items() if t and k}
            return False
        to = self.callees(e)
        if to:
            for r2, c2, g, _ in to:
                ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                if ps[:1] in (["self"], ["cls"]):
                    ps = ps[1:]
                self.params |= {(c2, g.name, p)
                                for p, t in zip(ps, args) if t}
                self.params |= {(c2, g.name, k)
                                for k, t in kws.items() if t and k}
            return any((c2, g.name) in self.rets for _, c2, g, _ in to)
        if name in self.native:
            self.report(rel, cls, f, e, f"{name} is given a value that "
                        "depends on a clock")
            return False
        if base is not None and name in ("append", "extend", "insert", "add",
                                         "update", "setdefault"):
            self.store(base)
            return False
        return True

    def store(self, t):
        if isinstance(t, ast.Name):
            self.names.add(t.id)
        elif isinstance(t, ast.Attribute):
            me = isinstance(t.value, ast.Name) and t.value.id == "self"
            self.attrs.add((self.cur[1] if me else None, t.attr))
        elif isinstance(t, (ast.Subscript, ast.Starred)):
            self.store(t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x)

    # statements; under is whether a clock decides if they run
    def block(self, body, under):
        for s in body:
            under = self.stmt(s, under)
        return under

    def stmt(self, s, under):
        rel, cls, f, nm = self.cur
        key = (cls, f.name)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return under
        if isinstance(s, (ast.If, ast.While)):
            t = self.tainted(s.test)
            b = self.block(s.body, under or t)
            o = self.block(s.orelse, under or t)
            if t and isinstance(s, ast.While):
                self.report(rel, cls, f, s, "a clock decides how often the "
                            "loop runs")
            leaves = any(isinstance(x, (ast.Return, ast.Break, ast.Continue))
                         for y in (s.body, s.orelse) for z in y
                         for x in ast.walk(z))
            return under or t and leaves
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if self.tainted(s.iter):
                self.store(s.target)
            self.block(s.body, under)
            self.block(s.orelse, under)
            return under
        if isinstance(s, (ast.With, ast.Try)):
            under = self.block(s.body, under)
            for h in getattr(s, "handlers", ()):
                self.block(h.body, under)
            self.block(getattr(s, "orelse", []), under)
            self.block(getattr(s, "finalbody", []), under)
            return under
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            t = self.tainted(s.value)
            for x in getattr(s, "targets", None) or [s.target]:
                if t or under:
                    self.store(x)
            if under:
                self.acts(s)
            return under
        if isinstance(s, ast.Return):
            if self.tainted(s.value) or under and not (
                    s.value is None or isinstance(s.value, ast.Constant)
                    and s.value.value is None):
                self.rets.add(key)
            return under
        if isinstance(s, (ast.Raise, ast.Break, ast.Continue)) and under and \
                f.name not in ("__init__", "__post_init__"):
            self.report(rel, cls, f, s, "a clock decides whether this runs")
            return under
        if isinstance(s, ast.Assert):
            if self.tainted(s.test):
                self.report(rel, cls, f, s, "asserts something of a clock")
            return under
        if isinstance(s, ast.Expr):
            self.tainted(s.value)
            if under:
                self.acts(s)
        return under

    def acts(self, s):
        """A statement whose execution a clock decides calls something that
        can change more than what is printed."""
        rel, cls, f, nm = self.cur
        for c in ast.walk(s):
            if not isinstance(c, ast.Call):
                continue
            name = c.func.attr if isinstance(c.func, ast.Attribute) else \
                c.func.id if isinstance(c.func, ast.Name) else ""
            if name in QUIET or is_clock(c, nm):
                continue
            to = self.callees(c)
            if to and not all(self.inert(g) for _, _, g, _ in to):
                self.report(rel, cls, f, c, f"a clock decides whether {name} "
                            "is called")
            elif name in self.native or name in (
                    "append", "extend", "insert", "pop", "clear", "add",
                    "remove", "update", "sort", "reverse"):
                self.report(rel, cls, f, c, f"a clock decides whether {name} "
                            "is called")

    def inert(self, g, depth=0):
        for n in own(g):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = getattr(n, "targets", None) or [n.target]
                if any(not isinstance(t, ast.Name) for t in ts):
                    return False
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else \
                    getattr(n.func, "id", "")
                if name in self.native:
                    return False
                if name in self.funcs and (depth > 4 or not all(
                        self.inert(h, depth + 1)
                        for _, _, h, _ in self.funcs[name])):
                    return False
        return True


# ------------------------------------------------------------ other sources

def sources(rel, tree):
    nm = imports(tree)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            mods = [a.name for a in n.names] if isinstance(n, ast.Import) \
                else [n.module or ""] if not n.level else []
            if isinstance(n, ast.ImportFrom) and not n.level:
                mods += [f"{n.module}.{a.name}" for a in n.names]
            for m in mods:
                if m in BANNED or m.split(".")[0] in BANNED or \
                        m.startswith("numpy.random"):
                    yield n, f"imports {m}"
        if isinstance(n, ast.Attribute):
            d = dotted(n, nm)
            if d and (d.startswith("numpy.random") or d == "os.environ" or
                      d == "scipy.stats" or d == "sys.hash_info"):
                yield n, f"uses {d}"
        if isinstance(n, ast.Call):
            d = dotted(n.func, nm)
            if d in BANNED_CALLS:
                yield n, f"calls {d}"
            if d == "hash" and len(n.args) == 1:
                yield n, "uses a hash, which differs from process to process"


def identities(tree):
    """Uses of id() other than as a key or for (in)equality."""
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "id" and len(n.args) == 1:
            p = par.get(n)
            if isinstance(p, ast.Compare) and all(
                    isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE))
                    for o in p.ops):
                yield n, "compares identities by order"
            elif isinstance(p, ast.BinOp):
                yield n, "computes with an identity"
            elif isinstance(p, ast.Lambda):
                yield n, "orders by identity"
            elif isinstance(p, ast.Call) and p.func is not n and not (
                    isinstance(p.func, ast.Attribute) and p.func.attr in (
                        "get", "pop", "setdefault", "add", "discard",
                        "append", "index")):
                yield n, "passes an identity on"
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == "key" and \
                isinstance(n.value, ast.Name) and n.value.id in ("id", "hash"):
            yield n.value, f"orders by {n.value.id}"


def is_set(e, sets):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return e.id in sets
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ("set", "frozenset"):
            return True
        if isinstance(f, ast.Attribute) and f.attr in (
                "union", "intersection", "difference",
                "symmetric_difference", "copy"):
            return is_set(f.value, sets)
    if isinstance(e, ast.BinOp) and isinstance(
            e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return is_set(e.left, sets) or is_set(e.right, sets)
    return False


def set_order(f):
    """Places where a function visits a set in the set's own order."""
    sets = set()
    body = list(own(f))
    for _ in range(3):
        for n in body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value and \
                    is_set(n.value, sets):
                for t in getattr(n, "targets", None) or [n.target]:
                    if isinstance(t, ast.Name):
                        sets.add(t.id)
    free = set()
    for n in body:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in SINGLE:
            free |= {id(a) for a in n.args}
    for n in body:
        if isinstance(n, (ast.For, ast.AsyncFor)) and is_set(n.iter, sets):
            yield n, "loops over"
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) \
                and id(n) not in free and \
                any(is_set(g.iter, sets) for g in n.generators):
            yield n, "collects from"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ("list", "tuple", "enumerate", "iter", "zip",
                              "map", "dict") and \
                any(is_set(a, sets) for a in n.args):
            yield n, "lists"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == "pop" and is_set(n.func.value, sets):
            yield n, "pops from"
        elif isinstance(n, ast.Starred) and is_set(n.value, sets):
            yield n, "unpacks"


BUILTIN = {"append", "extend", "insert", "pop", "clear", "add", "remove",
           "update", "setdefault", "get", "keys", "values", "items", "join",
           "format", "index", "count", "sort", "copy", "data"}
MUTATE = {"append", "extend", "insert", "pop", "clear", "add", "remove",
          "update", "setdefault", "sort", "reverse", "popitem", "discard",
          "appendleft", "popleft"}


def mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in ("list", "dict", "set", "defaultdict", "deque",
                      "Counter", "bytearray", "OrderedDict")


def written(f, test):
    """Statements of f that modify what test() recognises."""
    for n in ast.walk(f):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = getattr(n, "targets", None) or [n.target]
            for t in ts:
                if isinstance(t, (ast.Subscript, ast.Attribute)) and \
                        test(t.value):
                    yield n
                elif isinstance(n, ast.AugAssign) and test(t):
                    yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in MUTATE and test(n.func.value):
            yield n


def state(rel, tree):
    """State that outlives a call."""
    fs = list(functions(tree))
    glob = {}
    for s in tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value:
            for t in getattr(s, "targets", None) or [s.target]:
                if isinstance(t, ast.Name):
                    glob[t.id] = s.value
    for cls, f in fs:
        local = {a.arg for a in f.args.args + f.args.kwonlyargs} | {
            t.id for n in ast.walk(f) if isinstance(n, ast.Name) and
            isinstance(n.ctx, ast.Store) for t in [n]}
        for n in ast.walk(f):
            if isinstance(n, ast.Global):
                yield f, n, f"keeps {', '.join(n.names)} between calls"
        for n in written(f, lambda e: isinstance(e, ast.Name) and
                         e.id in glob and e.id not in local):
            yield f, n, "modifies a value of the module"
        for n in written(f, lambda e: isinstance(e, ast.Name) and
                         e.id == f.name and e.id not in local):
            yield f, n, "keeps state on a function"
        args = f.args.posonlyargs + f.args.args
        for a, d in list(zip(args[len(args) - len(f.args.defaults):],
                             f.args.defaults)) + [
                (a, d) for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults)
                if d is not None]:
            if mutable(d):
                for n in written(f, lambda e: isinstance(e, ast.Name) and
                                 e.id == a.arg):
                    yield f, n, f"modifies the default of {a.arg}"
            elif isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and \
                    (d.func.id == "RandomNumberGenerator" or
                     d.func.id.startswith(("Max", "No", "First", "Multiple"))
                     or d.func.id in ("PenaltyManager", "Statistics",
                                      "RingBuffer", "LocalSearch")):
                yield f, d, f"the default of {a.arg} is shared by all calls"
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        shared = {}
        for s in c.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value:
                for t in getattr(s, "targets", None) or [s.target]:
                    if isinstance(t, ast.Name):
                        shared[t.id] = s.value
        assigned = {n.attr for n in ast.walk(c)
                    if isinstance(n, ast.Attribute) and
                    isinstance(n.ctx, ast.Store) and
                    isinstance(n.value, ast.Name) and n.value.id == "self"}
        for f in c.body:
            if not isinstance(f, ast.FunctionDef):
                continue
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in getattr(n, "targets", None) or [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name) and (
                                    t.value.id == c.name or
                                    t.value.id == "cls"):
                            yield f, n, f"keeps {t.attr} on the class"
            for n in written(f, lambda e: isinstance(e, ast.Attribute) and
                             isinstance(e.value, ast.Name) and
                             e.value.id in ("self", "cls", c.name) and
                             e.attr in shared and mutable(shared[e.attr]) and
                             e.attr not in assigned):
                yield f, n, "modifies a value all instances share"


def c09():
    chk = Check(
        "C09", "effects of every C++ function (generators, clocks, "
        "environment, static storage, order of addresses, members without a "
        "value) from clang's syntax tree; in Python the flow of clock values "
        "to branches and native calls, and every other source, set order and "
        "state that outlives a call",
        ["Addresses of search routes may be compared: they are elements of "
         "one array.",
         "Hashes of numbers do not differ from run to run."])
    prog = program()
    chk.saw(*prog.checked)
    bad = set()
    for rule, f, file, line, what in sorted(prog.facts):
        if rule == "order":
            chk.undecided(rule, f"{f or file}:{what}", "hashes of numbers are "
                          "the same in every run, other hashes may not be")
        elif rule != "dangling":
            bad.add(f)
            chk.bad(rule, f or f"{file}", what, (file, line))
    for q, loc, name in sorted(uninitialised(prog.records, prog.funcs)):
        bad.add(q)
        chk.bad("uninit", q, f"{name} has no value after construction", loc)
    for f in sorted(prog.checked - bad):
        chk.ok("cpp", f)

    mods = list(modules())
    tm = Time(mods)
    hits = {}
    for (rel, line), (f, why) in tm.found.items():
        hits.setdefault((rel, f), []).append(("clock", line, why))
    for rel, tree in mods:
        if rel.startswith("stop/"):
            for cls, f in functions(tree):
                if f.name == "__call__" and cls != "MaxRuntime":
                    tm.rets.discard((cls, "__call__"))
                    tm.names = set()
                    tm.function(rel, cls, f, imports(tree))
                    if (cls, "__call__") in tm.rets:
                        hits.setdefault((rel, f"{cls}.__call__"), []).append(
                            ("clock", f.lineno, "stops by a clock"))
        for n, why in [*sources(rel, tree), *identities(tree)]:
            hits.setdefault((rel, where(tree, n)), []).append(
                ("source", n.lineno, why))
        for f, n, why in state(rel, tree):
            hits.setdefault((rel, f.name), []).append(("state", n.lineno, why))
    for rel, tree in mods:
        for cls, f in functions(tree):
            name = f"{cls}.{f.name}" if cls else f.name
            chk.saw(f"{rel}:{name}")
            for n, why in set_order(f):
                chk.undecided("order", f"{rel}:{name}", f"{why} a set at line "
                              f"{n.lineno}")
            if not any(k[0] == rel and k[1] in (name, f.name) for k in hits):
                chk.ok("python", f"{rel}:{name}")
    for (rel, f), hs in sorted(hits.items()):
        for rule, line, why in sorted(set(hs)):
            chk.bad(rule, f"{rel}:{f}", why, (os.path.join("pyvrp", rel),
                                              line))
    return chk.finish()


def where(tree, n):
    for cls, f in functions(tree):
        if f.lineno <= n.lineno <= (f.end_lineno or f.lineno):
            return f"{cls}.{f.name}" if cls else f.name
    return "module"


TECHNIQUE = {"C09": "effect and taint analysis over clang's typed syntax tree "
                    "and Python's ast"}
CHECKS = {"C09": c09}
