"""C01, C06-C08: what the pybind11 tables promise Python."""
import re

from engine.bindings import classes
from engine.check import Check
from engine.cppfront import N

from .common import program

TECHNIQUE = {
    "C01": "dataflow through the pickle lambdas and unserialising constructors: "
           "state slot to constructor parameter to field",
    "C06": "query over the pybind11 tables: member behind each Python name, "
           "constness of what is reachable, order of keyword names",
    "C07": "interprocedural guard analysis: accesses by a bound index "
           "parameter against the comparisons that dominate them",
    "C08": "escape analysis of constructors and methods (which arguments does "
           "the object keep a pointer to) against the keep_alive and "
           "return-value policies of the pybind11 tables",
}
NOTE = ("Decides the binding tables as clang resolves them, for every class of "
        "both extension modules. Trusts pybind11's documented meaning of its "
        "policies and the engine's lowering. What a lambda or a derived value "
        "computes beyond the recognised forms is undecided, not a violation.")
LEVEL_NOTE = {"C01": NOTE, "C06": NOTE, "C07": NOTE, "C08": NOTE}


def camel(s):
    a, *b = s.strip("_").split("_")
    return a + "".join(x.capitalize() for x in b)


def norm(s):
    return str(s).replace("_", "").lower()


def walk(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, N):
            yield y
            todo.extend(y.a)
        elif isinstance(y, (list, tuple)):
            todo.extend(y)
        elif isinstance(y, dict):
            todo.extend(y.values())


def strip(e):
    """Without conversions that keep the value."""
    while isinstance(e, N):
        if e.k == "cast":
            e = e.a[-1]
        elif e.k == "call" and e.a[1] in ("move", "forward") and e.a[3]:
            e = e.a[3][0]
        elif e.k == "ctor" and isinstance(e.a[2], (list, tuple)) and \
                len(e.a[2]) == 1:
            e = e.a[2][0]
        else:
            break
    return e


def isvar(e, v):
    return isinstance(e, N) and e.k == "var" and e.a[0] == v


def mentions(e, v):
    return any(isvar(x, v) for x in walk(e))


def rooted(e, test):
    """Is this place inside the object the test recognises?"""
    while isinstance(e, N):
        if test(e):
            return True
        if e.k in ("mem", "idx"):
            e = e.a[0]
        elif e.k == "un":
            e = e.a[1]
        elif e.k == "call" and e.a[2] is not None:
            e = e.a[2]
        elif e.k == "cast":
            e = e.a[-1]
        else:
            return False
    return False


def lam(e):
    """(parameters, body) of a lambda."""
    return (e.a[0], e.a[2]) if isinstance(e, N) and e.k == "lambda" else None


def strings(x):
    for y in walk(x):
        for z in y.a:
            if isinstance(z, str):
                yield z


def bad(chk, rule, label, loc, why):
    chk.bad(rule, label, why, loc)


def maybe(chk, rule, label, why, loc=None):
    chk.undecided(rule, label, why)


def good(chk, rule, label, loc=None):
    chk.saw(label.split(" ")[0])
    chk.ok(rule, label)


class Tables:
    def __init__(self, chk):
        self.chk = chk
        self.prog = program()
        self.classes = classes(self.prog)
        self.memo = {}

    def where(self, loc):
        return loc

    def record(self, cpp):
        return self.prog.records.get(cpp) or \
            self.prog.records.get(cpp.replace(", ", ","))

    def fields(self, cpp):
        out, todo = {}, [cpp]
        while todo:
            r = self.record(todo.pop())
            if r:
                out.update(r["fields"])
                todo += r["bases"]
        return out

    def function(self, target):
        """The function a def binds, if it is named."""
        for x in walk(target):
            if x.k == "fnref":
                return self.prog.funcs.get(x.a[0])
        return None

    def method(self, key):
        return self.prog.funcs.get(key) if key else None

    # The field an accessor returns unchanged
    def direct(self, e, me, depth=0):
        e = strip(e)
        if not isinstance(e, N) or depth > 4:
            return None
        if e.k == "mem" and me(e.a[0]):
            return e.a[1]
        if e.k == "call" and e.a[2] is not None and not e.a[3] and \
                me(strip(e.a[2])):
            f = self.method(e.a[0])
            return self.accessor(f, depth + 1) if f else None
        return None

    def accessor(self, f, depth=0):
        if not f or f["body"] is None:
            return None
        b = [s for s in flat(f["body"])]
        if len(b) == 1 and b[0].k == "ret":
            return self.direct(b[0].a[0], lambda x: isinstance(x, N)
                               and x.k == "this", depth)
        return None

    # -- escape analysis -----------------------------------------------------
    def keeps(self, key, i, seen=()):
        """Does the object keep a pointer to argument i of this function?"""
        f = self.method(key)
        if not f or (key, i) in seen:
            return False
        if (key, i) not in self.memo:
            self.memo[key, i] = self._keeps(f, i, (*seen, (key, i)))
        return self.memo[key, i]

    def _keeps(self, f, i, seen):
        if i >= len(f["params"]):
            return False
        var, _, ty = f["params"][i]
        if not ty.rstrip().endswith(("&", "*")) or ty.rstrip().endswith("&&"):
            return False
        ptr = ty.rstrip().endswith("*")
        flds = (self.record(f["record"]) or {"fields": {}})["fields"]

        def alias(e):
            e = strip(e)
            if isvar(e, var):
                return "ptr" if ptr else "ref"
            if isinstance(e, N) and e.k == "un" and e.a[0] == "&" and \
                    isvar(strip(e.a[1]), var):
                return "ptr"
            return None
        for (kind, name), e in f.get("inits") or ():
            if kind == "field":
                t = str(flds.get(name, {}).get("type", "")).rstrip()
                a = alias(e)
                if a and (t.endswith("&") or a == "ptr" and (
                        t.endswith("*") or t.endswith("* const"))):
                    return f"member {name}"
            for x in walk(e):
                if x.k == "ctor" and x.a[1]:
                    for j, y in enumerate(x.a[2]):
                        if alias(y):
                            r = self.keeps(x.a[1], j, seen)
                            if r:
                                return f"{name}: {r}"
        if f["body"] is None:
            return False
        return self.stored(f["body"], alias, lambda x: x.k == "this", seen)

    def stored(self, body, alias, me, seen=()):
        for x in walk(body):
            if x.k == "asg" and x.a[0] == "=" and alias(x.a[2]) == "ptr" and \
                    rooted(x.a[1], me) and not (
                        isinstance(x.a[1], N) and x.a[1].k == "var"):
                return "member " + str(x.a[1].a[1] if x.a[1].k == "mem"
                                       else "element")
            if x.k == "call" and x.a[2] is not None and rooted(x.a[2], me):
                for j, y in enumerate(x.a[3]):
                    a = alias(y)
                    if not a:
                        continue
                    if x.a[0] is None:
                        if a == "ptr" and x.a[1] in (
                                "push_back", "emplace_back", "insert",
                                "emplace", "push_front", "assign"):
                            return "a container"
                    else:
                        r = self.keeps(x.a[0], j, seen)
                        if r:
                            return r
        return False

    def holds_this(self, key, i, seen=()):
        """Does argument i keep a pointer to the object?"""
        f = self.method(key)
        if not f or f["body"] is None or i >= len(f["params"]) or \
                (key, i) in seen:
            return False
        var = f["params"][i][0]
        for x in walk(f["body"]):
            if x.k == "asg" and isinstance(x.a[2], N) and \
                    strip(x.a[2]).k == "this" and \
                    rooted(x.a[1], lambda e: isvar(e, var)) and \
                    not isvar(x.a[1], var):
                return True
            if x.k == "call" and x.a[0] and isinstance(x.a[2], N) and \
                    strip(x.a[2]).k == "this":
                for j, y in enumerate(x.a[3]):
                    if isvar(strip(y), var) and \
                            self.holds_this(x.a[0], j, (*seen, (key, i))):
                        return True
        return False

    def constructors(self, c, n):
        todo = [c.cpp]
        while todo:
            cpp = todo.pop()
            r = self.record(cpp)
            if not r:
                continue
            name = re.sub(r"<.*", "", cpp).split("::")[-1]
            own = [f for f in (self.prog.funcs[k]
                               for k in r["methods"].get(name, []))
                   if len(f["params"]) == n and not f["deleted"]
                   and f["params"][0][1] is not None]
            yield from own
            if not own:        # inherited constructors
                todo += r["bases"]

    def constructor(self, c, d):
        fs = list(self.constructors(c, len(d.args)))
        want = [norm(a) for a in d.args]
        same = [f for f in fs if [norm(p[1]) for p in f["params"]] == want]
        perm = [f for f in fs
                if sorted(norm(p[1]) for p in f["params"]) == sorted(want)]
        return (same or perm or (fs if len(fs) == 1 else [None]))[0]


def flat(n):
    if isinstance(n, (list, tuple)):
        for x in n:
            yield from flat(x)
    elif isinstance(n, N):
        if n.k == "block":
            yield from flat(n.a[0])
        else:
            yield n


# -- C01 ---------------------------------------------------------------------

ANY, DERIVED = "*", "~"


def locals_of(body):
    """Local variable -> its only expression, or ANY when it is built up."""
    env = {}
    for s in walk(body):
        if s.k == "decl":
            env[s.a[0]] = s.a[2]
    for s in walk(body):
        if s.k == "asg" and isinstance(s.a[1], N) and s.a[1].k == "var":
            env[s.a[1].a[0]] = ANY
        if s.k == "call" and isinstance(s.a[2], N) and s.a[2].k == "var" and \
                s.a[0] is None and s.a[1] in (
                    "push_back", "emplace_back", "insert", "append",
                    "resize", "emplace"):
            env[s.a[2].a[0]] = ANY
    return env


def c01():
    chk = Check("C01", "every field of an unpickled object comes from the same "
                "field of the original, through one slot of the state tuple")
    T = Tables(chk)
    for c in T.classes.values():
        for d in c.defs:
            if d.name == "<pickle>":
                try:
                    pickle(chk, T, c, d)
                except Exception as e:
                    maybe(chk, "pickle", c.name, repr(e), T.where(d.loc))
    return chk.finish()


def pickle(chk, T, c, d):
    get, put = (lam(x) for x in d.target.a[3])
    where = T.where(d.loc)
    if not get or not put:
        maybe(chk, "pickle", c.name, "not a pair of lambdas", where)
        return
    (gp, gbody), (pp, pbody) = get, put
    me, tup = gp[0][0], pp[0][0]
    rets = [s for s in walk(gbody) if s.k == "ret"]
    if len(rets) != 1:
        maybe(chk, "pickle", c.name, "more than one way out", where)
        return
    t = strip(rets[0].a[0])
    if not (t.k == "call" and t.a[1] == "make_tuple"):
        maybe(chk, "pickle", c.name, "no make_tuple", where)
        return
    env = locals_of(gbody)

    def source(e, depth=0):
        """Fields of the original this value depends on."""
        e = strip(e)
        f = T.direct(e, lambda x: isvar(strip(x), me))
        if f is not None:
            return {f}
        if isinstance(e, N) and e.k == "var" and e.a[0] != me:
            v = env.get(e.a[0], ANY)
            return {ANY} if v is ANY or depth > 5 else source(v, depth + 1)
        out = set()
        for x in walk(e):
            if x.k == "mem" and isvar(strip(x.a[0]), me):
                out.add(x.a[1])
            elif x.k == "call" and x.a[2] is not None and \
                    isvar(strip(x.a[2]), me):
                f = T.method(x.a[0])
                g = T.accessor(f)
                if g:
                    out.add(g)
                else:
                    out.add(ANY)
            elif x.k == "var" and x.a[0] != me:
                out.add(ANY)
            elif x.k == "lambda":
                out.add(ANY)
        if any(isvar(x, me) for x in (e,)):
            out.add(ANY)
        return out
    slots = [source(e) for e in t.a[3]]
    # the other direction
    penv = locals_of(pbody)
    rets = [s for s in walk(pbody) if s.k == "ret"]
    if len(rets) != 1:
        maybe(chk, "pickle", c.name, "more than one way out", where)
        return

    def made(e, depth=0):
        e2 = e
        while isinstance(e2, N) and depth < 8:
            depth += 1
            if e2.k == "cast":
                e2 = e2.a[-1]
            elif e2.k == "call" and e2.a[1] in ("move", "make_unique",
                                                "make_shared"):
                if e2.a[1] != "move":
                    return None
                e2 = e2.a[3][0]
            elif e2.k == "var":
                v = penv.get(e2.a[0])
                if v is ANY or v is None:
                    return None
                e2 = v
            elif e2.k == "ctor":
                f = T.method(e2.a[1])
                if f and len(f["params"]) == 1 and len(e2.a[2]) == 1 and \
                        f["record"].split("::")[-1] in f["params"][0][2] and \
                        f["params"][0][2].rstrip().endswith("&"):
                    e2 = e2.a[2][0]
                else:
                    return e2
            else:
                return None
        return None
    m = made(rets[0].a[0])
    f = T.method(m.a[1]) if m is not None else None
    if not f:
        maybe(chk, "pickle", c.name, "the object is not made by one "
                      "constructor call", where)
        return

    def used(e, depth=0):
        out = set()
        for x in walk(e):
            if x.k == "idx" and isvar(strip(x.a[0]), tup):
                i = strip(x.a[1])
                out.add(i.a[0] if i.k == "const" and
                        isinstance(i.a[0], int) else ANY)
            elif x.k == "var" and x.a[0] != tup:
                v = penv.get(x.a[0], ANY)
                out |= {ANY} if v is ANY or depth > 5 else used(v, depth + 1)
        return out
    args = [used(a) for a in m.a[2]]
    fed = feeds(T, f)
    total = T.fields(c.cpp)
    n = 0
    for name, info in total.items():
        n += 1
        label = f"{c.name}.{name}"
        ps = fed.get(name)
        if ps is None:
            if info.get("mutable") or info.get("init") is not None or \
                    name not in T.record(c.cpp)["fields"]:
                maybe(chk, "pickle", label, "set elsewhere", where)
            else:
                bad(chk, "pickle", label, where,
                              f"{f['qual']} does not restore {name} from the "
                              f"pickled state")
            continue
        src = set()
        for p in ps:
            if p == DERIVED:
                continue
            if p == ANY or p >= len(args):
                src.add(ANY)
                continue
            for s in args[p]:
                if s == ANY:
                    src.add(ANY)
                elif s >= len(slots):
                    bad(chk, "pickle", label, where, f"slot {s} is read "
                                  f"but only {len(slots)} are written")
                    src.add(ANY)
                else:
                    src |= slots[s]
        if name in src:
            good(chk, "pickle", label, where)
        elif ANY in src:
            # a derived value; at least it depends on the state
            good(chk, "pickle", label + " (derived)", where)
        elif DERIVED in ps and src and not (
                len(src) == 1 and {name} in slots):
            maybe(chk, "pickle", label, "computed from " +
                  ", ".join(sorted(src)), where)
        else:
            bad(chk, "pickle", label, where,
                          f"{name} is restored from "
                          f"{', '.join(sorted(src)) or 'a constant'}")


def feeds(T, f, depth=0):
    """Field -> the constructor parameters its value depends on."""
    out = {}
    index = {p[0]: i for i, p in enumerate(f["params"])}
    if f["body"] is None:
        return out

    def params(e):
        ps = set()
        for x in walk(e):
            if x.k == "var":
                ps.add(index[x.a[0]] if x.a[0] in index else ANY)
            elif x.k == "defarg":
                pass
        return ps
    for (kind, name), e in f.get("inits") or ():
        if kind == "field":
            if any(x.k == "definit" for x in walk(e)):
                continue
            ps = params(e)
            b = strip(e)
            if not (isinstance(b, N) and b.k == "var"):
                ps.add(DERIVED)
            # other members initialised earlier
            for x in walk(e):
                if x.k == "mem" and x.a[1] in out and \
                        x.a[0].k == "this":
                    ps |= out[x.a[1]]
            if ps - {DERIVED}:
                out[name] = ps
            elif any(True for x in walk(e) if x.k in ("call", "const")):
                out.setdefault(name, set())
        elif kind in ("base", "delegate"):
            g = None
            for x in walk(e):
                if x.k == "ctor" and x.a[1]:
                    g = T.method(x.a[1])
                    if g and depth < 4:
                        inner = feeds(T, g, depth + 1)
                        if len(g["params"]) == 1 and g["body"] is None or \
                                not inner:
                            for n in T.fields(g["record"]):
                                out[n] = {ANY} | params(x.a[2])
                        for n, ps in inner.items():
                            got = set()
                            for p in ps:
                                if p == DERIVED:
                                    got.add(p)
                                elif p == ANY or p >= len(x.a[2]):
                                    got.add(ANY)
                                else:
                                    got |= params(x.a[2][p])
                            out[n] = got
                    break
    for x in walk(f["body"]):
        tgt = None
        if x.k == "asg" and isinstance(x.a[1], N):
            tgt, val = x.a[1], params(x.a[2])
        elif x.k == "call" and isinstance(x.a[2], N):
            tgt, val = x.a[2], {ANY}
            if tgt.k == "this" and x.a[0] and \
                    not x.a[0].startswith("_ZNK"):
                for n in T.fields(f["record"]):
                    out[n] = out.get(n, set()) | {ANY}
        if tgt is None:
            continue
        while isinstance(tgt, N) and tgt.k in ("idx", "mem", "un", "cast"):
            if tgt.k == "mem" and isinstance(tgt.a[0], N) and \
                    tgt.a[0].k == "this":
                if x.k == "asg" or not x.a[0] or \
                        "_ZNK" not in str(x.a[0]):
                    if x.k == "call" and x.a[1] in (
                            "size", "empty", "begin", "end", "back", "front",
                            "capacity", "operator[]", "at"):
                        break
                    out[tgt.a[1]] = out.get(tgt.a[1], set()) | val | {ANY}
                break
            tgt = tgt.a[-1] if tgt.k == "cast" else \
                tgt.a[1] if tgt.k == "un" else tgt.a[0]
    return out


# -- C06 ---------------------------------------------------------------------

FROZEN = {"Activity", "PiecewiseLinearFunction", "Location", "Client", "Depot",
          "ShipmentStep", "Shipment", "ClientGroup", "VehicleType",
          "ProblemData", "ScheduledActivity", "Route", "Solution",
          "CostEvaluator", "LoadSegment", "DurationSegment"}


def c06():
    chk = Check("C06", "every Python name is bound to the member it names; "
                "nothing bound on an instance, route or solution class "
                "writes; keyword names stand in the order of the parameters")
    T = Tables(chk)
    for c in T.classes.values():
        members = set(T.fields(c.cpp))
        todo = [c.cpp]
        while todo:
            r = T.record(todo.pop())
            if r:
                members |= {k for k in r["methods"]}
                todo += r["bases"]
        byname = {norm(m): m for m in members}
        for d in c.defs:
            try:
                named(chk, T, c, d, byname)
                frozen(chk, T, c, d)
                keywords(chk, T, c, d)
            except Exception as e:
                maybe(chk, "binding", f"{c.name}.{d.name}", repr(e),
                              T.where(d.loc))
    return chk.finish()


def behind(T, c, d):
    """The name of the member a def hands out, if it is just one."""
    t = strip(d.target)
    for x in walk(t):
        if x.k == "lambda":
            break
    else:
        for x in walk(t):
            if x.k == "fieldref":
                return x.a[1]
            if x.k == "fnref":
                return x.a[1]
        return None
    p, body = lam(t) if lam(t) else (None, None)
    if not p:
        return None
    b = [s for s in walk(body) if s.k == "ret"]
    if len(b) == 1 and not any(s.k in ("asg", "decl") for s in walk(body)):
        e = strip(b[0].a[0])
        if e.k == "mem" and isvar(strip(e.a[0]), p[0][0]):
            return e.a[1]
        if e.k == "call" and e.a[2] is not None and \
                isvar(strip(e.a[2]), p[0][0]) and \
                [strip(a) for a in e.a[3]] == \
                [x for x in map(strip, e.a[3]) if x.k == "var"]:
            return e.a[1]
    return None


def named(chk, T, c, d, byname):
    if d.name.startswith(("<", "__")) or not d.kind.startswith("def"):
        return
    where, label = T.where(d.loc), f"{c.module}.{c.name}.{d.name}"
    m = behind(T, c, d)
    if m is None:
        maybe(chk, "name", label, "computed in place", where)
        return
    if norm(m) == norm(d.name):
        good(chk, "name", label, where)
        return
    # does the member under another name return the one that is named?
    own = byname.get(norm(d.name))
    f = T.function(d.target)
    if f and norm(T.accessor(f) or "") == norm(d.name):
        good(chk, "name", label, where)
    elif own is not None and not d.kind.endswith("static"):
        bad(chk, "name", label, where,
                      f"bound to {c.cpp}::{m}, but {c.cpp} has {own}")
    elif any(norm(e.name) == norm(m) for e in c.defs if e is not d):
        bad(chk, "name", label, where,
                      f"bound to {c.cpp}::{m}, which Python already sees "
                      f"under its own name")
    else:
        good(chk, "name", label + f" (for {m})", where)


def returned(T, d):
    """The types a def hands out."""
    l, out = lam(strip(d.target)), set()
    for x in walk(d.target):
        if x.k == "fieldref":
            r = T.record(x.a[0])
            fld = (r or {"fields": {}})["fields"].get(x.a[1])
            if fld:
                out |= {str(fld["type"]), str(fld["dtype"])}
            return out
        if x.k == "fnref" and not l:
            f = T.method(x.a[0])
            return {f["type"].split("(")[0]} if f else out
    if l:
        for x in walk(l[1]):
            if x.k == "ret" and isinstance(x.a[0], N):
                e = strip(x.a[0])
                f = T.method(e.a[0]) if e.k == "call" else None
                if f:
                    out.add(f["type"].split("(")[0])
                elif e.k == "mem":
                    fld = T.fields(e.a[2]).get(e.a[1]) if e.a[2] else None
                    out |= {str(fld["type"])} if fld else set()
    return out


def handouts(T, c):
    """Where another object of the main module hands out its own c."""
    name = c.cpp.split("::")[-1]
    for o in T.classes.values():
        if o.module != "_pyvrp" or o is c:
            continue
        for d in o.defs:
            pol = d.policy()
            prop = d.kind.startswith(("def_property", "def_read"))
            if pol in ("copy", "move") or (pol is None and not prop):
                continue
            if any(re.search(rf"\b{name}\b(?!::)", t)
                   for t in returned(T, d)):
                yield o, d


CORE = {"ProblemData", "Route", "Solution", "ScheduledActivity", "Activity",
        "CostEvaluator"}


def writes(chk, T, c, d, why):
    where, label = T.where(d.loc), f"{c.name}.{d.name}"
    if c.name in CORE:
        bad(chk, "frozen", label, where, why)
        return
    out = list(handouts(T, c))
    for o, e in out:
        bad(chk, "frozen", f"{o.name}.{e.name}", T.where(e.loc),
            f"hands out its own {c.name}, which {c.name}.{d.name} changes "
            f"({why})")
    if not out:
        good(chk, "frozen", label + " (only ever handed out by value)")


def frozen(chk, T, c, d):
    if c.module != "_pyvrp" or c.name not in FROZEN or d.name in (
            "<init>", "<pickle>", "<op>"):
        return
    where, label = T.where(d.loc), f"{c.name}.{d.name}"
    if d.kind in ("def_readwrite", "def_property", "def_readwrite_static",
                  "def_property_static"):
        writes(chk, T, c, d, f"{d.kind}: Python can assign to this attribute")
        return
    t = strip(d.target)
    l = lam(t)
    if l and l[0]:
        var, _, ty = l[0][0]
        if ty.rstrip().endswith(("&", "*")) and "const" not in ty and \
                norm(c.cpp.split("::")[-1]) in norm(ty):
            for x in walk(l[1]):
                if x.k == "asg" and rooted(x.a[1], lambda e: isvar(e, var)) \
                        and not isvar(x.a[1], var):
                    writes(chk, T, c, d, "assigns to a member")
                    return
                if x.k == "call" and x.a[0] and x.a[2] is not None and \
                        isvar(strip(x.a[2]), var) and mutator(T, x.a[0]):
                    writes(chk, T, c, d, f"calls {x.a[1]}(), which writes")
                    return
    elif not d.kind.endswith("static"):
        f = T.function(d.target)
        if f and not f["static"] and mutator(T, f["key"]):
            writes(chk, T, c, d, f"{f['qual']} writes to the object")
            return
    good(chk, "frozen", label, where)


def mutator(T, key, seen=()):
    f = T.method(key)
    if not f or f["body"] is None or key in seen or \
            re.match(r"_ZNV?K", key) or f["static"]:
        return False
    for x in walk(f["body"]):
        if x.k in ("asg", "incdec", "preinc", "postinc") and any(
                isinstance(a, N) and rooted(a, lambda e: e.k == "this")
                for a in x.a[1:2]):
            return True
        if x.k == "call" and x.a[2] is not None and \
                rooted(x.a[2], lambda e: e.k == "this"):
            if x.a[0] is None and x.a[1] in (
                    "push_back", "emplace_back", "insert", "clear", "erase",
                    "resize", "pop_back", "emplace", "swap", "reset",
                    "operator=", "assign", "fill"):
                return True
            if x.a[0] and mutator(T, x.a[0], (*seen, key)):
                return True
    return False


def keywords(chk, T, c, d):
    args = d.args
    if len(args) < 2:
        return
    where, label = T.where(d.loc), f"{c.module}.{c.name}.{d.name}"
    l = lam(strip(d.target))
    if d.name == "<init>":
        f = T.constructor(c, d)
        inner = next((lam(x) for x in walk(d.target) if x.k == "lambda"), None)
        params = [p[1] for p in inner[0]] if inner else \
            [p[1] for p in f["params"]] if f else None
    elif l:
        params = [p[1] for p in l[0]][0 if d.kind.endswith("static") else 1:]
    else:
        f = T.function(d.target)
        params = [p[1] for p in f["params"]] if f else None
    if not params or len(params) != len(args) or None in params:
        maybe(chk, "keywords", label, "parameters not resolved", where)
        return
    a, p = [norm(x) for x in args], [norm(x) for x in params]
    if a == p:
        good(chk, "keywords", label, where)
        return
    for i, x in enumerate(a):
        if x != p[i] and x in p:
            bad(chk, "keywords", label, where,
                          f"keyword {args[i]} reaches parameter {params[i]}")
            return
    good(chk, "keywords", label, where)


# -- C08 ---------------------------------------------------------------------

def c08():
    chk = Check("C08", "an object that keeps a pointer to a Python argument "
                "keeps the argument alive; a pointer handed to Python keeps "
                "its owner alive and is not freed by Python")
    T = Tables(chk)
    for c in T.classes.values():
        for d in c.defs:
            try:
                kept(chk, T, c, d)
                handed(chk, T, c, d)
            except Exception as e:
                maybe(chk, "lifetime", f"{c.name}.{d.name}", repr(e),
                              T.where(d.loc))
    for rule, f, file, line, what in sorted(T.prog.facts):
        if rule == "dangling":
            chk.bad(rule, f or file, what, (file, line))
    return chk.finish()


def need(chk, T, c, d, nurse, patient, why):
    where, label = T.where(d.loc), f"{c.module}.{c.name}.{d.name}"
    if (nurse, patient) in d.keeps():
        good(chk, "keep_alive", f"{label} <{nurse}, {patient}>", where)
    else:
        bad(chk, "keep_alive", label, where,
                      f"no keep_alive<{nurse}, {patient}>: {why}")


def kept(chk, T, c, d):
    if d.name == "<init>":
        inner = next((lam(x) for x in walk(d.target) if x.k == "lambda"), None)
        if inner:
            for x in walk(inner[1]):
                if x.k == "ctor" and x.a[1]:
                    for j, y in enumerate(x.a[2]):
                        y = strip(y)
                        for k, p in enumerate(inner[0]):
                            if isvar(y, p[0]):
                                r = T.keeps(x.a[1], j)
                                if r:
                                    need(chk, T, c, d, 1, k + 2,
                                         f"{p[1]} stays referenced by {r}")
            return
        f = T.constructor(c, d)
        if not f:
            if d.args:
                maybe(chk, "keep_alive", f"{c.name}.{d.name}",
                              "constructor not resolved", T.where(d.loc))
            return
        n = 0
        for i, p in enumerate(f["params"]):
            r = T.keeps(f["key"], i)
            if r:
                n += 1
                need(chk, T, c, d, 1, i + 2,
                     f"{p[1]} stays referenced by {r}")
        if not n:
            good(chk, "keep_alive", f"{c.module}.{c.name}.{d.name}",
                   T.where(d.loc))
        return
    if d.name.startswith("<") or d.kind.endswith("static"):
        return
    l = lam(strip(d.target))
    n = 0
    if l and l[0]:
        me = l[0][0][0]
        for k, p in enumerate(l[0][1:], 1):
            ty = p[2].rstrip()
            if not ty.endswith(("&", "*")):
                continue

            def alias(e, v=p[0], ptr=ty.endswith("*")):
                e = strip(e)
                if isvar(e, v):
                    return "ptr" if ptr else "ref"
                if isinstance(e, N) and e.k == "un" and e.a[0] == "&" and \
                        isvar(strip(e.a[1]), v):
                    return "ptr"
                return None
            r = T.stored(l[1], alias, lambda e: isvar(e, me))
            if r:
                n += 1
                need(chk, T, c, d, 1, k + 1, f"{p[1]} stays referenced by {r}")
            for x in walk(l[1]):
                if x.k == "call" and x.a[0] and isvar(strip(x.a[2]), me):
                    for j, y in enumerate(x.a[3]):
                        if isvar(strip(y), p[0]) and T.holds_this(x.a[0], j):
                            n += 1
                            need(chk, T, c, d, k + 1, 1,
                                 f"{p[1]} refers back to the object")
    else:
        f = T.function(d.target)
        if f and not f["static"]:
            for i, p in enumerate(f["params"]):
                r = T.keeps(f["key"], i)
                if r:
                    n += 1
                    need(chk, T, c, d, 1, i + 2,
                         f"{p[1]} stays referenced by {r}")
                if T.holds_this(f["key"], i):
                    n += 1
                    need(chk, T, c, d, i + 2, 1,
                         f"{p[1]} refers back to the object")
    if not n:
        good(chk, "keep_alive", f"{c.module}.{c.name}.{d.name}", T.where(d.loc))


def handed(chk, T, c, d):
    where, label = T.where(d.loc), f"{c.module}.{c.name}.{d.name}"
    if d.name in ("<init>", "<pickle>", "<op>"):
        return
    prop = d.kind.startswith(("def_property", "def_read"))
    l = lam(strip(d.target))
    if any(x.k == "call" and x.a[1] in ("make_iterator", "make_key_iterator",
                                        "make_value_iterator")
           for x in walk(d.target)):
        need(chk, T, c, d, 0, 1, "the iterator points into the container")
        return
    ret = None
    if l:
        for x in walk(l[1]):
            if x.k == "ret" and isinstance(x.a[0], N):
                e = x.a[0]
                if e.k == "un" and e.a[0] == "&":
                    ret = "*"
                elif e.k == "idx" or e.k == "call":
                    f = T.method(e.a[0]) if e.k == "call" else None
                    if f and f["type"].split("(")[0].rstrip().endswith("*"):
                        ret = "*"
    else:
        f = T.function(d.target)
        if f:
            ret = f["type"].split("(")[0].strip()
    pol = d.policy()
    pointer = ret is not None and re.search(r"\*", ret)
    ref = ret is not None and ret.endswith("&")
    ties = any(n == 0 for n, _ in d.keeps())
    if pol == "reference" and not ties and (pointer or ref or l or ret is None):
        bad(chk, "policy", label, where, "handed out by reference "
                      "without keeping the owner alive")
    elif pol == "take_ownership" and (pointer or ref):
        bad(chk, "policy", label, where, "Python frees what C++ owns")
    elif pointer and (pol in (None, "automatic")) and not prop:
        bad(chk, "policy", label, where,
                      "pybind11 frees the pointer that this returns")
    elif pointer and pol in ("automatic",):
        bad(chk, "policy", label, where,
                      "pybind11 frees the pointer that this returns")
    elif pol == "automatic_reference" and (pointer or ref) and not ties:
        bad(chk, "policy", label, where, "handed out by reference "
                      "without keeping the owner alive")
    elif pol in ("reference_internal",) and d.kind.endswith("static") and \
            (pointer or ref):
        bad(chk, "policy", label, where, "no owner to keep alive")
    else:
        good(chk, "policy", label, where)


# -- C07 ---------------------------------------------------------------------

SAFE = {"at", "find", "contains", "count"}
INDEX = re.compile(r"^(const )?(std::)?(size_t|int|long|unsigned( long)?|"
                   r"u?int\d*_t|ssize_t|std::size_t)( const)?$")


class Access:
    """Element accesses by a parameter, and the guards in front of them."""

    def __init__(self, T, body, var, signed, facts=(), depth=0):
        self.T, self.var, self.depth = T, var, depth
        self.found = []        # (container, loc, guarded, simple)
        self.upper = set(facts)
        self.lower = not signed
        self.env = {}
        self.opaque = False    # tested in a way that is not followed
        self.exits = None
        self.go(body)

    def men(self, e):
        return any(self.same(x) or x.k == "var" and x.a[0] != self.var
                   and x.a[0] in self.env and self.men(self.env[x.a[0]])
                   for x in walk(e))

    def same(self, e):
        """The parameter, or a whole fraction of it."""
        e = strip(e)
        if isvar(e, self.var):
            return True
        if isinstance(e, N) and e.k == "bin" and e.a[0] in ("/", ">>"):
            return self.same(e.a[1])
        if isinstance(e, N) and e.k == "var" and e.a[0] in self.env:
            return self.same(self.env[e.a[0]])
        return False

    def sizes(self, e, depth=0):
        """Containers whose size this bound depends on."""
        out = set()
        for x in walk(e):
            if x.k == "call" and x.a[2] is not None and not x.a[3]:
                if x.a[0] is None and x.a[1] in ("size", "ssize"):
                    out.add(self.container(x.a[2]))
                elif x.a[0] and depth < 4:
                    f = self.T.method(x.a[0])
                    if f and f["body"] is not None:
                        out |= self.sizes(f["body"], depth + 1)
            elif x.k == "mem":
                out.add(x.a[1])
            elif x.k == "var" and x.a[0] in self.env and depth < 4:
                out |= self.sizes(self.env[x.a[0]], depth + 1)
        return out

    def container(self, e):
        e = strip(e)
        while isinstance(e, N):
            if e.k == "mem":
                return e.a[1]
            if e.k == "call" and e.a[2] is not None and not e.a[3]:
                f = self.T.accessor(self.T.method(e.a[0])) if e.a[0] else None
                return f or e.a[1]
            if e.k == "var":
                v = self.env.get(e.a[0])
                if v is None:
                    return e.a[0]
                e = strip(v)
                continue
            if e.k == "un":
                e = strip(e.a[1])
                continue
            break
        return repr(e)[:40]

    def bind(self, f, args):
        for (v, _, _), a in zip(f["params"], args):
            if not isvar(strip(a), v):
                self.env[v] = strip(a)

    def atoms(self, c, holds, depth=0):
        """What follows for the parameter when c is (not) true."""
        c = strip(c)
        if not isinstance(c, N) or depth > 12:
            return
        if c.k == "un" and c.a[0] == "!":
            yield from self.atoms(c.a[1], not holds, depth + 1)
        elif c.k == "var" and c.a[0] in self.env:
            yield from self.atoms(self.env[c.a[0]], holds, depth + 1)
        elif c.k == "call" and any(self.men(a) for a in c.a[3]):
            f = self.T.method(c.a[0]) if c.a[0] else None
            b = list(flat(f["body"])) if f and f["body"] is not None else []
            if b and b[-1].k == "ret" and all(x.k == "decl" for x in b[:-1]):
                self.bind(f, c.a[3])
                for x in b[:-1]:
                    self.env[x.a[0]] = x.a[2]
                yield from self.atoms(b[-1].a[0], holds, depth + 1)
            else:
                yield "opaque", None
        elif c.k == "bin" and c.a[0] == ("&&" if holds else "||"):
            yield from self.atoms(c.a[1], holds, depth + 1)
            yield from self.atoms(c.a[2], holds, depth + 1)
        elif c.k == "bin" and c.a[0] in ("<", "<=", ">", ">="):
            op, a, b = c.a[0], strip(c.a[1]), strip(c.a[2])
            if not holds:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            lin = self.linear(a)
            rhs = self.linear(b)
            if lin is not None and rhs is not None:
                lin = lin.copy()
                for k, v in rhs.items():
                    lin[k] = lin.get(k, 0) - v
                sign = lin.pop("var", 0)
                if sign == -1:
                    lin = {k: -v for k, v in lin.items()}
                    op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                elif sign != 1:
                    return
                k = lin.pop("one", 0) - (op == "<=")
                lin = {x: v for x, v in lin.items() if v}
                if op in ("<", "<="):
                    # var + k + sizes < 0, or var + k + sizes <= 0
                    if k >= 0 and list(lin.values()).count(-1) == 1 and \
                            min(lin.values()) == -1:
                        yield "upper", {x[1] for x, v in lin.items()
                                        if v == -1}
                elif not lin:
                    yield "lower", None
                return
            if mentions(b, self.var) and not mentions(a, self.var):
                a, b = b, a
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
            if isvar(a, self.var) and not mentions(b, self.var):
                if op == "<":
                    yield "upper", self.sizes(b)
                elif op == "<=" and b.k == "bin" and b.a[0] == "-":
                    yield "upper", self.sizes(b)
                elif op in (">", ">=") and b.k in ("const", "un"):
                    yield "lower", None
            elif self.men(c):
                yield "opaque", None

    def linear(self, e, depth=0):
        """As a sum of the parameter, constants and sizes; None if not."""
        e = strip(e)
        if not isinstance(e, N) or depth > 8:
            return None
        if isvar(e, self.var):
            return {"var": 1}
        if e.k == "const" and isinstance(e.a[0], int):
            return {"one": int(e.a[0])}
        if e.k == "un" and e.a[0] in "+-":
            x = self.linear(e.a[1], depth + 1)
            if x is None:
                return None
            return x if e.a[0] == "+" else {k: -v for k, v in x.items()}
        if e.k == "bin" and e.a[0] in ("+", "-"):
            x = self.linear(e.a[1], depth + 1)
            y = self.linear(e.a[2], depth + 1)
            if x is None or y is None:
                return None
            out = dict(x)
            for k, v in y.items():
                out[k] = out.get(k, 0) + (v if e.a[0] == "+" else -v)
            return out
        if e.k == "var" and e.a[0] in self.env:
            return self.linear(self.env[e.a[0]], depth + 1)
        if e.k == "call" and e.a[2] is not None and not e.a[3]:
            if e.a[0] is None and e.a[1] in ("size", "ssize"):
                return {("size", self.container(e.a[2])): 1}
            f = self.T.method(e.a[0]) if e.a[0] else None
            if f and f["body"] is not None:
                rs = list(flat(f["body"]))
                if rs and rs[-1].k == "ret" and not any(
                        x.k in ("if", "decl", "for") for x in rs):
                    return self.linear(rs[-1].a[0], depth + 1)
        if e.k == "mem":
            return {("size", e.a[1]): 1}
        return None

    def learn(self, c, holds):
        for kind, what in self.atoms(c, holds):
            if kind == "upper":
                self.upper |= what
            elif kind == "opaque":
                self.opaque = True
            else:
                self.lower = True

    def checked(self, e):
        """What a call that returns has checked about its arguments."""
        e = strip(e)
        if not isinstance(e, N) or e.k != "call" or self.depth > 4 or \
                not any(self.men(a) for a in e.a[3]):
            return
        f = self.T.method(e.a[0]) if e.a[0] else None
        if not f or f["body"] is None:
            self.opaque = self.opaque or e.a[2] is None
            return
        saved, found, up = self.exits, self.found, set(self.upper)
        self.exits, self.found = [], []
        self.depth += 1
        self.bind(f, e.a[3])
        self.go(f["body"])
        b = list(flat(f["body"]))
        if not b or not (b[-1].k in ("ret", "throw") or leaves(b[-1:])):
            self.exits.append(set(self.upper))
        out = set.intersection(*self.exits) if self.exits else up
        self.exits, self.found, self.upper = saved, found, up | out
        self.depth -= 1

    def go(self, n):
        if isinstance(n, (list, tuple)):
            for x in n:
                self.go(x)
            return
        if not isinstance(n, N):
            return
        if n.k == "block":
            self.go(n.a[0])
        elif n.k == "decl":
            self.sites(n.a[2])
            self.env[n.a[0]] = n.a[2]
        elif n.k == "if":
            self.sites(n.a[0])
            saved = set(self.upper), self.lower
            self.learn(n.a[0], True)
            self.go(n.a[1])
            self.upper, self.lower = set(saved[0]), saved[1]
            if n.a[2] is not None:
                self.learn(n.a[0], False)
                self.go(n.a[2])
                self.upper, self.lower = set(saved[0]), saved[1]
            if leaves(n.a[1]):
                self.learn(n.a[0], False)
            elif n.a[2] is not None and leaves(n.a[2]):
                self.learn(n.a[0], True)
        elif n.k in ("for", "while", "foreach", "do", "switch", "try"):
            for x in n.a:
                self.go(x) if isinstance(x, (N, list, tuple)) else None
        else:
            self.sites(n)
            if n.k == "ret" and self.exits is not None:
                self.exits.append(set(self.upper))
            if n.k == "expr":
                self.checked(n.a[0])

    def sites(self, e):
        if not isinstance(e, N):
            if isinstance(e, (list, tuple)):
                for x in e:
                    self.sites(x)
            return
        if e.k == "cond":
            self.sites(e.a[0])
            saved = set(self.upper), self.lower
            self.learn(e.a[0], True)
            self.sites(e.a[1])
            self.upper, self.lower = set(saved[0]), saved[1]
            self.learn(e.a[0], False)
            self.sites(e.a[2])
            self.upper, self.lower = saved
            return
        if e.k == "lambda":
            return
        if e.k == "idx" and self.men(e.a[1]):
            self.note(self.container(e.a[0]), e.loc,
                      self.same(e.a[1]))
        elif e.k == "call" and any(self.men(a) for a in e.a[3]):
            if e.a[0] is None:
                if e.a[1] == "operator[]" and e.a[2] is not None:
                    self.note(self.container(e.a[2]), e.loc,
                              self.same(e.a[3][0]))
            elif self.depth < 5:
                f = self.T.method(e.a[0])
                if f and f["body"] is not None:
                    for j, a in enumerate(e.a[3]):
                        if j >= len(f["params"]) or \
                                not self.men(a):
                            continue
                        whole = isvar(strip(a), self.var)
                        v, _, ty = f["params"][j]
                        if not INDEX.match(ty):
                            continue
                        sub = Access(self.T, f["body"], v,
                                     ty in ("int", "long"),
                                     self.upper if whole else (),
                                     self.depth + 1)
                        for c, loc, ok, simple in sub.found:
                            if not whole and (self.upper or any(
                                    x.k == "bin" and x.a[0] in "%&" or
                                    x.k == "call" and x.a[1] in (
                                        "min", "max", "clamp")
                                    for x in walk(a))):
                                # an index adjusted in a way not followed
                                simple = False
                            self.found.append((c, loc, ok, simple))
        for x in e.a:
            self.sites(x)

    def note(self, c, loc, simple):
        pair = {"dists_": {"durs_"}, "durs_": {"dists_"}}.get(c, set())
        ok = c in self.upper or bool(self.upper & pair)
        self.found.append((c, loc, ok, simple and not self.opaque))


def leaves(n):
    for x in flat(n):
        if x.k in ("ret", "throw"):
            return True
        if x.k == "expr" and isinstance(x.a[0], N) and x.a[0].k == "throw":
            return True
    return False


def c07():
    chk = Check("C07", "every element access by an index that Python passes to "
                "the main module comes after a comparison with the size of "
                "the accessed container, through all calls")
    T = Tables(chk)
    for c in T.classes.values():
        if c.module != "_pyvrp":
            continue
        for d in c.defs:
            if d.name in ("<init>", "<pickle>", "<op>"):
                continue
            label, where = f"{c.name}.{d.name}", T.where(d.loc)
            l = lam(strip(d.target))
            if l:
                ps, body = list(l[0])[1:], l[1]
            else:
                f = T.function(d.target)
                if not f or f["body"] is None:
                    continue
                ps, body = f["params"], f["body"]
            for var, name, ty in ps:
                if not INDEX.match(str(ty)):
                    continue
                try:
                    A = Access(T, body, var, ty.strip() in ("int", "long"))
                except Exception as e:
                    maybe(chk, "index", label, repr(e))
                    continue
                for con, loc, ok, simple in A.found:
                    if ok:
                        good(chk, "index", f"{label}({name}): {con}")
                    elif simple:
                        bad(chk, "index", label, loc or where,
                            f"{con} is accessed at {name}, which nothing "
                            f"compared with its size")
                    else:
                        maybe(chk, "index", f"{label}({name})",
                              f"{con} at a computed position")
                if not A.found:
                    good(chk, "index", f"{label}({name}): no access")
    return chk.finish()


CHECKS = {"C01": c01, "C06": c06, "C07": c07, "C08": c08}
