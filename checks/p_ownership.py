"""C32: names and nodes are owned exactly once."""
from engine.check import Check
from engine.cppfront import N

from .common import program
from .p_bindings import mentions, rooted, strip, walk

TECHNIQUE = {"C32": "ownership rules over the special member functions of every "
                    "class with an owning pointer or with nodes that point "
                    "back at it"}
LEVEL_NOTE = {"C32": "Decides the recognised ownership idioms: what the "
              "destructor frees, what copy and move make of it, and which "
              "containers of pointed-at objects may move their elements. "
              "Allocations that a throwing constructor leaves behind are "
              "outside the rule."}


def special(prog, q):
    """(copy, move, other) constructors, assignments and the destructor."""
    r = prog.records[q]
    name = q.split("::")[-1].split("<")[0]
    copy = move = None
    other, assign = [], []
    for k in r["methods"].get(name, []):
        f = prog.funcs[k]
        ty = f["params"][0][2] if len(f["params"]) == 1 else ""
        own = name in ty.replace("&", " ").split() or \
            q.split("::", 1)[-1] in ty
        if own and ty.rstrip().endswith("&&"):
            move = f
        elif own and ty.rstrip().endswith("&"):
            copy = f
        else:
            other.append(f)
    for k in r["methods"].get("operator=", []):
        assign.append(prog.funcs[k])
    d = [prog.funcs[k] for k in r["methods"].get("~" + name, [])]
    return copy, move, other, assign, d[0] if d else None


def init(f, field):
    for (kind, name), e in f["inits"] or ():
        if kind == "field" and name == field:
            return e
    for x in walk(f["body"]):
        if x.k == "asg" and own(x.a[1], field):
            return x.a[2]
    return None


def own(e, field):
    e = strip(e)
    return isinstance(e, N) and e.k == "mem" and e.a[1] == field and \
        isinstance(e.a[0], N) and e.a[0].k == "this"


def fresh(prog, e, depth=0):
    """Does this make storage of its own?  None: cannot tell."""
    e = strip(e)
    if not isinstance(e, N):
        return None
    if e.k == "new":
        return True
    if e.k == "const":
        return True
    if e.k == "call" and e.a[0] and depth < 4:
        f = prog.funcs.get(e.a[0])
        if f and f["body"] is not None:
            env = {s.a[0]: s.a[2] for s in walk(f["body"]) if s.k == "decl"}
            out = []
            for s in walk(f["body"]):
                if s.k == "ret" and s.a[0] is not None:
                    r = strip(s.a[0])
                    if r.k == "var" and r.a[0] in env:
                        r = env[r.a[0]]
                    out.append(fresh(prog, r, depth + 1))
            if out and all(out):
                return True
            if False in out:
                return False
        return None
    if e.k == "call" and e.a[1] == "exchange":
        return None
    if e.k == "cond":
        a, b = (fresh(prog, x, depth) for x in e.a[1:3])
        return True if a and b else False if False in (a, b) else None
    if e.k in ("mem", "var"):
        return False
    return None


def c32():
    chk = Check("C32", "a class whose destructor frees a member copies it on "
                "copying, takes it over on moving and frees it once; "
                "containers of objects that others point at never move them")
    prog = program()
    n = 0
    for q, r in sorted(prog.records.items()):
        if not q.startswith("pyvrp") or r.get("template"):
            continue
        for fld, info in r["fields"].items():
            t = str(info["type"]).rstrip().removesuffix("const").rstrip()
            if t.endswith("*"):
                n += owner(chk, prog, q, fld)
    for f in prog.funcs.values():
        if f["body"] is not None and "duplicate" in f["name"] or \
                any(x.k == "new" for x in walk(f["body"])):
            allocation(chk, f)
    nodes(chk, prog)
    return chk.finish()


def frees(f, fld):
    return [x for x in walk(f["body"]) if x.k == "del" and own(x.a[0], fld)] \
        if f is not None and f["body"] is not None else []


def owner(chk, prog, q, fld):
    copy, move, other, assign, dtor = special(prog, q)
    made = [f for f in (copy, *other) if f is not None and
            f["body"] is not None and
            fresh(prog, init(f, fld)) is True and
            strip(init(f, fld)).k != "const"]
    ds = frees(dtor, fld)
    if not made and not ds:
        return 0
    label = f"{q}.{fld}"
    loc = prog.records[q]["loc"]
    chk.saw(q)
    if not ds:
        chk.bad("destroy", label, "allocated by a constructor, freed by no "
                "destructor", loc)
    elif len(ds) > 1:
        chk.bad("destroy", label, "freed more than once", dtor["loc"])
    else:
        arr = any(x.k == "new" and x.a[0].endswith("*") for f in
                  prog.funcs.values() if f["name"] == "duplicate"
                  for x in walk(f["body"]))
        chk.require(ds[0].a[1] or not arr, "destroy", label,
                    "an array freed as one object", dtor["loc"])
    # copying
    if copy is None or copy["implicit"] or copy["defaulted"]:
        if copy is None or not copy["deleted"]:
            if copy is not None or move is None:
                chk.bad("copy", label, "copies share one storage, and both "
                        "free it", loc)
    elif not copy["deleted"]:
        v = fresh(prog, init(copy, fld)) if init(copy, fld) is not None \
            else None
        if v is None:
            chk.undecided("copy", label, "not recognised")
        else:
            chk.require(v, "copy", label, "the copy takes the original's "
                        "storage, and both free it", copy["loc"])
    # moving
    if move is not None and not move["deleted"]:
        if move["implicit"] or move["defaulted"]:
            chk.bad("move", label, "both objects free the same storage",
                    move["loc"])
        else:
            moved(chk, prog, move, fld, label)
    for f in assign:
        if f["deleted"]:
            chk.ok("assign", label)
        elif f["implicit"] or f["defaulted"]:
            chk.bad("assign", label, "assignment shares or leaks the storage",
                    loc)
        else:
            chk.undecided("assign", label, "assignment by hand")
    for f in other:
        e = init(f, fld)
        if f["body"] is None or e is None or f["deleted"]:
            continue
        v = fresh(prog, e)
        if v is None:
            chk.undecided("construct", label, "not recognised")
        else:
            chk.require(v, "construct", label, "frees storage it was given "
                        "by somebody else", f["loc"])
    return 1


def moved(chk, prog, f, fld, label):
    var = f["params"][0][0]
    e = init(f, fld)
    if e is None:
        chk.undecided("move", label, "not recognised")
        return
    e = strip(e)
    if fresh(prog, e):
        chk.ok("move", label)
        return
    if e.k == "call" and e.a[1] == "exchange" and mentions(e, var):
        chk.ok("move", label)
        return
    if e.k == "mem" and e.a[1] == fld and mentions(e.a[0], var):
        cleared = swapped = False
        for x in walk(f["body"]):
            if x.k == "asg" and isinstance(x.a[1], N) and \
                    x.a[1].k == "mem" and x.a[1].a[1] == fld and \
                    mentions(x.a[1].a[0], var):
                v = strip(x.a[2])
                cleared |= v.k == "const" and v.a[0] in (None, 0) or \
                    bool(fresh(prog, v))
            if x.k == "call" and x.a[1] in ("swap", "exchange"):
                swapped = True
        if cleared:
            chk.ok("move", label)
        elif swapped:
            chk.undecided("move", label, "swapped")
        else:
            chk.bad("move", label, "the moved-from object still frees the "
                    "storage", f["loc"])
        return
    chk.undecided("move", label, "not recognised")


def allocation(chk, f):
    """Room for the terminator of every duplicated string."""
    for x in walk(f["body"]):
        if x.k != "new" or not x.a[1] or "char" not in str(x.a[0]):
            continue
        size = strip(x.a[1][0])
        text = [y for y in walk(size) if y.k == "call" and
                y.a[1] in ("strlen", "size", "length")]
        if not text:
            chk.undecided("room", f["qual"], "size not recognised")
            continue
        more = size.k == "bin" and size.a[0] == "+"
        copies = any(y.k == "call" and y.a[1] in ("strcpy", "strcat")
                     for y in walk(f["body"]))
        if more:
            chk.ok("room", f["qual"])
        elif copies:
            chk.bad("room", f["qual"], "no room for the terminating null that "
                    "strcpy writes", f["loc"])
        else:
            chk.undecided("room", f["qual"], "size not recognised")


# -- nodes -------------------------------------------------------------------

ROUTE = "pyvrp::search::Route"
GROW = {"emplace_back", "push_back", "insert", "emplace"}


def nodes(chk, prog):
    r = prog.records.get(ROUTE)
    if not r:
        chk.undecided("nodes", ROUTE, "no such class")
        return
    copy, move, _, _, dtor = special(prog, ROUTE)
    # the destructor lets go of the nodes that others own
    if dtor is None or dtor["implicit"] or dtor["defaulted"]:
        chk.bad("nodes", "~Route", "nodes keep a pointer to a route that is "
                "gone", r["loc"])
    else:
        todo, seen, lets = [dtor["key"]], set(), False
        while todo:
            k = todo.pop()
            f = prog.funcs.get(k)
            if k in seen or not f or f["body"] is None:
                continue
            seen.add(k)
            for x in walk(f["body"]):
                if x.k == "call" and x.a[0]:
                    lets |= x.a[1] == "unassign"
                    todo.append(x.a[0])
                if x.k == "asg" and isinstance(x.a[1], N) and \
                        x.a[1].k == "mem" and strip(x.a[2]).k == "const" and \
                        strip(x.a[2]).a[0] is None and x.a[1].a[0].k != "this":
                    lets = True
                if x.k == "asg" and isinstance(x.a[1], N) and own_route(x):
                    lets = True
        chk.require(lets, "nodes", "~Route", "nodes keep a pointer to a route "
                    "that is gone", dtor["loc"])
    implicit = copy is not None and (copy["implicit"] or copy["defaulted"]) \
        and not copy["deleted"] and move is None
    stores = {(q, n) for q, rec in prog.records.items()
              for n, i in rec["fields"].items()
              if "vector<" + ROUTE + ">" in str(i["dtype"] or "")
              .replace("std::", "") or
              q.startswith("pyvrp::search") and
              str(i["type"]) in ("std::vector<Route>", "vector<Route>")}
    for f in sorted(prog.funcs.values(), key=lambda f: f["qual"]):
        whole = [f["body"], [e for _, e in f["inits"] or ()]]
        if f["body"] is None or not f["qual"].startswith("pyvrp"):
            continue
        if f["implicit"] or f["defaulted"]:
            continue
        for x in walk(whole):
            if implicit and x.k == "ctor" and copy and x.a[1] == copy["key"]:
                chk.bad("nodes", f["qual"], "copies a route, whose nodes stay "
                        "those of the original", x.loc or f["loc"])
            if x.k == "call" and x.a[0] is None and x.a[2] is not None:
                c = strip(x.a[2])
                if not (c.k == "mem"):
                    continue
                if (str(c.a[2]), c.a[1]) in stores and implicit:
                    if x.a[1] in GROW | {"resize"}:
                        ok = any(y.k == "call" and y.a[1] == "reserve" and
                                 y.a[2] is not None and
                                 strip(y.a[2]).k == "mem" and
                                 strip(y.a[2]).a[1] == c.a[1]
                                 for y in walk(whole))
                        chk.require(ok, "nodes", f["qual"], "grows the list of "
                                    "routes without room for them: the routes "
                                    "move, their nodes keep pointing at the "
                                    "old place", x.loc or f["loc"])
                elif c.a[1] == "depots_" and x.a[1] in GROW and \
                        str(c.a[2]) == ROUTE:
                    ok = any(y.k == "call" and y.a[1] == "clear" and
                             y.a[2] is not None and strip(y.a[2]).k == "mem"
                             and strip(y.a[2]).a[1] == c.a[1] or
                             y.k == "asg" and isinstance(y.a[1], N) and
                             y.a[1].k == "idx" and
                             rooted(y.a[1], lambda e: e.k == "mem" and
                                    e.a[1] == "nodes")
                             for y in walk(whole))
                    chk.require(ok, "nodes", f["qual"], "grows the depots of a "
                                "route without pointing its nodes at their "
                                "new place", x.loc or f["loc"])
    chk.saw(ROUTE)


def own_route(x):
    return x.a[1].k == "mem" and x.a[1].a[1] in ("route_", "route") and \
        strip(x.a[2]).k == "const"


CHECKS = {"C32": c32}
