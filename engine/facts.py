"""
What a translation unit's functions read that is not theirs to read: clocks,
generators, environment, static storage, addresses, hash order.  Collected from
clang's typed syntax tree while a unit is lowered; each fact is
(rule, function, file, line, what).
"""
import re

FUNCS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
         "CXXDestructorDecl", "CXXConversionDecl"}
SOURCES = {"rand", "srand", "rand_r", "drand48", "random", "time", "clock",
           "clock_gettime", "gettimeofday", "getenv", "secure_getenv",
           "getpid", "gethostname", "getrandom", "getentropy", "arc4random",
           "timespec_get", "times", "getrusage", "gettid", "pthread_self",
           "hardware_concurrency", "get_id", "__rdtsc", "tmpnam"}
ENGINES = re.compile(
    r"\b(random_device|mersenne_twister_engine|mt19937|"
    r"linear_congruential_engine|minstd_rand|subtract_with_carry_engine|"
    r"default_random_engine|shuffle_order_engine|ranlux)")
CLOCKS = re.compile(r"chrono::(_V2::)?(system|steady|high_resolution)_clock")
KEYED = re.compile(
    r"\b(set|map|multiset|multimap|unordered_set|unordered_map|hash|less|"
    r"greater|unordered_multiset|unordered_multimap)<[^<>,()]*\*\s*(const)?\s*"
    r"[,>]")
UNORDERED = re.compile(r"\bunordered_(multi)?(set|map)<")
SORTS = {"sort", "stable_sort", "partial_sort", "nth_element", "min_element",
         "max_element", "minmax_element", "make_heap", "sort_heap",
         "is_sorted", "lower_bound", "upper_bound", "binary_search"}
ORDER = {"<", ">", "<=", ">=", "<=>"}
MODS = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}
COMMUTE = {"+=", "|=", "&=", "^=", "-=", "*="}


def ty(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def isptr(t):
    return t.rstrip().removesuffix("const").rstrip().endswith("*")


def strip(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups",
                            "MaterializeTemporaryExpr", "ConstantExpr") and \
            n.get("inner"):
        n = n["inner"][0]
    return n


def root(n):
    """The variable (its id, or 'this') an lvalue belongs to."""
    while True:
        n = strip(n)
        k = n.get("kind")
        if k == "DeclRefExpr":
            return (n.get("referencedDecl") or {}).get("id")
        if k == "CXXThisExpr":
            return "this"
        ins = n.get("inner") or ()
        if k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator"):
            n = ins[0]
        elif k == "CXXOperatorCallExpr" and len(ins) > 1:
            n = ins[1]
        elif k == "CXXMemberCallExpr":
            m = strip(ins[0])
            n = (m.get("inner") or [{}])[0]
        else:
            return None


def walk(n, skip=()):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict) or not x:
            continue
        if x.get("kind") in skip:
            continue
        yield x
        st.extend(reversed(x.get("inner") or ()))


class Facts:
    def __init__(self, lower, mine):
        self.lw, self.mine = lower, mine
        self.out = set()
        self.functions = set()

    def add(self, rule, f, n, what):
        file, line = self.lw.loc(n)
        self.out.add((rule, f, file or "", line or 0, what))

    def run(self, roots):
        local = set()
        for o in roots:
            for n in walk(o):
                if n.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl",
                                     "DecompositionDecl",
                                     "VarTemplateSpecializationDecl"):
                    local.add(n.get("id"))
        self.known = local
        for o in roots:
            self.decls(o, "", False)

    def decls(self, n, scope, template):
        k = n.get("kind")
        if k in FUNCS:
            file, _ = self.lw.loc(n)
            if template or not self.mine(file):
                return
            info = self.lw.decl.get(n.get("id"))
            q = info["qual"] if info and "qual" in info else n.get("name", "")
            if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt")
                   for c in n.get("inner") or ()):
                self.functions.add(q)
                self.body(n, q)
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for c in n.get("inner") or ():
                ck = c.get("kind")
                if ck in FUNCS:
                    inst = any(x.get("kind") == "TemplateArgument"
                               for x in c.get("inner") or ())
                    self.decls(c, scope, template or not inst)
                elif ck == "CXXRecordDecl":
                    self.decls(c, scope, True)
                else:
                    self.decls(c, scope, template)
            return
        if k == "ClassTemplatePartialSpecializationDecl":
            template = True
        if k == "VarDecl" and not template:
            self.variable(n, "")
        for c in n.get("inner") or ():
            if isinstance(c, dict) and c:
                self.decls(c, scope, template)

    def variable(self, n, f):
        file, _ = self.lw.loc(n)
        if not self.mine(file) or n.get("constexpr"):
            return
        t = ty(n)
        if "PyModuleDef" in t or "pybind11" in t or "spdlog" in t:
            return
        if f and n.get("storageClass") != "static" and not n.get("tls"):
            return
        if re.match(r"const\b", t) or t.rstrip().endswith("const"):
            if f:
                deps = [x for x in walk(n) if x.get("kind") == "DeclRefExpr" and
                        (x.get("referencedDecl") or {}).get("kind") in
                        ("ParmVarDecl", "BindingDecl") or
                        x.get("kind") == "CXXThisExpr" or
                        x.get("kind") == "DeclRefExpr" and
                        (x.get("referencedDecl") or {}).get("id")
                        in self.locals]
                if deps:
                    self.add("state", f, n, f"static {n.get('name')} keeps "
                             "what the first call computed")
            return
        self.add("state", f or n.get("name", ""), n,
                 f"{n.get('name')} outlives the call and can be modified")

    def body(self, fn, f):
        ranged = {id(y) for x in walk(fn)
                  if x.get("kind") == "CXXForRangeStmt"
                  for c in x["inner"][:-1] for y in walk(c)}
        self.locals = {x.get("id") for x in walk(fn)
                       if x.get("kind") in ("VarDecl", "DecompositionDecl",
                                            "BindingDecl") and
                       x.get("storageClass") != "static"}
        for n in walk(fn):
            k = n.get("kind")
            if k == "VarDecl":
                self.variable(n, f)
            t = ty(n)
            if k in ("VarDecl", "CXXConstructExpr", "CXXTemporaryObjectExpr",
                     "CXXFunctionalCastExpr") and ENGINES.search(t):
                self.add("source", f, n, "random numbers that do not come "
                         f"from the seeded generator ({t[:60]})")
            if k == "CallExpr" or k == "CXXMemberCallExpr":
                self.call(n, f, fn)
            if k == "CXXMemberCallExpr" and id(n) not in ranged:
                m = strip(n["inner"][0])
                if m.get("name") in ("begin", "cbegin", "rbegin", "extract") \
                        and m.get("inner") and \
                        KEYED.search(ty(strip(m["inner"][0]))):
                    self.add("address", f, n, "visits a container in the "
                             "order of the addresses in it")
            if k == "DeclRefExpr":
                d = n.get("referencedDecl") or {}
                if d.get("kind") == "VarDecl" and d.get("id") not in \
                        self.known and not self.lw.decl.get(d.get("id")):
                    vt = ty(d)
                    if not vt.startswith("const ") and "std::" not in vt and \
                            not vt.rstrip().endswith("const") and \
                            "pybind11" not in vt and \
                            d.get("name", "") not in ("cout", "cerr", "clog",
                                                      "ignore", "environ") \
                            and "ostream" not in vt and \
                            "PyTypeObject" not in vt and \
                            "_object" not in vt and \
                            not d.get("name", "").startswith("PyExc_") and \
                            "PyModuleDef" not in vt and "ignore" not in vt \
                            and "integral_constant" not in vt and vt:
                        self.add("state", f, n, f"{d.get('name')} is global "
                                 "and can be modified")
            if k == "BinaryOperator" and n.get("opcode") in ORDER:
                a, b = n["inner"][:2]
                if isptr(ty(a)) and isptr(ty(b)) and not self.samearray(a, b) \
                        and not re.search(r"\bRoute\b(?!::)", ty(strip(a))):
                    self.add("address", f, n, "compares two addresses")
            if k in ("ImplicitCastExpr", "CStyleCastExpr",
                     "CXXReinterpretCastExpr", "CXXFunctionalCastExpr") and \
                    n.get("castKind") == "PointerToIntegral" and \
                    ty(n) not in ("bool", "_Bool"):
                self.add("address", f, n, "uses an address as a number")
            if k in ("CXXTemporaryObjectExpr", "CXXConstructExpr",
                     "InitListExpr", "CXXFunctionalCastExpr") and \
                    re.search(r"\bhash<[^<>]*\*", t):
                self.add("address", f, n, "hashes an address")
            if k == "CXXForRangeStmt":
                self.loop(n, f, fn)

    @staticmethod
    def samearray(a, b):
        """begin <= p style comparisons of iterators that are pointers."""
        names = [(strip(x).get("referencedDecl") or {}).get("name", "") or
                 strip(x).get("name", "") for x in (a, b)]
        t = ty(strip(a)) + ty(strip(b))
        return any(re.search(r"(?i)begin|end|first|last|it$", x)
                   for x in names) and "**" not in t.replace(" ", "")

    def call(self, n, f, fn):
        callee = strip((n.get("inner") or [{}])[0])
        d = callee.get("referencedDecl") or {}
        name = d.get("name") or callee.get("name", "")
        if d.get("kind") == "FunctionDecl" and name in SOURCES and \
                d.get("id") not in self.lw.decl:
            self.add("source", f, n, f"calls {name}()")
        if name == "now" and (CLOCKS.search(ty(n)) or "time_point" in ty(n)):
            self.add("source", f, n, "reads a clock")
        if name == "get_id" and "thread" in ty(n):
            self.add("source", f, n, "reads the thread's identity")
        if name in SORTS and d.get("kind") == "FunctionDecl":
            args = n["inner"][1:]
            need = 3 if name in ("partial_sort", "nth_element", "lower_bound",
                                 "upper_bound", "binary_search") else 2
            if args and len(args) == need and re.search(
                    r"\*\s*(const\s*)?\*", ty(args[0])):
                self.add("address", f, n, f"{name}() by address")

    def loop(self, n, f, fn):
        """A loop over an unordered container whose effects depend on the
        order of its elements."""
        rng = next((x for c in n["inner"] if c and c.get("kind") == "DeclStmt"
                    for x in c.get("inner") or () if x.get("name", "")
                    .startswith("__range")), None)
        if rng is None:
            return
        t = ty(rng) + str((rng.get("type") or {}).get("qualType"))
        keyed = KEYED.search(t)
        if not keyed and not UNORDERED.search(t):
            return
        body = n["inner"][-1]
        inside = {x.get("id") for x in walk(n) if x.get("kind") in (
            "VarDecl", "BindingDecl", "ParmVarDecl", "DecompositionDecl")}
        for x in walk(body, skip=("CXXThrowExpr", "LambdaExpr")):
            k = x.get("kind")
            bad = None
            if k in ("BinaryOperator", "CompoundAssignOperator") and \
                    x.get("opcode") in MODS:
                r = root(x["inner"][0])
                lhs = strip(x["inner"][0]).get("kind")
                if r not in inside and x["opcode"] not in COMMUTE and \
                        lhs not in ("ArraySubscriptExpr",
                                    "CXXOperatorCallExpr") and \
                        not self.extreme(x["inner"][1]):
                    bad = "assigns"
            elif k == "CXXOperatorCallExpr":
                op = strip(x["inner"][0])
                nm = (op.get("referencedDecl") or {}).get("name", "")
                if nm in ("operator=", "operator<<", "operator>>") and \
                        root(x["inner"][1]) not in inside and \
                        strip(x["inner"][1]).get("kind") != \
                        "CXXOperatorCallExpr":
                    bad = "assigns"
            elif k == "CXXMemberCallExpr":
                m = strip(x["inner"][0])
                obj = (m.get("inner") or [{}])[0]
                t = ty(obj)
                if root(obj) not in inside and not t.startswith("const ") \
                        and m.get("name") not in (
                            "begin", "end", "size", "empty", "at", "find",
                            "count", "contains", "get", "data", "cbegin",
                            "cend", "reserve") and not re.search(
                                r"\b(unordered_)?(multi)?(set|map)<", t):
                    bad = f"calls {m.get('name')} on"
            elif k == "ReturnStmt" and x.get("inner"):
                v = strip(x["inner"][0])
                if v.get("kind") not in (
                        "CXXBoolLiteralExpr", "IntegerLiteral",
                        "CXXNullPtrLiteralExpr"):
                    bad = "returns"
            if bad:
                if keyed:
                    self.add("address", f, x, f"{bad} something in the order "
                             "of the addresses in a container")
                else:
                    self.add("order", f, x, f"{bad} something in the order of "
                             "an unordered container")
                return

    @staticmethod
    def extreme(n):
        n = strip(n)
        c = strip((n.get("inner") or [{}])[0])
        return n.get("kind") == "CallExpr" and (
            c.get("referencedDecl") or {}).get("name") in ("min", "max")


def uninitialised(records, funcs):
    """Scalar members that a constructor leaves alone."""
    scalar = re.compile(
        r"^(const )?(unsigned |signed )?(int|long|short|char|bool|double|float|"
        r"size_t|uint\d+_t|int\d+_t|std::size_t|unsigned long|long long)"
        r"( int| long)*( const)?$")
    out = set()
    for q, r in records.items():
        fields = [x for x in r["fields"].values()
                  if x["init"] is None and x["type"] and (
                      scalar.match(x.get("dtype") or x["type"]) or
                      isptr(x.get("dtype") or x["type"]))]
        if not fields or r["template"]:
            continue
        for keys in r["methods"].values():
            for k in keys:
                f = funcs.get(k)
                if not f or f["fkind"] != "CXXConstructorDecl" or \
                        f["template"] or f["deleted"] or f["implicit"]:
                    continue
                if f["body"] is None:
                    continue
                t = [x[0] for x in f["inits"]]
                if any(x and x[0] == "delegate" for x in t):
                    continue
                have = {x[1] for x in t if x and x[0] == "field"}
                text = repr(f["body"])
                if "asg('=', un('*', this())" in text:
                    continue
                for fd in fields:
                    if fd["name"] in have:
                        continue
                    if f"'{fd['name']}'" in text:
                        continue     # assigned in the body
                    out.add((f["qual"], f["loc"], fd["name"]))
    return out
