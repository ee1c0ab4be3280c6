"""
C++ front end.  Runs clang's own parser and type checker over every translation
unit of /repo's extension modules, and lowers clang's *resolved* AST (JSON) to
the small language of engine/ma.py.  Nothing is executed.
"""
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path

from .facts import Facts
from .ma import N

REPO = Path(os.environ.get("VSA_REPO", "/repo"))
CPP = REPO / "pyvrp" / "cpp"
VERIF = Path(__file__).resolve().parent.parent
CACHE = VERIF / ".cache"
SPEC = VERIF / "spec"


SIZEOF = {"char": 1, "unsigned char": 1, "bool": 1, "short": 2,
          "unsigned short": 2, "int": 4, "unsigned int": 4, "unsigned": 4,
          "float": 4, "long": 8, "unsigned long": 8, "long long": 8,
          "unsigned long long": 8, "double": 8, "size_t": 8, "int64_t": 8,
          "uint64_t": 8, "uint32_t": 4, "int32_t": 4}


class FrontendError(Exception):
    pass


WARN = ["-Wuninitialized", "-Wsometimes-uninitialized", "-Wdangling",
        "-Wreturn-stack-address"]


def flags(root=None):
    import glob
    inc = ["-I", str(VERIF / "engine" / "stubs"), "-I", str(root or CPP)]
    for p in sorted(glob.glob("/usr/include/python3.*")):
        inc += ["-I", p]
        break
    for p in glob.glob("/opt/venv/lib/python3.*/site-packages/pybind11/include"):
        inc += ["-I", p]
        break
    return ["-std=c++20", "-DNDEBUG", "-DSPDLOG_USE_STD_FORMAT",
            "-DPYVRP_LOG_LEVEL=2", "-Wno-everything", *WARN, *inc]


def units():
    """Every .cpp below pyvrp/cpp is a unit (meson.build lists the same)."""
    return sorted(p for p in CPP.rglob("*.cpp"))


def tree_digest():
    h = hashlib.sha256()
    for p in sorted([*CPP.rglob("*.cpp"), *CPP.rglob("*.h"),
                     *CPP.rglob("*.hpp")]):
        h.update(str(p.relative_to(REPO)).encode())
        h.update(p.read_bytes())
    h.update(Path(__file__).read_bytes())
    h.update((Path(__file__).parent / "facts.py").read_bytes())
    h.update((Path(__file__).parent / "ma.py").read_bytes())
    return h.hexdigest()


STRIP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups",
         "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
         "SubstNonTypeTemplateParmExpr", "FullExpr", "CXXStdInitializerListExpr",
         "CXXRewrittenBinaryOperator"}

FUNCS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
         "CXXDestructorDecl", "CXXConversionDecl"}


class Lower:
    def __init__(self, unit):
        self.unit = unit
        self.decl = {}      # id -> info dict
        self.records = {}   # qualname -> info
        self.funcs = {}     # key -> func dict
        self.canon = {}     # id -> canonical id (previousDecl)
        self.enums = {}

    # ---------------------------------------------------------------- locs
    @staticmethod
    def fix_locs(root):
        cur = [None, None]
        stack = [root]
        # iterative pre-order, keeping insertion order
        while stack:
            o = stack.pop()
            if isinstance(o, dict):
                if "offset" in o:
                    if "file" in o:
                        cur[0] = o["file"]
                    if "line" in o:
                        cur[1] = o["line"]
                    o["file"], o["line"] = cur[0], cur[1]
                    for k in ("includedFrom",):
                        o.pop(k, None)
                    continue
                for v in reversed(list(o.values())):
                    if isinstance(v, (dict, list)):
                        stack.append(v)
            else:
                for v in reversed(o):
                    if isinstance(v, (dict, list)):
                        stack.append(v)

    @staticmethod
    def loc(n):
        for k in ("loc", "range"):
            l = n.get(k) or {}
            if k == "range":
                l = l.get("begin") or {}
            l = l.get("expansionLoc", l)
            if l.get("file"):
                f = os.path.normpath(l["file"])
                sc = str(_scratch) if _scratch else "?"
                if f.startswith(sc):
                    f = "pyvrp/cpp" + f[len(sc):]
                return (f, l.get("line"))
        return (None, None)

    # -------------------------------------------------------------- indexing
    def index(self, n, scope, intemplate=False):
        k = n.get("kind")
        if k is None:
            return
        if k == "NamespaceDecl":
            name = n.get("name")
            sub = scope + [name if name else "(anon)"]
            for c in n.get("inner", ()):
                self.index(c, sub, intemplate)
            return
        if k in ("LinkageSpecDecl", "ExternCContextDecl"):
            for c in n.get("inner", ()):
                self.index(c, scope, intemplate)
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for c in n.get("inner", ()):
                ck = c.get("kind")
                if ck in ("CXXRecordDecl",):
                    self.index(c, scope, True)
                elif ck == "ClassTemplateSpecializationDecl":
                    self.index(c, scope, intemplate)
                elif ck in FUNCS:
                    isinst = any(x.get("kind") == "TemplateArgument"
                                 for x in c.get("inner", ()))
                    self.index(c, scope, intemplate or not isinst)
                    first = False
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl",
                 "ClassTemplatePartialSpecializationDecl"):
            if n.get("isImplicit") and k == "CXXRecordDecl":
                return  # injected class name
            name = n.get("name") or "(anon)"
            targs = []
            if k != "CXXRecordDecl":
                for c in n.get("inner", ()):
                    if c.get("kind") == "TemplateArgument":
                        targs.append(self.targ(c))
                name = f"{name}<{','.join(targs)}>"
            if k.endswith("PartialSpecializationDecl"):
                intemplate = True
            if "parentDeclContextId" in n:
                p = self.decl.get(n["parentDeclContextId"])
                if p and p.get("qual"):
                    scope = p["qual"].split("::")
            qual = "::".join(scope + [name])
            self.decl[n["id"]] = dict(kind="record", qual=qual, node=n)
            r = self.records.setdefault(qual, dict(
                qual=qual, fields={}, bases=[], methods={}, template=intemplate,
                loc=self.loc(n), order=[]))
            if n.get("completeDefinition"):
                r["loc"] = self.loc(n)
                r["defdata"] = n.get("definitionData", {})
            for b in n.get("bases", ()):
                r["bases"].append(b["type"].get("desugaredQualType")
                                  or b["type"]["qualType"])
            sub = scope + [name]
            access = "private" if n.get("tagUsed") == "class" else "public"
            for c in n.get("inner", ()):
                if c.get("kind") == "AccessSpecDecl":
                    access = c.get("access", access)
                if c.get("kind") == "FieldDecl":
                    f = dict(name=c.get("name"), type=c["type"]["qualType"],
                             dtype=c["type"].get("desugaredQualType"),
                             access=access, mutable=c.get("mutable", False),
                             init=None, node=c, loc=self.loc(c))
                    r["fields"][c.get("name")] = f
                    self.decl[c["id"]] = dict(kind="field", record=qual,
                                              name=c.get("name"))
                elif c.get("kind") == "FriendDecl":
                    for d in c.get("inner", ()):
                        if d.get("kind") in FUNCS:
                            self.index(d, scope, intemplate)
                        elif d.get("kind") == "FunctionTemplateDecl":
                            self.index(d, scope, intemplate)
                else:
                    c["_access"] = access
                    c["_record"] = qual
                    self.index(c, sub, intemplate)
            return
        if k in FUNCS:
            rec = n.get("_record")
            if "parentDeclContextId" in n:
                p = self.decl.get(n["parentDeclContextId"])
                if p and p["kind"] == "record":
                    rec = p["qual"]
            prev = self.decl.get(n.get("previousDecl"))
            if prev is None and not n.get("mangledName"):
                # listed again under an out-of-line template
                prev = self.decl.get(n.get("id"))
                if prev is not None and prev.get("kind") != "func":
                    prev = None
            if rec is None and prev is not None:
                rec = prev.get("record")
            if rec:
                qual = rec + "::" + n.get("name", "")
            elif prev is not None:
                qual = prev["qual"]
            else:
                qual = "::".join(scope + [n.get("name", "")])
            mangled = n.get("mangledName")
            if prev is not None:
                key = prev["key"]
            else:
                sig = n["type"]["qualType"]
                key = mangled or (qual + "|" + sig)
                if "(anon)" in qual or "pyvrp_anon" in qual or n.get("storageClass") == "static" and not rec:
                    key += "@" + str(self.unit)
            targs = [self.targ(c) for c in n.get("inner", ())
                     if c.get("kind") == "TemplateArgument"]
            info = dict(kind="func", key=key, qual=qual, name=n.get("name"),
                        record=rec, node=n)
            self.decl[n["id"]] = info
            f = self.funcs.setdefault(key, dict(
                key=key, qual=qual, name=n.get("name"), record=rec,
                type=n["type"]["qualType"], fkind=n["kind"], body=None,
                inits=[], template=intemplate, targs=targs,
                virtual=bool(n.get("virtual")), static=False,
                access=n.get("_access"), loc=self.loc(n),
                deleted=bool(n.get("explicitlyDeleted")),
                defaulted=bool(n.get("explicitlyDefaulted")),
                implicit=bool(n.get("isImplicit")),
                params=None, defaults={}, nodes=[], unit=str(self.unit)))
            if n.get("storageClass") == "static" and rec:
                f["static"] = True
            if n.get("virtual"):
                f["virtual"] = True
            f["nodes"].append(n)
            if rec and rec in self.records:
                self.records[rec]["methods"].setdefault(n.get("name"), [])
                if key not in self.records[rec]["methods"][n.get("name")]:
                    self.records[rec]["methods"][n.get("name")].append(key)
            i = 0
            for c in n.get("inner", ()):
                if c.get("kind") == "ParmVarDecl":
                    self.decl[c["id"]] = dict(kind="param", name=c.get("name"),
                                              idx=i)
                    i += 1
            return
        if k == "EnumDecl":
            qual = "::".join(scope + ([n["name"]] if n.get("name") else []))
            vals = []
            nxt = 0
            for c in n.get("inner", ()):
                if c.get("kind") == "EnumConstantDecl":
                    self.decl[c["id"]] = dict(kind="enumc",
                                              qual=qual + "::" + c["name"])
                    vals.append(c["name"])
            self.enums[qual] = vals
            return
        if k in ("VarDecl", "VarTemplateDecl"):
            qual = "::".join(scope + [n.get("name", "")])
            self.decl[n["id"]] = dict(kind="gvar", qual=qual, node=n)
            return
        if k in ("TypeAliasDecl", "TypedefDecl"):
            return

    @staticmethod
    def targ(c):
        if "value" in c:
            return str(c["value"])
        if "type" in c:
            return c["type"]["qualType"]
        if "decl" in c:
            return str(c["decl"].get("name"))
        for x in c.get("inner", ()):
            if x.get("kind") == "ConstantExpr" and "value" in x:
                return x["value"]
        sub = [Lower.targ(x) for x in c.get("inner", ())
               if x.get("kind") == "TemplateArgument"]
        if sub or c.get("isPack"):
            return ",".join(sub)
        return "?"

    # ------------------------------------------------------------- lowering
    def lower_all(self):
        for key, f in self.funcs.items():
            for n in f["nodes"]:
                inner = n.get("inner", ())
                ps = [c for c in inner if c.get("kind") == "ParmVarDecl"]
                body = [c for c in inner if c.get("kind") in
                        ("CompoundStmt", "CXXTryStmt")]
                params = [(self.vid(p), p.get("name"), p["type"]["qualType"])
                          for p in ps]
                for i, p in enumerate(ps):
                    if p.get("init") and p.get("inner"):
                        f["defaults"][i] = self.ex(p["inner"][-1])
                if body or f["params"] is None:
                    f["params"] = params
                if body:
                    f["inits"] = []
                    for c in inner:
                        if c.get("kind") == "CXXCtorInitializer":
                            tgt = None
                            if "anyInit" in c:
                                tgt = ("field", c["anyInit"]["name"])
                            elif "baseInit" in c:
                                tgt = ("base", c["baseInit"]["qualType"])
                            elif "delegatingInit" in c:
                                tgt = ("delegate", c["delegatingInit"]["qualType"])
                            e = self.ex(c["inner"][0]) if c.get("inner") else None
                            f["inits"].append((tgt, e))
                    f["body"] = self.st(body[0])
                    f["loc"] = self.loc(n)
                elif n.get("explicitlyDefaulted"):
                    f["defaulted"] = True
        for r in self.records.values():
            for fld in r["fields"].values():
                n = fld.pop("node")
                if n.get("hasInClassInitializer") and n.get("inner"):
                    fld["init"] = self.ex(n["inner"][-1])
        for f in self.funcs.values():
            f.pop("nodes")

    def vid(self, n):
        return f"{n.get('name') or ''}:{n['id']}"

    def ty(self, n):
        t = n.get("type") or {}
        return t.get("desugaredQualType") or t.get("qualType") or ""

    def node(self, k, a, n, t=None):
        return N(k, a, self.loc(n), self.ty(n) if t is None else t)

    def ex(self, n):
        k = n.get("kind")
        inner = [c for c in n.get("inner", ()) if c]
        mk = self.node
        if k is None:
            return N("unk", ("null",), (None, None), "")
        if k == "ConstantExpr" and "value" in n and inner:
            sub = self.ex(inner[0])
            if sub.k in ("const", "enum"):
                return sub
            v = n["value"]
            try:
                return mk("const", (int(v),), n)
            except ValueError:
                pass
            if v in ("true", "false"):
                return mk("const", (v == "true",), n)
            return sub
        if k in STRIP:
            if k == "ImplicitCastExpr" and n.get("castKind") in (
                    "UserDefinedConversion", "ConstructorConversion"):
                return self.ex(inner[0])
            if k == "ImplicitCastExpr" and n.get("castKind") in (
                    "IntegralToBoolean", "PointerToBoolean",
                    "FloatingToBoolean"):
                return mk("un", ("bool", self.ex(inner[0])), n)
            if k == "CXXRewrittenBinaryOperator":
                return self.rewritten(n, inner)
            if not inner:
                return mk("unk", (k,), n)
            e = self.ex(inner[-1] if k == "SubstNonTypeTemplateParmExpr"
                        else inner[0])
            return e
        if k == "IntegerLiteral":
            return mk("const", (int(n["value"]),), n)
        if k == "FloatingLiteral":
            return mk("const", (float(n["value"]),), n)
        if k == "CXXBoolLiteralExpr":
            return mk("const", (bool(n["value"]),), n)
        if k == "StringLiteral":
            return mk("const", (n.get("value", ""),), n)
        if k == "CharacterLiteral":
            return mk("const", ("c%s" % n.get("value"),), n)
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return mk("const", (None,), n)
        if k == "CXXThisExpr":
            return mk("this", (), n)
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            info = self.decl.get(r["id"])
            rk = r.get("kind")
            if rk in FUNCS:
                return mk("fnref", (info["key"] if info else None,
                                    r.get("name")), n)
            if rk == "EnumConstantDecl":
                return mk("enum", (info["qual"] if info else r["name"],), n)
            if info and info["kind"] == "gvar":
                return mk("gvar", (info["qual"],), n)
            if rk in ("ParmVarDecl", "VarDecl", "BindingDecl"):
                return mk("var", (self.vid(r),), n)
            if rk == "NonTypeTemplateParmDecl":
                return mk("var", (r.get("name", "?") + ":tparam",), n)
            if rk == "FieldDecl":
                return mk("fieldref", (info["record"] if info else None,
                                       r.get("name")), n)
            if rk == "VarTemplateSpecializationDecl":
                return mk("gvar", (f"{r.get('name')}:{self.ty(n)}",), n)
            return mk("unk", ("DeclRef", rk, r.get("name")), n)
        if k == "MemberExpr":
            mid = n.get("referencedMemberDecl")
            info = self.decl.get(mid)
            base = self.ex(inner[0]) if inner else mk("this", (), n)
            name = n.get("name", "")
            if info and info["kind"] == "func":
                return mk("method", (base, info["key"], name), n)
            if info and info["kind"] == "field":
                return mk("mem", (base, name, info["record"]), n)
            if n["type"]["qualType"] == "<bound member function type>":
                return mk("method", (base, None, name), n)
            return mk("mem", (base, name, None), n)
        if k == "CXXMemberCallExpr":
            m = self.ex(inner[0])
            args = [self.ex(c) for c in inner[1:]]
            if m.k == "method":
                if m.a[2].startswith("operator ") and not args:
                    # conversion operator; transparent for Measures
                    return mk("cast", (self.ty(n), m.a[0]), n)
                return mk("call", (m.a[1], m.a[2], m.a[0], tuple(args)), n)
            return mk("call", (None, "?", m, tuple(args)), n)
        if k == "CXXOperatorCallExpr":
            cal = self.ex(inner[0])
            args = [self.ex(c) for c in inner[1:]]
            key = cal.a[0] if cal.k == "fnref" else None
            name = cal.a[1] if cal.k == "fnref" else "operator?"
            if name == "operator()" and key is None:
                c = inner[0]
                while c.get("kind") in STRIP and c.get("inner"):
                    c = c["inner"][0]
                rid = (c.get("referencedDecl") or {}).get("id")
                args[0] = mk("inst", (args[0], rid), n)
            return self.opcall(n, key, name, args)
        if k in ("CallExpr", "UserDefinedLiteral"):
            cal = self.ex(inner[0])
            args = [self.ex(c) for c in inner[1:]]
            if cal.k == "fnref":
                if cal.a[1] == "get" and cal.a[0] is None and len(args) == 1:
                    i = self.tuple_index(cal.t)
                    if i is not None:
                        return mk("tupleget", (i, args[0]), n)
                return mk("call", (cal.a[0], cal.a[1], None, tuple(args)), n)
            return mk("call", (None, "()", cal, tuple(args)), n)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [self.ex(c) for c in inner]
            return self.construct(n, args)
        if k in ("CXXFunctionalCastExpr", "CXXStaticCastExpr",
                 "CStyleCastExpr", "CXXConstCastExpr",
                 "CXXReinterpretCastExpr", "CXXDynamicCastExpr",
                 "BuiltinBitCastExpr"):
            e = self.ex(inner[0]) if inner else mk("unk", (k,), n)
            return mk("cast", (self.ty(n), e), n)
        if k == "UnaryOperator":
            return mk("un", (n["opcode"], self.ex(inner[0]))
                      if n["opcode"] not in ("++", "--") else
                      ("post" + n["opcode"] if n.get("isPostfix")
                       else n["opcode"], self.ex(inner[0])), n)
        if k == "BinaryOperator":
            op = n["opcode"]
            a, b = self.ex(inner[0]), self.ex(inner[1])
            if op == "=":
                return mk("asg", ("=", a, b), n)
            return mk("bin", (op, a, b), n)
        if k == "CompoundAssignOperator":
            return mk("asg", (n["opcode"], self.ex(inner[0]),
                              self.ex(inner[1])), n)
        if k in ("ConditionalOperator",):
            return mk("cond", tuple(self.ex(c) for c in inner[:3]), n)
        if k == "ArraySubscriptExpr":
            return mk("idx", (self.ex(inner[0]), self.ex(inner[1])), n)
        if k == "LambdaExpr":
            return self.lam(n, inner)
        if k == "InitListExpr":
            items = tuple(self.ex(c) for c in inner
                          if c.get("kind") != "ImplicitValueInitExpr")
            if len(items) == 1 and items[0].k == "list" and \
                    re.match(r"(const )?(std::)?array<", self.ty(n)):
                return items[0]  # the braces around an array's elements
            r = mk("list", items, n)
            full = n["type"].get("desugaredQualType", "")
            if full.startswith("pyvrp::") and "<" not in full:
                r.t = full  # a class nested in another
            return r
        if k == "CXXNewExpr":
            return mk("new", (self.ty(n), tuple(self.ex(c) for c in inner)), n)
        if k == "CXXDeleteExpr":
            return mk("del", (self.ex(inner[0]), bool(n.get("isArray"))), n)
        if k == "CXXThrowExpr":
            return mk("throw", (self.ex(inner[0]) if inner else None,), n)
        if k == "CXXDefaultArgExpr":
            return mk("defarg", (), n)
        if k == "CXXDefaultInitExpr":
            return mk("definit", (), n)
        if k in ("CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            return mk("ctor", (self.ty(n), None, ()), n)
        if k in ("CXXInheritedCtorInitExpr",):
            return mk("ctor", (self.ty(n), None, ()), n)
        if k == "UnaryExprOrTypeTraitExpr":
            size = SIZEOF.get((n.get("argType") or {}).get("qualType"))
            if size and n.get("name") == "sizeof":
                return mk("const", (size,), n)
            return mk("call", (None, n.get("name", "sizeof"), None, ()), n)
        if k in ("CXXDependentScopeMemberExpr",):
            base = self.ex(inner[0]) if inner else mk("this", (), n)
            return mk("mem", (base, n.get("member", "?dep"), None), n)
        if k in ("UnresolvedLookupExpr", "UnresolvedMemberExpr"):
            return mk("fnref", (None, n.get("name", "?")), n)
        if k in ("CXXUnresolvedConstructExpr", "ParenListExpr"):
            return mk("list", tuple(self.ex(c) for c in inner), n)
        if k == "SourceLocExpr":
            return mk("const", ("loc",), n)
        return mk("unk", (k, *[self.ex(c) for c in inner
                              if "Expr" in c.get("kind", "")
                              or "Operator" in c.get("kind", "")
                              or "Literal" in c.get("kind", "")]), n)

    def opcall(self, n, key, name, args):
        mk = self.node
        op = name[len("operator"):].strip()
        if op == "()":
            return mk("call", (key, "operator()", args[0], tuple(args[1:])), n)
        if op == "[]":
            if key and self.funcs.get(key, {}).get("record"):
                return mk("call", (key, name, args[0], tuple(args[1:])), n)
            return mk("idx", (args[0], args[1]), n)
        if op in ("+=", "-=", "*=", "/=", "&=", "|=", "^=", "%="):
            return mk("asg", (op, args[0], args[1]), n) if not self.userop(key) \
                else mk("call", (key, name, args[0], tuple(args[1:])), n)
        if op == "=":
            return mk("asg", ("=", args[0], args[1]), n)
        if op in ("++", "--"):
            if self.userop(key):
                return mk("call", (key, name, args[0], tuple(args[1:])), n)
            return mk("un", (op if len(args) == 1 else "post" + op, args[0]), n)
        if op == "->":
            return mk("un", ("->", args[0]), n)
        if op == "*" and len(args) == 1:
            return mk("un", ("*", args[0]), n)
        if len(args) == 1 and op in ("-", "+", "!", "~"):
            if self.userop(key):
                return mk("call", (key, name, args[0], ()), n)
            return mk("un", (op, args[0]), n)
        if len(args) == 2:
            if self.userop(key):
                rec = self.funcs[key].get("record")
                if rec:
                    return mk("call", (key, name, args[0], (args[1],)), n)
                return mk("call", (key, name, None, tuple(args)), n)
            return mk("bin", (op, args[0], args[1]), n)
        return mk("call", (key, name, None, tuple(args)), n)

    def userop(self, key):
        """An operator of a repo class other than the Measure wrapper."""
        if not key or key not in self.funcs:
            return False
        f = self.funcs[key]
        if (f.get("record") or "").startswith("pyvrp::Measure<") or f["qual"].startswith(
                "pyvrp::operator"):
            return False
        if f["defaulted"] and f["name"] == "operator==" and f["record"]:
            return True
        if f["defaulted"] or f["implicit"]:
            return False
        return True

    def rewritten(self, n, inner):
        """a < b rewritten as (a <=> b) < 0, or a != b as !(a == b)."""
        e = inner[0] if inner else {}
        while e.get("kind") in STRIP and e.get("inner"):
            e = e["inner"][0]
        mk = self.node
        if e.get("kind") == "UnaryOperator" and e.get("opcode") == "!":
            return mk("un", ("!", self.ex(e["inner"][0])), n)
        sub = self.ex(e)
        # (a <=> b) OP 0
        if sub.k == "bin" and sub.a[0] in ("<", ">", "<=", ">=", "==", "!="):
            l, r = sub.a[1], sub.a[2]
            if l.k == "bin" and l.a[0] == "<=>":
                return mk("bin", (sub.a[0], l.a[1], l.a[2]), n)
            if r.k == "bin" and r.a[0] == "<=>":
                flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=",
                        "==": "==", "!=": "!="}
                # 0 OP (b <=> a): reversed candidate
                return mk("bin", (flip[sub.a[0]], r.a[1], r.a[2]), n) \
                    if False else mk("bin", (sub.a[0], r.a[2], r.a[1]), n)
        return sub

    def construct(self, n, args):
        mk = self.node
        t = self.ty(n)
        ck = n.get("ctorType", {}).get("qualType", "")
        rec = self.find_record(t)
        key = None
        if rec:
            for name, keys in self.records[rec]["methods"].items():
                for kk in keys:
                    f = self.funcs[kk]
                    if f["fkind"] == "CXXConstructorDecl" and f["type"] == ck:
                        key = kk
        return mk("ctor", (t, key, tuple(args)), n)

    def find_record(self, t):
        t = t.replace("const ", "").replace(" const", "").strip(" &")
        t2 = t.replace(" ", "")
        for q in self.records:
            if q == t or q == t2:
                return q
        for q in self.records:
            if "<" in q and q.replace(" ", "") == t2:
                return q
        return None

    @staticmethod
    def tuple_index(t):
        """I of std::get<I>, from the types in the callee's signature (None
        when they do not determine it)."""
        m = re.search(r"\((?:const )?(?:std::)?(?:tuple|pair)<(.*)> ?&", t)
        if not m:
            return None
        parts, depth, cur = [], 0, ""
        for ch in m.group(1):
            if ch == "," and depth == 0:
                parts.append(cur)
                cur = ""
                continue
            depth += (ch in "<(") - (ch in ">)")
            cur += ch
        parts.append(cur)

        def norm(x):
            x = x.replace("const ", "").replace("std::", "").strip(" &")
            return re.sub(r"(?:\w+::)+", "", x).replace(" ", "")
        res = norm(t.split("(")[0])
        hits = [i for i, x in enumerate(parts) if norm(x) == res]
        return hits[0] if len(hits) == 1 else None

    def lam(self, n, inner):
        mk = self.node
        rec = inner[0]
        body = None
        params = []
        insts = ()
        for c in rec.get("inner", ()):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                params, body = self.lampb(c)
            elif c.get("kind") == "FunctionTemplateDecl" and \
                    c.get("name") == "operator()":
                cands = [x for x in c.get("inner", ())
                         if x.get("kind") == "CXXMethodDecl"]
                inst = [x for x in cands if any(
                    y.get("kind") == "TemplateArgument"
                    for y in x.get("inner", ()))
                    and any(y.get("kind") == "CompoundStmt"
                            for y in x.get("inner", ()))]
                pick = (inst or cands)
                if pick:
                    params, body = self.lampb(pick[0])
                if len(inst) > 1:
                    insts = tuple((x["id"],) + self.lampb(x) for x in inst)
        if body is None:
            bs = [c for c in inner if c.get("kind") == "CompoundStmt"]
            body = self.st(bs[-1]) if bs else None
        caps = tuple(self.ex(c) for c in inner[1:]
                     if c.get("kind") not in ("CompoundStmt",))
        return mk("lambda", (tuple(params), caps, body, insts), n)

    def lampb(self, c):
        ps = [(self.vid(p), p.get("name"), p["type"]["qualType"])
              for p in c.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
        bs = [x for x in c.get("inner", ()) if x.get("kind") == "CompoundStmt"]
        return ps, (self.st(bs[0]) if bs else None)

    # ------------------------------------------------------------ statements
    def st(self, n):
        k = n.get("kind")
        mk = self.node
        inner = n.get("inner", [])
        if k is None:
            return N("block", ((),), (None, None), "")
        if k == "CompoundStmt":
            return mk("block", (tuple(self.st(c) for c in inner if c),), n)
        if k == "NullStmt":
            return mk("block", ((),), n)
        if k == "AttributedStmt":
            return self.st([c for c in inner if c][-1])
        if k == "DeclStmt":
            out = []
            for d in inner:
                out.extend(self.vardecl(d))
            return out[0] if len(out) == 1 else mk("block", (tuple(out), "flat"),
                                                   n)
        if k == "ReturnStmt":
            return mk("ret", (self.ex(inner[0]) if inner else None,), n)
        if k == "IfStmt":
            parts = list(inner)
            init = None
            if n.get("hasInit"):
                init = self.st(parts.pop(0))
            var = None
            if n.get("hasVar"):
                var = self.st(parts.pop(0))
            cond = self.ex(parts.pop(0))
            then = self.st(parts.pop(0)) if parts else None
            els = self.st(parts.pop(0)) if (n.get("hasElse") and parts) else None
            s = mk("if", (cond, then, els), n)
            pre = [x for x in (init, var) if x is not None]
            if pre:
                return mk("block", (tuple(pre + [s]),), n)
            return s
        if k == "ForStmt":
            init, _var, cond, inc, body = (list(inner) + [{}] * 5)[:5]
            return mk("for", (self.st(init) if init else None,
                              self.ex(cond) if cond else None,
                              self.ex(inc) if inc else None,
                              self.st(body)), n)
        if k == "CXXForRangeStmt":
            # [init] range begin end cond inc loopvar body
            init = self.st(inner[0]) if inner[0] else None
            rng = None
            for d in inner[1].get("inner", ()):
                if d.get("kind") == "VarDecl":
                    xs = [c for c in d.get("inner", ()) if c]
                    rng = self.ex(xs[-1])
            lv = inner[6]["inner"][0]
            s = mk("foreach", (self.vid(lv), lv.get("name"),
                               lv["type"]["qualType"], rng,
                               self.st(inner[7])), n)
            if lv.get("kind") == "DecompositionDecl":
                names = [self.vid(c) for c in lv.get("inner", ())
                         if c.get("kind") == "BindingDecl"]
                s = mk("foreach", (self.vid(lv), names, lv["type"]["qualType"],
                                   rng, self.st(inner[7])), n)
            if init is not None:
                return mk("block", ((init, s),), n)
            return s
        if k == "WhileStmt":
            parts = list(inner)
            if n.get("hasVar"):
                v = self.st(parts.pop(0))
                return mk("while", (self.ex(parts[0]), self.st(parts[1]), v), n)
            return mk("while", (self.ex(parts[0]), self.st(parts[1]), None), n)
        if k == "DoStmt":
            return mk("do", (self.st(inner[0]), self.ex(inner[1])), n)
        if k == "BreakStmt":
            return mk("break", (), n)
        if k == "ContinueStmt":
            return mk("continue", (), n)
        if k == "SwitchStmt":
            parts = list(inner)
            pre = []
            if n.get("hasInit"):
                pre.append(self.st(parts.pop(0)))
            if n.get("hasVar"):
                pre.append(self.st(parts.pop(0)))
            cond = self.ex(parts[0])
            cases = []  # list of (labels, [stmts])

            def add(stmt):
                kk = stmt.get("kind")
                if kk in ("CaseStmt", "DefaultStmt"):
                    labels = []
                    while stmt.get("kind") in ("CaseStmt", "DefaultStmt"):
                        ii = [c for c in stmt.get("inner", ()) if c]
                        if stmt["kind"] == "DefaultStmt":
                            labels.append(None)
                            nxt = ii[0] if ii else None
                        else:
                            labels.append(self.ex(ii[0]))
                            nxt = ii[-1] if len(ii) > 1 else None
                        if nxt is None:
                            stmt = {}
                            break
                        stmt = nxt
                    cases.append((tuple(labels), []))
                    if stmt:
                        cases[-1][1].append(self.st(stmt))
                elif stmt:
                    if cases:
                        cases[-1][1].append(self.st(stmt))
            for c in parts[1].get("inner", ()) if parts[1].get("kind") == \
                    "CompoundStmt" else [parts[1]]:
                add(c)
            s = mk("switch", (cond, tuple((l, tuple(b)) for l, b in cases)), n)
            if pre:
                return mk("block", (tuple(pre + [s]),), n)
            return s
        if k == "CXXTryStmt":
            body = self.st(inner[0])
            hs = []
            for h in inner[1:]:
                hi = [c for c in h.get("inner", ()) if c]
                hs.append(self.st(hi[-1]))
            return mk("try", (body, tuple(hs)), n)
        if k and (k.endswith("Decl")):
            return mk("block", ((),), n)
        return mk("expr", (self.ex(n),), n)

    def vardecl(self, d):
        mk = self.node
        k = d.get("kind")
        if k == "DecompositionDecl":
            names = [self.vid(c) for c in d.get("inner", ())
                     if c.get("kind") == "BindingDecl"]
            init = [c for c in d.get("inner", ()) if c and
                    c.get("kind") != "BindingDecl"]
            return [mk("decomp", (tuple(names),
                                  self.ex(init[0]) if init else None), d)]
        if k != "VarDecl":
            return []
        init = [c for c in d.get("inner", ()) if c and
                not c["kind"].endswith("Attr")]
        e = self.ex(init[-1]) if init and d.get("init") else None
        return [mk("decl", (self.vid(d), d["type"]["qualType"], e,
                            d.get("storageClass") == "static"), d)]


ANON = re.compile(r"\bnamespace(\s*)\{")
GLOBALFN = re.compile(
    r"^(?!namespace|using|typedef|struct|class|enum|union|template\s*<>|#|//|"
    r"PYBIND11_MODULE|friend|extern|return|else|if|for|while|switch|case)"
    r"(?:template\s*<[^\n>]*>\s*)?"
    r"(?:[A-Za-z_][\w:]*(?:<[^;{}()]*>)?[\s&*]+)+(?!operator)([A-Za-z_]\w*)"
    r"\s*\(", re.M)


def strip_code(text):
    """text with comments and literals blanked out (same length)."""
    out = list(text)
    i, n = 0, len(text)
    while i < n:
        two = text[i:i + 2]
        if two == "//":
            j = text.find("\n", i)
            j = n if j < 0 else j
        elif two == "/*":
            j = text.find("*/", i + 2)
            j = n if j < 0 else j + 2
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            j += 1
        elif text[i] == "'" and not (i and text[i - 1].isalnum()):
            j = i + 1
            while j < n and text[j] != "'":
                j += 2 if text[j] == "\\" else 1
            j += 1
        else:
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != "\n":
                out[k] = " "
        i = j
    return "".join(out)


def rewrite(text):
    """
    Give file-local functions (unnamed namespaces, file-scope functions) a
    named home, so that the AST dump filter sees them.  Line numbers stay.
    """
    pre = "namespace pyvrp_anon {} using namespace pyvrp_anon; "
    code = strip_code(text)
    edits = []
    for m in ANON.finditer(code):
        edits.append((m.start(), m.end(), pre + "namespace pyvrp_anon"
                      + m.group(1) + "{"))
    # file-scope free functions: brace depth 0
    depth, at = 0, {}
    starts = {m.start(): m for m in GLOBALFN.finditer(code)}
    i = 0
    while i < len(code):
        if depth == 0 and i in starts:
            m = starts[i]
            if "::" not in code[m.start(1) - 2:m.start(1)]:
                j = i
                d = 0
                par = 0
                while j < len(code):
                    ch = code[j]
                    if ch == "(":
                        par += 1
                    elif ch == ")":
                        par -= 1
                    elif ch == "{":
                        d += 1
                    elif ch == "}":
                        d -= 1
                        if d == 0:
                            break
                    elif ch == ";" and d == 0 and par == 0:
                        break
                    j += 1
                body = code[i:j + 1]
                if "{" in body:
                    edits.append((i, i, pre + "namespace pyvrp_anon { "))
                    edits.append((j + 1, j + 1, " }"))
                i = j + 1
                continue
        if code[i] == "{":
            depth += 1
        elif code[i] == "}":
            depth -= 1
        i += 1
    for s0, e0, rep in sorted(edits, reverse=True):
        text = text[:s0] + rep + text[e0:]
    return text


_scratch = None


def scratch():
    """A rewritten copy of pyvrp/cpp for the parser (removed at exit)."""
    global _scratch
    if _scratch is None:
        import atexit
        import shutil
        import tempfile
        _scratch = Path(tempfile.mkdtemp(prefix="vsa-"))
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        for p in CPP.rglob("*"):
            if p.suffix in (".cpp", ".h", ".hpp"):
                q = _scratch / p.relative_to(CPP)
                q.parent.mkdir(parents=True, exist_ok=True)
                t = p.read_text()
                # dump() selects declarations by name
                t = re.sub(r"PYBIND11_MODULE\(\s*(\w+)", lambda m:
                           m[0] if "pyvrp" in m[1] else m[0] + "_pyvrp", t)
                q.write_text(rewrite(t) if p.suffix == ".cpp" else
                             ANON.sub(lambda m: m.group(0), t))
    return _scratch


def dump(unit):
    root = scratch()
    extra = []
    if SPEC in Path(unit).parents:
        # specification units see every member
        extra = ["-fno-access-control", "-I", str(root / "search")]
    else:
        unit = root / Path(unit).relative_to(CPP)
    cmd = ["clang++", *flags(root), *extra, "-fsyntax-only", "-Xclang",
           "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=pyvrp", str(unit)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise FrontendError(f"clang failed on {unit}:\n{p.stderr[-3000:]}")
    return p.stdout, p.stderr


def warnings(text):
    """What the compiler itself says of values without a definite source."""
    out = set()
    for m in re.finditer(r"(?m)^(\S+?):(\d+):\d+: warning: (.*) "
                         r"\[-W([-\w]+)\]$", text):
        file = m[1]
        if str(CPP) in file:
            file = "pyvrp/cpp" + file.split(str(CPP), 1)[1]
        elif "/pyvrp/" not in file:
            continue
        rule = "uninit" if "uninit" in m[4] else "dangling"
        out.add((rule, "", file, int(m[2]), m[3]))
    return out


def process(unit):
    text, said = dump(unit)
    dec = json.JSONDecoder()
    i = 0
    lw = Lower(unit)
    roots = []
    while True:
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            break
        o, i = dec.raw_decode(text, i)
        lw.fix_locs(o)
        roots.append(o)
    del text
    # Specialisations outside the pyvrp namespaces (std::hash, casters) are
    # indexed with their own, unqualified, name.
    for o in roots:
        lw.index(o, [])
    sys.setrecursionlimit(20000)
    facts = Facts(lw, lambda file: bool(file) and (
        file.startswith("pyvrp/") or file.startswith(str(CPP))))
    facts.run(roots)
    lw.lower_all()
    funcs = {k: f for k, f in lw.funcs.items()}
    gv = {}
    for d in lw.decl.values():
        if d["kind"] == "gvar":
            n = d["node"]
            init = [c for c in n.get("inner", ()) if c and
                    "Attr" not in c.get("kind", "")]
            gv[d["qual"]] = dict(
                type=n.get("type", {}).get("qualType", ""), loc=lw.loc(n),
                static=n.get("storageClass") == "static",
                constexpr=bool(n.get("constexpr")),
                init=lw.ex(init[-1]) if init and n.get("init") else None)
    return dict(unit=str(unit), funcs=funcs, records=lw.records,
                enums=lw.enums, gvars=gv, facts=facts.out | warnings(said),
                checked=facts.functions)


class Program:
    """The merged, resolved program: every unit's records and functions."""

    def __init__(self, parts):
        self.funcs, self.records, self.enums, self.gvars = {}, {}, {}, {}
        self.units = [p["unit"] for p in parts]
        self.spec_errors = {}
        self.facts, self.checked = set(), set()
        for p in parts:
            self.facts |= p["facts"]
            self.checked |= p["checked"]
        self.merge(parts)

    def merge(self, parts):
        for p in parts:
            for k, f in p["funcs"].items():
                old = self.funcs.get(k)
                if old is None or (old["body"] is None and f["body"] is not None):
                    if old is not None and not f["defaults"]:
                        f["defaults"] = old["defaults"]
                    if old is not None:
                        f["virtual"] = f["virtual"] or old["virtual"]
                        f["access"] = f["access"] or old["access"]
                        f["static"] = f["static"] or old["static"]
                        f["record"] = f["record"] or old["record"]
                    self.funcs[k] = f
                elif f["defaults"] and not old["defaults"]:
                    old["defaults"] = f["defaults"]
            for q, r in p["records"].items():
                old = self.records.get(q)
                if old is None or (not old["fields"] and r["fields"]):
                    if old:
                        for m, ks in old["methods"].items():
                            r["methods"].setdefault(m, ks)
                    self.records[q] = r
                else:
                    for m, ks in r["methods"].items():
                        have = old["methods"].setdefault(m, [])
                        for kk in ks:
                            if kk not in have:
                                have.append(kk)
            self.enums.update(p["enums"])
            self.gvars.update(p["gvars"])
        self.by_qual = {}
        for f in self.funcs.values():
            self.by_qual.setdefault(f["qual"], []).append(f)

    def find(self, qual, body=True, pred=None):
        out = [f for f in self.by_qual.get(qual, ())
               if (f["body"] is not None or not body) and not f["template"]]
        if pred:
            out = [f for f in out if pred(f)]
        return out

    def one(self, qual, pred=None):
        fs = self.find(qual, pred=pred)
        if len(fs) != 1:
            raise FrontendError(
                f"anchor {qual}: expected one definition, found {len(fs)}")
        return fs[0]


def process_spec(unit):
    """A specification unit that no longer fits the headers is dropped."""
    try:
        return process(unit)
    except FrontendError as e:
        return dict(unit=str(unit), funcs={}, records={}, enums={}, gvars={},
                    error=str(e))


def load(need=None, jobs=None, specs=()):
    """Program over all units (or those whose relative name is in need)."""
    prog = Program(list(_load(need, jobs).values()))
    if specs:
        key = tree_digest()
        parts = []
        scratch()
        us = [SPEC / (n + ".cpp") for n in specs]
        h = hashlib.sha256(key.encode())
        for p in sorted(SPEC.glob("*.h")):
            h.update(p.read_bytes())
        with ProcessPoolExecutor(min(8, len(us))) as ex:
            futs = []
            for u in us:
                hh = h.copy()
                hh.update(u.read_bytes())
                c = CACHE / key[:24] / f"spec_{u.stem}_{hh.hexdigest()[:12]}.pkl"
                if c.exists() and not os.environ.get("VSA_NOCACHE"):
                    futs.append((c, None, pickle.loads(c.read_bytes())))
                else:
                    futs.append((c, ex.submit(process_spec, u), None))
            for c, f, part in futs:
                if part is None:
                    part = f.result()
                    try:
                        c.parent.mkdir(parents=True, exist_ok=True)
                        c.write_bytes(pickle.dumps(part))
                    except OSError:
                        pass
                parts.append(part)
        prog.merge(parts)
        prog.spec_errors = {Path(p["unit"]).stem: p["error"] for p in parts
                            if p.get("error")}
    return prog


def _load(need=None, jobs=None):
    us = units()
    if need is not None:
        us = [u for u in us if str(u.relative_to(CPP)) in need
              or u.name in need]
    key = tree_digest()
    cdir = CACHE / key[:24]
    if os.environ.get("VSA_NOCACHE"):
        cdir = None
    parts, todo = {}, []
    for u in us:
        c = cdir and cdir / (str(u.relative_to(CPP)).replace("/", "__") + ".pkl")
        if c and c.exists():
            try:
                parts[u] = pickle.loads(c.read_bytes())
                continue
            except Exception:
                pass
        todo.append(u)
    if todo:
        # biggest first
        todo.sort(key=lambda u: (u.name != "bindings.cpp", -u.stat().st_size))
        scratch()
        with ProcessPoolExecutor(jobs or min(8, os.cpu_count() or 2)) as ex:
            for u, part in zip(todo, ex.map(process, todo)):
                parts[u] = part
                if cdir:
                    try:
                        if not cdir.exists() and CACHE.exists():
                            import shutil
                            for d in CACHE.iterdir():
                                shutil.rmtree(d, ignore_errors=True)
                        cdir.mkdir(parents=True, exist_ok=True)
                        c = cdir / (str(u.relative_to(CPP)).replace("/", "__")
                                    + ".pkl")
                        tmp = c.with_suffix(f".{os.getpid()}")
                        tmp.write_bytes(pickle.dumps(part))
                        os.replace(tmp, c)
                    except OSError:
                        pass
    return {u: parts[u] for u in us}
