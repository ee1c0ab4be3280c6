"""
Front end for Python: parses /repo's package (and the specification modules of
/verif/spec/py) with CPython's ast module and resolves names across modules.
Nothing is imported or executed.
"""
import ast
import os
from pathlib import Path

REPO = Path(os.environ.get("VSA_REPO", "/repo"))
SPEC = Path(__file__).resolve().parent.parent / "spec" / "py"
NATIVE = {"pyvrp._pyvrp": "pyvrp/_pyvrp.pyi",
          "pyvrp.search._search": "pyvrp/search/_search.pyi"}


class Module:
    def __init__(self, name, path, tree, package):
        self.name, self.path, self.package = name, path, package
        self.defs = {}      # name -> ("func", rec) | ("class", Class)
        self.consts = {}    # name -> expr
        self.imports = {}   # name -> (module, attribute or None)
        self.scan(tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.defs[s.name] = ("func", self.func(s))
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", Class(self, s))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (
                        a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = self.package.split(".")
                    pk = pk[:len(pk) - s.level + 1]
                    base = ".".join(pk + ([base] if base else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self.scan(s.body)

    def func(self, s, cls=None):
        q = (cls.qual + "." if cls else self.name + ".") + s.name
        if self.name.startswith("spec."):
            q = "pyvrp::spec::" + s.name
        a = s.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ps = [(x.arg, x.annotation) for x in a.posonlyargs + a.args]
        defaults = {}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            defaults[n] = d
        kwonly = [x.arg for x in a.kwonlyargs]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            ps.append((x.arg, x.annotation))
            if d is not None:
                defaults[x.arg] = d
        decs = set()
        for d in s.decorator_list:
            decs.add(ast.unparse(d).split("(")[0])
        return dict(qual=q, name=s.name, node=s, body=s.body, module=self,
                    cls=cls, names=names, kwonly=kwonly, defaults=defaults,
                    annot=dict(ps), vararg=a.vararg.arg if a.vararg else None,
                    kwarg=a.kwarg.arg if a.kwarg else None, decs=decs,
                    loc=(str(self.path), s.lineno), type="", fkind="py",
                    params=[])


class Class:
    def __init__(self, mod, node):
        self.module, self.node, self.name = mod, node, node.name
        self.qual = f"{mod.name}.{node.name}"
        if mod.package == "pyvrp" and mod.name.endswith("." + node.name):
            self.qual = f"pyvrp.{node.name}"
        self.methods, self.fields, self.props, self.setters = {}, {}, {}, {}
        self.bases = [ast.unparse(b).split("[")[0] for b in node.bases]
        self.dataclass = any("dataclass" in ast.unparse(d)
                             for d in node.decorator_list)
        self.consts, self.annots = {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = mod.func(s, self)
                if any(d.endswith(".setter") for d in f["decs"]):
                    self.setters[s.name] = f
                elif "property" in f["decs"] or "cached_property" in f["decs"]:
                    self.props[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target,
                                                             ast.Name):
                self.fields[s.target.id] = s.value
                self.annots[s.target.id] = s.annotation
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0],
                                                          ast.Name):
                self.consts[s.targets[0].id] = s.value


class Stub:
    """A class of the native extension, from its .pyi file."""

    def __init__(self, node):
        self.name = node.name
        self.inits, self.methods, self.attrs = [], {}, {}
        self.bases = [ast.unparse(b) for b in node.bases]
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                ret = ast.unparse(s.returns) if s.returns else ""
                if s.name == "__init__":
                    a = s.args
                    names = [x.arg for x in a.args][1:]
                    d = dict(zip(names[len(names) - len(a.defaults):],
                                 a.defaults))
                    for x, y in zip(a.kwonlyargs, a.kw_defaults):
                        names.append(x.arg)
                        if y is not None:
                            d[x.arg] = y
                    self.inits.append((names, d))
                elif any("property" == ast.unparse(x)
                         for x in s.decorator_list):
                    self.attrs[s.name] = ret
                elif not any("setter" in ast.unparse(x)
                             for x in s.decorator_list):
                    self.methods.setdefault(s.name, [
                        [x.arg for x in s.args.args][1:], ret])
            elif isinstance(s, ast.AnnAssign):
                self.attrs[s.target.id] = ast.unparse(s.annotation)
            elif isinstance(s, ast.Assign):
                self.attrs[s.targets[0].id] = ""


class PyProgram:
    def __init__(self, specs=()):
        self.modules, self.stubs, self.native = {}, {}, {}
        self.errors = []
        root = REPO / "pyvrp"
        for p in sorted(root.rglob("*.py")):
            rel = p.relative_to(REPO).with_suffix("")
            parts = list(rel.parts)
            pkg = ".".join(parts[:-1])
            if parts[-1] == "__init__":
                parts = parts[:-1]
                pkg = ".".join(parts)
            self.add(".".join(parts), p, p.relative_to(REPO), pkg)
        for mod, f in NATIVE.items():
            self.native[mod] = set()
            t = ast.parse((REPO / f).read_text())
            for s in t.body:
                if isinstance(s, ast.ClassDef):
                    self.stubs[s.name if s.name not in self.stubs else
                               f"{mod}.{s.name}"] = Stub(s)
                    self.native[mod].add(s.name)
                elif isinstance(s, ast.FunctionDef):
                    self.native[mod].add(s.name)
        for s in specs:
            p = SPEC / f"{s}.py"
            self.add(f"spec.{s}", p, p, "spec")
        self.records, self.enums = {}, {
            "ActivityType": [n for n in self.stubs["ActivityType"].attrs
                             if n.isupper() and n != "name"]
            if "ActivityType" in self.stubs else []}
        self.spec_errors = {}
        self.funcs = {}

    def add(self, name, path, shown, pkg):
        try:
            self.modules[name] = Module(name, shown, ast.parse(
                Path(path).read_text()), pkg)
        except SyntaxError as e:
            self.errors.append(f"{path}: {e}")

    def find(self, qual):
        if qual.startswith("pyvrp::spec::"):
            n = qual[len("pyvrp::spec::"):]
            return [m.defs[n][1] for k, m in self.modules.items()
                    if k.startswith("spec.") and n in m.defs]
        for m in self.modules.values():
            for k, d in m.defs.values():
                if k == "func" and d["qual"] == qual:
                    return [d]
                if k == "class":
                    for t in (d.methods, d.props, d.setters):
                        for f in t.values():
                            if f["qual"] == qual:
                                return [f]
        return []

    def resolve(self, mod, name, depth=0):
        """What name means in module mod (a Module)."""
        if depth > 8:
            return None
        if name in mod.defs:
            return mod.defs[name]
        if name in mod.consts:
            return ("const", mod, name)
        if name in mod.imports:
            base, attr = mod.imports[name]
            return self.member(base, attr, depth + 1)
        return None

    def member(self, base, attr, depth=0):
        if attr is None:
            return ("module", base)
        if base in NATIVE:
            return ("native", attr)
        if base in self.modules:
            r = self.resolve(self.modules[base], attr, depth + 1)
            if r is not None and r != ("module", base + "." + attr):
                return r
        if base + "." + attr in self.modules:
            return ("module", base + "." + attr)
        return ("ext", f"{base}.{attr}")


_cache = {}


def load(specs=()):
    key = tuple(sorted(specs))
    if key not in _cache:
        _cache[key] = PyProgram(key)
    return _cache[key]
