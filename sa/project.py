"""Source model of the analysed package: modules, classes, functions and name resolution."""
import ast
import hashlib
import os


class Func:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, qual, node, module, outer=None):
        self.qual, self.node, self.module, self.outer = qual, node, module, outer
        self.name = node.name
        self.methods, self.getters, self.setters, self.attrs, self.classes = {}, {}, {}, {}, {}
        self.fields = []  # annotated class-level names (dataclasses)
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{qual}.{n.name}", n, module, self)
                if "property" in f.decorators or "functools.cached_property" in f.decorators:
                    self.getters[n.name] = f
                elif any(d.endswith(".setter") for d in f.decorators):
                    self.setters[n.name] = f
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(f"{qual}.{n.name}", n, module, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
                        if isinstance(n.value, ast.Name) and n.value.id in self.methods:
                            self.methods[t.id] = self.methods[n.value.id]
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields.append((n.target.id, n.value))
                if n.value is not None:
                    self.attrs[n.target.id] = n.value

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.names = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[n.name] = ("fn", Func(f"{self.name}.{n.name}", n, self))
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = ("cls", Class(f"{self.name}.{n.name}", n, self))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.names[a.asname] = ("mod", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ("from", self.absolute(n), a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("val", n.value)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = ("val", ast.copy_location(
                                    ast.Subscript(n.value, ast.Constant(k), ast.Load()), n))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = ("val", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                self._scan(n.orelse)

    def absolute(self, n):
        if not n.level:
            return n.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))


class Project:
    def __init__(self, root, package="bdld"):
        self.root, self.package = root, package
        self.modules = {}
        self.missing = set()
        base = os.path.join(root, package)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    self.modules[name] = Module(name, p, rel)

    def add_file(self, name, path):
        """specification module: seen by the evaluator, not part of the analysed package"""
        m = Module(name, path, os.path.basename(os.path.dirname(path)) + "/" + os.path.basename(path))
        m.spec = True
        self.modules[name] = m
        return m

    def locate(self, kind_, name):
        """definition of a class / function by bare name, wherever it lives in the package"""
        hits = [(n, e[1]) for n, m in sorted(self.modules.items()) if not getattr(m, "spec", False)
                for k, e in m.names.items() if k == name and e[0] == kind_]
        return hits[0][1] if hits else None

    def digest(self):
        h = hashlib.sha256()
        for n, m in sorted(self.modules.items()):
            h.update(n.encode())
            h.update(m.source.encode())
        return h.hexdigest()[:16]

    def cls(self, qual):
        """class by qualified name (following re-exports), or None"""
        mod, _, name = qual.rpartition(".")
        r = self.find(mod, name)
        return r[1] if r and r[0] == "cls" else None

    def func(self, qual):
        mod, _, name = qual.rpartition(".")
        r = self.find(mod, name)
        if r and r[0] == "fn":
            return r[1]
        return None

    def find(self, modname, name, depth=0):
        """resolve a module-level name to ('fn', Func) | ('cls', Class) | ('val', expr, module) |
        ('mod', dotted) | ('ext', dotted) | None"""
        if depth > 20:
            return None
        m = self.modules.get(modname)
        if m is None:
            return None
        e = m.names.get(name)
        if e is None:
            sub = f"{modname}.{name}"
            if sub in self.modules:
                return ("mod", sub)
            return None
        if e[0] == "val":
            return ("val", e[1], m)
        if e[0] == "from":
            src, orig = e[1], e[2]
            if src in self.modules:
                r = self.find(src, orig, depth + 1)
                if r is not None:
                    return r
                if getattr(m, "spec", False):
                    # specification names follow definitions that moved inside the package
                    for k in ("cls", "fn"):
                        r = self.locate(k, orig)
                        if r is not None:
                            return (k, r)
                    self.missing.add(f"{src}.{orig}")
            if f"{src}.{orig}" in self.modules:
                return ("mod", f"{src}.{orig}")
            return ("ext", f"{src}.{orig}")
        if e[0] == "mod":
            return ("mod", e[1]) if e[1] in self.modules else ("ext", e[1])
        return e

    def functions(self):
        for m in self.modules.values():
            for e in m.names.values():
                if e[0] == "fn":
                    yield e[1]
                elif e[0] == "cls":
                    yield from self._cls_funcs(e[1])

    def classes(self):
        def rec(c):
            yield c
            for x in c.classes.values():
                yield from rec(x)
        for m in self.modules.values():
            for e in m.names.values():
                if e[0] == "cls":
                    yield from rec(e[1])

    def _cls_funcs(self, c):
        for d in (c.methods, c.getters, c.setters):
            yield from d.values()
        for x in c.classes.values():
            yield from self._cls_funcs(x)
