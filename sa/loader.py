"""Parse the package under analysis and resolve modules, classes, imports and MROs."""
import ast
import os
from .desugar import apply as desugar


class Func:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent          # closure environment is supplied at run time
        self.name = getattr(node, "name", "<lambda>")
        decs = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_property = any(d == "property" or d.endswith("cached_property") for d in decs)
        self.is_setter = any(d.endswith(".setter") for d in decs)
        self.is_static = "staticmethod" in decs
        self.is_class = "classmethod" in decs
        self.decorators = decs
        self._facts = {}

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, module, self)
                if f.is_setter:
                    self.methods[st.name + "@setter"] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.attrs[st.target.id] = st.value
        self.mro = None


class Module:
    def __init__(self, name, path, relpath, tree, source=""):
        self.source = source
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ('mod', dotted) | ('from', module dotted, name)
        self.assigns = {}
        self.star = []


class Program:
    def __init__(self, root="/repo", pkg="lingam"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(p, encoding="utf-8").read()
                self.modules[name] = Module(name, p, rel, desugar(ast.parse(src, filename=p)), src)
        for m in self.modules.values():
            self._index(m, m.tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                c.mro = self._mro(c, ())

    def _abs(self, m, level, name):
        if level == 0:
            return name or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([name] if name else []))

    def _index(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = Func(st, m)
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = Class(st, m)
            elif isinstance(st, ast.Import):
                self.index_import(m, st, m.imports)
            elif isinstance(st, ast.ImportFrom):
                self.index_import(m, st, m.imports)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._index(m, st.body)
                self._index(m, getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    self._index(m, h.body)

    def index_import(self, m, st, table):
        if isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    table[al.asname] = ("mod", al.name)
                else:
                    table[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
        else:
            src = self._abs(m, st.level, st.module)
            for al in st.names:
                if al.name == "*":
                    m.star.append(src)
                else:
                    table[al.asname or al.name] = ("from", src, al.name)

    def resolve_import(self, imp, depth=0):
        """-> ('module', Module) | ('func', Func) | ('class', Class) | ('expr', Module, ast) | ('ext', dotted)"""
        if depth > 10:
            return ("ext", ".".join(imp[1:]))
        if imp[0] == "mod":
            if imp[1] in self.modules:
                return ("module", self.modules[imp[1]])
            return ("ext", imp[1])
        _, src, name = imp
        if src in self.modules:
            r = self.lookup(self.modules[src], name, depth + 1)
            if r is not None:
                return r
            sub = src + "." + name
            if sub in self.modules:
                return ("module", self.modules[sub])
            return ("ext", sub)
        return ("ext", (src + "." if src else "") + name)

    def lookup(self, m, name, depth=0):
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports:
            return self.resolve_import(m.imports[name], depth + 1)
        if name in m.assigns:
            return ("expr", m, m.assigns[name])
        for s in m.star:
            if s in self.modules and depth < 8:
                r = self.lookup(self.modules[s], name, depth + 1)
                if r:
                    return r
        return None

    def _mro(self, c, seen):
        if c in seen:
            return [c]
        out = [c]
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup(c.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                q = self.lookup(c.module, b.value.id)
                if q and q[0] == "module":
                    r = self.lookup(q[1], b.attr)
            if r and r[0] == "class":
                for x in self._mro(r[1], seen + (c,)):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, cls, name, after=None):
        mro = cls.mro
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in cls.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def cls(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def public_classes(self):
        """Classes a user can reach: not underscore-prefixed."""
        out = []
        for m in self.modules.values():
            if m.name.startswith("spec_"):
                continue
            for c in m.classes.values():
                if not c.name.startswith("_"):
                    out.append(c)
        return out

    def methods_of(self, cls):
        out = {}
        for c in reversed(cls.mro):
            out.update(c.methods)
        return out
