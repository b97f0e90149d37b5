"""Development tool: draft a reference definition from reviewed package code (docstrings dropped, private helpers made
local, fitted state read through its public property).  The draft is reviewed and committed under spec/.

usage: extract.py OUT "PROPS" entry [entry...] [--keep m1,m2] [--observe a,b] [--init] [--opaque a,b] [--what text]
"""
import ast
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
from sa.conform import find_entry


def prop_map(prog, cls):
    """private field -> public property returning it"""
    out = {}
    for c in cls.mro:
        for f in c.methods.values():
            b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if f.is_property and len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and \
                    isinstance(b[0].value.value, ast.Name) and b[0].value.value.id == "self":
                out.setdefault(b[0].value.attr, f.name)
    return out


class Draft:
    def __init__(self, prog):
        self.prog = prog
        self.out = []
        self.names = {}
        self.imports = []
        self.mods = set()

    def helper(self, cls, f, keep, pm):
        nm = (cls.name.strip("_") + "_" if cls else "") + (f.cls.name.strip("_") + "_" if cls and f.name == "__init__" and f.cls is not cls else "") + f.name.strip("_")
        if (nm) in self.names:
            return nm
        self.names[nm] = True
        node = self.convert(cls, f, keep, pm)
        node.name = nm
        node.decorator_list = []
        self.out.append(ast.unparse(ast.fix_missing_locations(node)))
        return nm

    def convert(self, cls, f, keep, pm):
        self.need_imports(f.module)
        node = ast.parse(ast.unparse(f.node)).body[0]
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            node.body = node.body[1:] or [ast.Pass()]
        D = self
        prog = self.prog

        class Tr(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and cls is not None:
                    m = n.func.attr
                    g = prog.find_method(cls, m)
                    if g is not None and m.startswith("_") and m not in keep:
                        h = D.helper(cls, g, keep, pm)
                        return ast.Call(ast.Name(h, ast.Load()), ([] if g.is_static else [ast.Name("self", ast.Load())]) + n.args, n.keywords)
                if isinstance(n.func, ast.Name) and n.func.id in f.module.funcs and n.func.id not in keep and n.func.id.startswith("_"):
                    h = D.helper(None, f.module.funcs[n.func.id], keep, pm)
                    return ast.Call(ast.Name(h, ast.Load()), n.args, n.keywords)
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, "id", "") == "super":
                    for c in f.cls.mro[1:]:
                        if n.func.attr in c.methods:
                            h = D.helper(cls, c.methods[n.func.attr], keep, pm)
                            return ast.Call(ast.Name(h, ast.Load()), [ast.Name("self", ast.Load())] + n.args, n.keywords)
                return n

            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and n.attr in pm:
                    return ast.Attribute(n.value, pm[n.attr], n.ctx)
                return n
        return Tr().visit(node)

    def need_imports(self, m):
        if m.name in self.mods:
            return
        self.mods.add(m.name)
        for st in m.tree.body:
            if isinstance(st, ast.ImportFrom):
                nm = self.prog._abs(m, st.level, st.module)
                if st.level and not nm.startswith("lingam"):
                    nm = "lingam." + nm
                self.imports.append(ast.unparse(ast.ImportFrom(nm, st.names, 0)))
            elif isinstance(st, ast.Import):
                self.imports.append(ast.unparse(st))
            elif isinstance(st, ast.Assign) and not any(getattr(t, "id", "") == "__all__" for t in st.targets):
                self.imports.append(ast.unparse(st))
        pub = list(m.funcs)
        pubc = list(m.classes)
        if pub + pubc:
            self.imports.append(f"from {m.name} import {', '.join(pub + pubc)}")

    def entry(self, props, names, observe, init, opaque, what, keep):
        cls, f = find_entry(self.prog, names[0])
        pm = prop_map(self.prog, cls) if cls is not None else {}
        node = self.convert(cls, f, keep, {} if init else pm)
        kw = []
        if observe:
            kw.append(f"observe={observe!r}")
        if init:
            kw.append("init=True")
        if opaque:
            kw.append(f"opaque={opaque!r}")
        node.name = "define_" + names[0].replace(".", "_").replace(":", "_")
        node.decorator_list = []
        dec = f"@defines({props!r}, {', '.join(map(repr, names))}{', ' if kw else ''}{', '.join(kw)})"
        src = ast.unparse(ast.fix_missing_locations(node)).split("\n")
        i = 1
        while not src[i - 1].rstrip().endswith(":"):
            i += 1
        src.insert(i, f'    """{what}"""')
        self.out.append(dec + "\n" + "\n".join(src))

    def text(self, head):
        used = {n.id for t in self.out for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Name)}
        imp, seen = [], set()
        for line in self.imports:
            st = ast.parse(line).body[0]
            if isinstance(st, ast.Assign):
                keep = [t.id for t in st.targets if isinstance(t, ast.Name) and t.id in used and t.id not in seen]
                if keep:
                    imp.append(line)
                    seen |= set(keep)
                continue
            names = [a for a in st.names if (a.asname or a.name.split(".")[0]) in used and (a.asname or a.name) not in seen]
            if names:
                st.names = names
                seen |= {a.asname or a.name for a in names}
                imp.append(ast.unparse(st))
        return f'"""{head}"""\n' + "\n".join(imp) + "\n\n\n" + "\n\n\n".join(self.out) + "\n"


def draft(out, head, entries, root="/repo"):
    prog = Program(root)
    D = Draft(prog)
    for e in entries:
        D.entry(e["props"], e["names"], e.get("observe"), e.get("init", False), e.get("opaque", []), e["what"], set(e.get("keep", [])) | {x[1:] for x in e.get("opaque", []) if x[0] == "%"})
    open(out, "w").write(D.text(head))


def callees(prog, cls, f):
    """Package functions and own methods a function calls directly: [(opaque name, class, Func, private)]."""
    out = {}
    for n in ast.walk(f.node):
        if not isinstance(n, (ast.Call, ast.Attribute)):
            continue
        fn = n.func if isinstance(n, ast.Call) else n
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "self" and cls is not None:
            g = prog.find_method(cls, fn.attr)
            if g is not None and not g.is_property:
                out["%" + fn.attr] = (cls, g)
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and getattr(fn.value.func, "id", "") == "super" and f.cls is not None:
            for c in f.cls.mro[1:]:
                if fn.attr in c.methods:
                    out[f"{c.name}.{fn.attr}"] = (c, c.methods[fn.attr])
                    break
        elif isinstance(fn, ast.Name):
            for m in prog.modules.values():
                g = m.funcs.get(fn.id)
                if g is not None and (m is f.module or fn.id in f.module.imports):
                    out[f"{m.name[len('lingam.'):] if m.name != 'lingam' else m.name}:{fn.id}"] = (None, g)
                    break
    return out


def draft_parts(out, head, tops, root="/repo", skip=(), given=(), public=()):
    """One definition per function of the call tree of each top entry, callees kept as calls.

    tops: [(props, 'Class.method')]; skip: helper names not to define; given: entries already defined elsewhere."""
    prog = Program(root)
    D = Draft(prog)
    done = {}
    order = []
    for props, top in tops:
        cls, f = find_entry(prog, top)
        todo = [(cls, f, top)]
        seen = set()
        while todo:
            c, g, nm = todo.pop(0)
            if g in seen or g.name in skip or g.name == "__init__":
                continue
            seen.add(g)
            if g not in done:
                done[g] = dict(cls=c, props=set(), tops=[], name=nm)
                order.append(g)
            done[g]["props"] |= set(props.split())
            done[g]["tops"].append(top)
            for on, (c2, g2) in callees(prog, c, g).items():
                if g2.name.startswith("_") or c2 is not None and g2 is not f or g2.module.name in public:
                    n2 = f"{(g2.cls.name if g2.cls is not c2 and c2 is not None else c2.name)}.{g2.name}" if c2 is not None else on
                    todo.append((g2.cls if c2 is not None else None, g2, n2))
    for g in order:
        i = done[g]
        c = i["cls"]
        if i["name"] in given:
            continue
        ops = sorted(on for on, (c2, g2) in callees(prog, c, g).items() if g2.name != "__init__" and g2 is not g and g2.name not in skip)
        obs = []
        if any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Name) and x.value.id == "self") for x in ast.walk(g.node)):
            obs.append("return")
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store) and "field:" + x.attr not in obs:
                obs.append("field:" + x.attr)
        if not obs:
            continue
        node = D.convert(c, g, {on.lstrip("%").split(":")[-1].split(".")[-1] for on in ops} | {g.name}, {})
        node.name = "part_" + i["name"].replace(".", "_").replace(":", "_")
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == g.name and getattr(x.func.value, "id", "") == "self":
                x.func = ast.Name(node.name, ast.Load())
                x.args = ([] if g.is_static else [ast.Name("self", ast.Load())]) + x.args
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == g.name and c is None:
                x.func.id = node.name
        node.decorator_list = []
        doc = (ast.get_docstring(g.node) or g.name.strip("_").replace("_", " ")).split("\n")[0].replace('"', "'").rstrip(".")
        dec = f"@defines({' '.join(sorted(i['props']))!r}, {i['name']!r}, observe={obs!r}, opaque={ops!r}, part_of={sorted(set(i['tops']) - {i['name']})!r})"
        src = ast.unparse(ast.fix_missing_locations(node)).split("\n")
        k = 1
        while not src[k - 1].rstrip().endswith(":"):
            k += 1
        src.insert(k, f'    """{doc}"""')
        D.out.append(dec + "\n" + "\n".join(src))
    open(out, "w").write(D.text(head))
