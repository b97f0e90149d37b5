"""Shared analyses: entry points, alias roots, dependence, docstring parameter types."""
import ast
import re
from .loader import Program
from .terms import T, mk, const, NONE, is_const, walk, children, show
from .interp import Interp, State, Dead, Budget

VIEW_CALLS = {
    "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "ravel", "reshape",
    "transpose", "squeeze", "expand_dims", "swapaxes", "moveaxis", "rollaxis", "broadcast_to", "check_array",
    "as_float_array", "check_X_y", "split", "array_split", "hsplit", "vsplit", "flip", "flipud", "fliplr",
    "iter", "reversed", "enumerate", "zip", "diagonal", "nan_to_num", "real", "imag", "rot90", "next", "getattr",
    "view", "to_numpy", "check_consistent_length", "indexable", "values", "items", "get", "setdefault", "astype",
    "require", "column_or_1d",
}
SAFE_ATTRS = {"shape", "size", "ndim", "dtype", "columns", "index", "dtypes", "name", "names", "coef_", "intercept_", "classes_"}
COPY_PARAM_CALLS = {"check_array", "array", "nan_to_num", "as_float_array", "astype"}


def last(fn):
    return fn.split(".")[-1]


class Run:
    """One abstract run of an entry point."""

    def __init__(self, interp, cls, func, self_term, state, value, dead, params):
        self.I = interp
        self.cls = cls
        self.func = func
        self.self_term = self_term
        self.state = state
        self.value = value
        self.dead = dead
        self.params = params
        self.events = interp.events

    @property
    def name(self):
        return (self.cls.name + "." if self.cls else self.func.module.name + ".") + self.func.name

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


class Analysis:
    def __init__(self, root="/repo"):
        self.prog = Program(root)
        self.cache = {}
        self.n_functions = set()
        self.n_callsites = 0
        self.n_runs = 0
        self.failed = []

    # ------------------------------------------------------------ entries
    def entry_classes(self):
        return [c for c in self.prog.public_classes()]

    def is_abstract(self, f):
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return any("abstractmethod" in d for d in f.decorators) or (
            len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplemented" in ast.unparse(body[0]))

    def public_methods(self, cls, init=False, properties=True):
        out = []
        for n, f in self.prog.methods_of(cls).items():
            if n.endswith("@setter"):
                continue
            if n.startswith("_") and not (init and n == "__init__") and n != "__call__":
                continue
            if f.is_property and not properties:
                continue
            if self.is_abstract(f):
                continue
            out.append(f)
        return out

    def public_functions(self):
        out = []
        for m in self.prog.modules.values():
            if m.name.startswith("spec_"):
                continue
            for n, f in m.funcs.items():
                if not n.startswith("_"):
                    out.append(f)
        return out

    # ------------------------------------------------------------ running
    def run(self, cls, f, args=None, init=False, ctor_args=None, fields=None, watch=None, key=None, max_depth=14):
        ck = (cls.name if cls else None, id(f), init, key) if args is None and ctor_args is None and fields is None and watch is None or key else None
        if ck is not None and ck in self.cache:
            return self.cache[ck]
        I = Interp(self.prog, max_depth=max_depth)
        if watch is not None:
            I.watch = watch
            I.collectors.append([])
        st = State()
        o = None
        pars = f.params()
        if cls is not None and not f.is_static:
            o, st = I.new_instance(cls, st)
            pars = pars[1:]
        if init and f.name != "__init__":
            ini = self.prog.find_method(cls, "__init__")
            if ini is not None:
                ia = {p: mk("param", "__init__." + p) for p in ini.params()[1:]}
                ia.update(ctor_args or {})
                I.record = False
                try:
                    st, _ = I.run_function(ini, ia, self_term=o, st=st)
                except Dead:
                    pass
                I.record = True
                st.env = {}
                st.ctx = ()
        for k, v in (fields or {}).items():
            st.heap[(o.a[0], k)] = v
        a = {}
        for p in pars:
            a[p] = (args or {}).get(p) or mk("param", p)
        dead = False
        val = None
        self.n_runs += 1
        try:
            st, val = I.run_function(f, a, self_term=o, st=st)
        except Dead:
            dead = True
        except (Budget, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as ex:
            dead = True
            self.failed.append(f"{f.qual}: {type(ex).__name__}: {ex}"[:200])
        r = Run(I, cls, f, o, st, val, dead, pars)
        self.n_functions |= I.functions_seen
        self.n_callsites += I.callsites
        if ck is not None:
            self.cache[ck] = r
        return r

    def all_runs(self, init_methods=True, properties=True):
        for c in self.entry_classes():
            for f in self.public_methods(c, init=init_methods, properties=properties):
                yield self.run(c, f)
        for f in self.public_functions():
            yield self.run(None, f)

    # ------------------------------------------------------------ docs
    def param_types(self, f):
        """numpydoc 'name : type' pairs."""
        doc = ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
        out = {}
        if doc:
            for m in re.finditer(r"^(\w[\w ,]*?)\s*:\s*(.+)$", doc, re.M):
                for n in m.group(1).split(","):
                    out[n.strip()] = m.group(2).strip()
        return out

    def param_docs(self, f):
        doc = ast.get_docstring(f.node) or ""
        out = {}
        cur = None
        for line in doc.split("\n"):
            m = re.match(r"^(\w+)\s*:", line)
            if m:
                cur = m.group(1)
                out[cur] = ""
            elif cur and line.startswith("    "):
                out[cur] += " " + line.strip()
            elif not line.strip():
                continue
            else:
                cur = None
        return out

    def is_scalar_param(self, f, name):
        t = self.param_types(f).get(name, "").lower()
        if re.match(r"(int|float|str|bool|string|number)", t):
            return True
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if name in names and a.defaults:
            i = names.index(name) - (len(names) - len(a.defaults))
            if i >= 0 and isinstance(a.defaults[i], ast.Constant) and isinstance(a.defaults[i].value, (int, float, str, bool)) and a.defaults[i].value is not None:
                return True
        if t == "" and re.search(r"(^n_|_index$|^from_|^to_|_lag$|^k$|^i$|^j$)", name):
            return True
        return False


# ---------------------------------------------------------------- index shapes
def index_kind(I, idx):
    """'view' (ints/slices), 'copy' (advanced), or 'unknown'."""
    if idx.k == "tuple":
        ks = [index_kind(I, x) for x in idx.a[0]]
        if "copy" in ks:
            return "copy"
        return "view" if all(k == "view" for k in ks) else "unknown"
    if idx.k in ("slice", "idx", "len"):
        return "view"
    if idx.k == "const":
        return "view"
    if idx.k == "obj":
        return "copy"
    if idx.k in ("cmp", "not", "bool"):
        return "copy"
    if idx.k == "bin":
        ks = {index_kind(I, idx.a[1]), index_kind(I, idx.a[2])}
        return "copy" if "copy" in ks else ("view" if ks == {"view"} else "unknown")
    if idx.k == "sub":
        if idx.a[1].k == "slice":
            return "copy"
        return "unknown"
    if idx.k == "call":
        if last(idx.a[0]) in ("where", "argsort", "nonzero", "argwhere", "arange", "unique", "ix_", "array", "concatenate", "choice", "permutation", "randint"):
            return "copy"
        if last(idx.a[0]) in ("argmax", "argmin", "int"):
            return "view"
    if idx.k == "sel":
        ks = {index_kind(I, idx.a[1]), index_kind(I, idx.a[2])}
        return ks.pop() if len(ks) == 1 else "unknown"
    return "unknown"


def alias_roots(I, t, depth=0, seen=None):
    """Memory roots (params, initial fields, allocations) that t may share storage with."""
    seen = set() if seen is None else seen
    if t in seen or depth > 40:
        return set()
    seen.add(t)
    R = lambda x: alias_roots(I, x, depth + 1, seen)
    k = t.k
    if k in ("param", "fld", "mutdefault", "modconst", "cbarg"):
        return {t}
    if k == "obj":
        out = {t}
        org = I.origin.get(t.a[0])
        if org is not None and org.k == "call" and org.a[0] == "numpy.array":
            kw = dict(org.a[2])
            if is_const(kw.get("copy", NONE), False) and org.a[1]:
                out |= R(org.a[1][0])
        return out
    if k == "attr":
        if t.a[1] in SAFE_ATTRS:
            return set()
        return R(t.a[0])
    if k in ("sub",):
        base, idx = t.a
        b = I.strip_mu(base)
        out = set()
        if b.k == "obj":
            for c in I.contents.get(b.a[0], ()):
                out |= R(c)
            org = I.origin.get(b.a[0])
            if org is not None and org.k == "call" and org.a[0] in ("copy.copy", "numpy.copy") and org.a[1] \
                    and idx.k == "const" and isinstance(idx.a[0], str):
                out |= R(org.a[1][0])
            if b.a[1] == "array" and index_kind(I, idx) != "copy":
                out |= {b}
            return out
        ik = index_kind(I, idx)
        if ik == "copy":
            return set()
        return R(base)
    if k in ("dval", "elemof", "star"):
        b = I.strip_mu(t.a[0])
        if b.k == "obj":
            out = set()
            for c in I.contents.get(b.a[0], ()):
                out |= R(c)
            return out
        return R(t.a[0])
    if k == "sel":
        return R(t.a[1]) | R(t.a[2])
    if k == "phi":
        return set().union(*[R(x) for x in t.a[0]])
    if k == "eta":
        return R(t.a[2]) | R(t.a[3])
    if k == "mu":
        u = I.mu_update.get((t.a[0], t.a[1]))
        return R(t.a[2]) | (R(u) if u is not None else set())
    if k == "call":
        fn = last(t.a[0])
        kw = dict(t.a[2])
        if fn in COPY_PARAM_CALLS and is_const(kw.get("copy", NONE), True):
            return set()
        if fn == "nan_to_num" and not is_const(kw.get("copy", NONE), False):
            return set()
        if fn in VIEW_CALLS and t.a[1]:
            if fn == "zip":
                return set().union(*[R(x) for x in t.a[1]])
            return R(t.a[1][0])
        return set()
    if k == "meth":
        fn = t.a[1]
        if fn == "astype" and not is_const(dict(t.a[3]).get("copy", NONE), False):
            return set()
        if fn in VIEW_CALLS or fn == "pop":
            return R(t.a[0])
        return set()
    return set()


def deps(I, t, through_objects=True, seen=None):
    """Leaf sources a value depends on (data dependence; allocation contents and origins included)."""
    seen = set() if seen is None else seen
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k in ("param", "fld", "ext", "mutdefault"):
            out.add(x)
            if x.k == "fld":
                continue
        if x.k == "obj" and through_objects:
            org = I.origin.get(x.a[0])
            if org is not None:
                stack.append(org)
            stack.extend(I.contents.get(x.a[0], ()))
            out.add(x)
        if x.k == "mu":
            u = I.mu_update.get((x.a[0], x.a[1]))
            if u is not None:
                stack.append(u)
        stack.extend(children(x))
    return out


def deep_walk(I, t, seen=None):
    """Sub-terms of t, looking through allocations (origin and contents) and mu updates."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == "obj":
            org = I.origin.get(x.a[0])
            if org is not None:
                stack.append(org)
            stack.extend(I.contents.get(x.a[0], ()))
        if x.k == "mu":
            u = I.mu_update.get((x.a[0], x.a[1]))
            if u is not None:
                stack.append(u)
        stack.extend(children(x))
