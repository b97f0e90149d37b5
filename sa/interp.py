"""Interprocedural abstract interpreter over the package's syntax trees.

Values are hash-consed Herbrand terms joined with gated selections, so a helper that is
extracted, inlined or reordered yields the same terms.  Calls to functions of the package
are inlined; everything else is an uninterpreted term.  Loops are entered once, with
loop-carried variables widened to mu-terms.  No code of the package is executed and no
path is enumerated: branches are joined at every merge point.
"""
import ast
import sys
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, walk, show
from .loader import Program, Func, Class

sys.setrecursionlimit(20000)

BUILTINS = set("""abs all any bool callable dict divmod enumerate filter float format frozenset getattr
hasattr hash id int isinstance issubclass iter len list map max min next object open ord print range
repr reversed round set setattr slice sorted str sum super tuple type vars zip complex bytes delattr
ValueError TypeError RuntimeError Exception KeyError IndexError AttributeError NotImplementedError
UserWarning Warning DeprecationWarning RuntimeWarning StopIteration AssertionError ArithmeticError
ZeroDivisionError FloatingPointError LookupError OverflowError BaseException FutureWarning""".split())

MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
    "popitem", "add", "discard", "fill", "resize", "itemset", "put", "partition", "setflags", "__setitem__",
    "intersection_update", "difference_update", "symmetric_difference_update", "byteswap_inplace",
}
# numpy method -> function normalisation (first positional argument becomes the receiver)
NPMETH = set("""sum mean std var min max argmin argmax argsort dot any all cumsum cumprod prod copy
transpose reshape ravel nonzero squeeze diagonal trace round clip repeat take conj""".split())
ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.eye", "numpy.identity",
         "numpy.zeros_like", "numpy.empty_like", "numpy.ones_like", "numpy.full_like", "numpy.copy",
         "numpy.array", "copy.copy", "copy.deepcopy", "numpy.tile", "numpy.arange"}
CANON = {"numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "numpy.matmul": "numpy.dot",
         "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "builtins.abs": "abs",
         "numpy.product": "numpy.prod", "numpy.multiply": "*mul", "numpy.logical_not": "not"}
NEG = {"lt": "le", "le": "lt"}


class Dead(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "heap", "ctx")

    def __init__(self, env=None, heap=None, ctx=()):
        self.env = {} if env is None else env
        self.heap = {} if heap is None else heap
        self.ctx = ctx

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.ctx)


class Frame:
    def __init__(self, func, module, cls=None, closure=None, depth=0, self_term=None):
        self.func = func
        self.module = module
        self.cls = cls            # class where the method is defined (for super)
        self.closure = closure    # defining Frame
        self.depth = depth
        self.returns = []
        self.loops = []
        self.cur = None
        self.self_term = self_term
        self.globals_decl = set()
        self.local_imports = {}


class Event:
    __slots__ = ("kind", "d", "ctx", "file", "line", "func", "stack", "node", "seq", "handled")

    def __init__(self, kind, d, ctx, fr, node, stack, seq):
        self.kind = kind
        self.d = d
        self.ctx = ctx
        self.file = fr.module.relpath if fr else "?"
        self.line = getattr(node, "lineno", 0)
        self.func = fr.func.qual if fr and fr.func else "<module>"
        self.stack = stack
        self.node = node
        self.seq = seq
        self.handled = False

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    @property
    def loc(self):
        return f"{self.file}:{self.line} ({self.func})"

    def guards(self):
        return [(c[1], c[2]) for c in self.ctx if c[0] == "g"]

    def loops(self):
        return [c[1] for c in self.ctx if c[0] == "l"]

    def __repr__(self):
        return f"<{self.kind} {self.loc} " + " ".join(f"{k}={show(v) if isinstance(v, T) else v}" for k, v in self.d.items()) + ">"


def assigned_names(nodes):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            rec(c)
    for n in nodes:
        rec(n)
    return out


class Interp:
    def __init__(self, prog, max_depth=14, budget=400000):
        self.prog = prog
        self.max_depth = max_depth
        self.budget = budget
        self.events = []
        self.nobj = 0
        self.nloop = 0
        self.origin = {}        # objid -> term it was built from
        self.contents = {}      # objid -> set of terms ever stored inside
        self.objsite = {}       # objid -> location
        self.loopinfo = {}      # lid -> dict(iter=term, kind=, file=, line=)
        self.mu_update = {}     # (lid, name) -> last value
        self.funcs = []
        self.func_ids = {}
        self.stack = []
        self.seq = 0
        self.record = True
        self.collectors = []    # innermost-last list of dict(frame, states)
        self.watch = None       # predicate on (objid, field) to track through exceptional exits
        self.functions_seen = set()
        self.callsites = 0
        self.active = []
        self.modconst_busy = set()
        self.opaque_writes = {}
        self.opaque = set()     # Func objects that must not be inlined
        self.loopctx = {}
        self.loopstop = {}      # lid -> conditions (path suffixes) under which the loop is left early
        self.eta_plain = set()  # (lid, name): leaving early does not change the value
        self.vguards = set()    # (condition, polarity) whose other side only raises

    # ---------------------------------------------------------------- events
    def emit(self, kind, st, fr, node, **d):
        if not self.record:
            return None
        self.seq += 1
        e = Event(kind, d, st.ctx, fr, node, tuple(self.stack), self.seq)
        self.events.append(e)
        return e

    # ---------------------------------------------------------------- objects
    def alloc(self, kind, st, fr, node, origin=None, items=None):
        self.nobj += 1
        o = mk("obj", self.nobj, kind)
        self.origin[self.nobj] = origin
        self.contents[self.nobj] = set()
        self.objsite[self.nobj] = (fr.module.relpath if fr else "?", getattr(node, "lineno", 0), st.ctx)
        if items is not None:
            st.heap[(self.nobj, "#items")] = ("known", tuple(items))
            self.contents[self.nobj].update(items)
        return o

    def func_term(self, f, frame=None):
        key = (id(f), id(frame) if frame else 0)
        if key not in self.func_ids:
            self.func_ids[key] = len(self.funcs)
            self.funcs.append((f, frame))
        return mk("func", self.func_ids[key])

    # ---------------------------------------------------------------- names
    def lookup_name(self, name, st, fr, node=None):
        if name in st.env:
            return self.refine(st.env[name], st.ctx)
        f = fr.closure
        while f is not None:
            if f.cur is not None and name in f.cur.env:
                return self.refine(f.cur.env[name], st.ctx)
            f = f.closure
        if name in fr.local_imports:
            return self.from_resolved(self.prog.resolve_import(fr.local_imports[name]), name)
        r = self.prog.lookup(fr.module, name)
        if r is not None:
            return self.from_resolved(r, name)
        if name in BUILTINS:
            return mk("ext", name)
        return mk("unbound", name)

    def from_resolved(self, r, name=""):
        if r[0] == "func":
            return self.func_term(r[1])
        if r[0] == "class":
            return mk("cls", r[1].name, r[1].module.name)
        if r[0] == "module":
            return mk("mod", r[1].name)
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "expr":
            key = (r[1].name, id(r[2]))
            if key in self.modconst_busy:
                return mk("unbound", name)
            self.modconst_busy.add(key)
            try:
                st = State()
                fr = Frame(Func(ast.parse("def module():\n pass").body[0], r[1]), r[1])
                v = self.eval(r[2], st, fr)
                if v.k == "obj":
                    items = st.heap.get((v.a[0], "#items"))
                    if items and items[0] == "known":
                        return mk("modconst", r[1].name, name, items[1])
                    return mk("modconst", r[1].name, name, ())
                return v
            except Dead:
                return mk("unbound", name)
            finally:
                self.modconst_busy.discard(key)
        return mk("unbound", name)

    def get_class(self, t):
        m = self.prog.modules.get(t.a[1])
        return m.classes.get(t.a[0]) if m else None

    def inst_class(self, t):
        if t.k == "obj" and t.a[1].startswith("inst:"):
            mod, _, nm = t.a[1][5:].rpartition(":")
            m = self.prog.modules.get(mod)
            return m.classes.get(nm) if m else None
        return None

    # ---------------------------------------------------------------- joins
    def diff_cond(self, c1, c2):
        n = 0
        while n < len(c1) and n < len(c2) and c1[n] == c2[n]:
            n += 1
        pre = c1[:n]
        if n < len(c1) and n < len(c2) and c1[n][0] == c2[n][0] == "g" and c1[n][1] is c2[n][1]:
            return pre, c1[n][1], c1[n][2]
        if n < len(c1):
            c, pol = self.conj(c1[n:]), True
        elif n < len(c2):
            c, pol = self.conj(c2[n:]), False
        else:
            return pre, None, None
        while c is not None and c.k == "not":
            c, pol = c.a[0], not pol
        return pre, c, pol

    def conj(self, items):
        """The condition under which this suffix of a path condition is reached."""
        parts = []
        for i, x in enumerate(items):
            if x[0] == "g":
                parts.append(x[1] if x[2] else self.mknot(x[1]))
            else:
                rest = self.conj(items[i + 1:])
                parts.append(mk("loopexit", x[1], rest if rest is not None else TRUE))
                break
        if not parts:
            return None
        return self.mkbool("and", parts)

    def sel(self, cond, pol, a, b):
        if a is b:
            return a
        if cond is None:
            items = []
            for x in (a, b):
                if x.k == "phi":
                    items.extend(x.a[0])
                else:
                    items.append(x)
            items = tuple(sorted(set(items), key=lambda x: x.id))
            return mk("phi", items)
        if not pol:
            a, b = b, a
        if cond.k == "not":
            cond, a, b = cond.a[0], b, a
        while a.k == "sel" and a.a[0] is cond:
            a = a.a[1]
        while b.k == "sel" and b.a[0] is cond:
            b = b.a[2]
        if a is b:
            return a
        return mk("sel", cond, a, b)

    def refine(self, t, ctx):
        """Resolve selections whose condition the path condition already decides."""
        n = 0
        while t.k == "sel" and n < 20:
            r = self.assume_known(t.a[0], ctx)
            if r is None:
                return t
            t = t.a[1] if r else t.a[2]
            n += 1
        return t

    def join(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        pre, cond, pol = self.diff_cond(s1.ctx, s2.ctx)
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                env[k] = a
            elif a is None or b is None:
                env[k] = self.sel(cond, pol, a if a is not None else mk("unbound", k), b if b is not None else mk("unbound", k))
            else:
                env[k] = self.sel(cond, pol, a, b)
        return State(env, self.join_heap(s1.heap, s2.heap, cond, pol), pre)

    def join_heap(self, h1, h2, cond, pol):
        if h1 is h2:
            return h1
        heap = {}
        for k in set(h1) | set(h2):
            a, b = h1.get(k), h2.get(k)
            if a is b or a == b:
                heap[k] = a
            elif k[1] == "#items":
                if a is None or b is None:
                    heap[k] = a if a is not None else b
                else:
                    ea = set(a[1])
                    eb = set(b[1])
                    heap[k] = ("elts", tuple(sorted(ea | eb, key=lambda x: x.id)))
            else:
                miss = mk("fld", mk("objref", k[0]), k[1])
                heap[k] = self.sel(cond, pol, a if a is not None else miss, b if b is not None else miss)
        return heap

    # ---------------------------------------------------------------- truth
    def truth(self, t):
        """True / False / None."""
        k = t.k
        if k == "const":
            try:
                return bool(t.a[0])
            except Exception:
                return None
        if k == "not":
            r = self.truth(t.a[0])
            return None if r is None else not r
        if k == "bool":
            vals = [self.truth(x) for x in t.a[1]]
            if t.a[0] == "and":
                if any(v is False for v in vals):
                    return False
                return True if all(v is True for v in vals) else None
            if any(v is True for v in vals):
                return True
            return False if all(v is False for v in vals) else None
        if k == "ival":
            lo, hi, lop, hop = t.a[:4]
            if lo > 0 or hi < 0 or (lo == 0 and lop) or (hi == 0 and hop):
                return True
            return None
        if k == "obj" and t.a[1].startswith("inst:"):
            return True
        if k in ("func", "cls", "mod"):
            return True
        if k == "tuple":
            return len(t.a[0]) > 0
        if k == "sel":
            a, b = self.truth(t.a[1]), self.truth(t.a[2])
            return a if a == b else None
        return None

    def assume_known(self, cond, ctx):
        """Truth of cond implied syntactically by the path condition."""
        r = self.truth(cond)
        if r is not None:
            return r
        base, pol = cond, True
        while base.k == "not":
            base, pol = base.a[0], not pol
        if base.k == "phi":
            return None
        if base.k == "bool":
            rs = [self.assume_known(x, ctx) for x in base.a[1]]
            stop = base.a[0] == "or"
            if any(x is stop for x in rs):
                return stop == pol
            if all(x is (not stop) for x in rs):
                return (not stop) == pol
        nb = self.mknot(base)
        for c in ctx:
            if c[0] != "g":
                continue
            if c[1] is base:
                return c[2] == pol
            if c[1] is nb:
                return (not c[2]) == pol
            # conjunctions known true / disjunctions known false
            if c[1].k == "bool":
                op = c[1].a[0]
                if op == "and" and c[2] or op == "or" and not c[2]:
                    for x in c[1].a[1]:
                        if x is base:
                            return c[2] == pol
                        if x is nb:
                            return (not c[2]) == pol
        return None

    def mknot(self, t):
        if t.k == "not":
            return t.a[0]
        if t.k == "const":
            try:
                return const(not t.a[0])
            except Exception:
                pass
        if t.k == "cmp":
            op, a, b = t.a
            if op == "lt":
                return mk("cmp", "le", b, a)
            if op == "le":
                return mk("cmp", "lt", b, a)
        if t.k == "bool":
            return mk("bool", "or" if t.a[0] == "and" else "and", tuple(self.mknot(x) for x in t.a[1]))
        r = self.truth(t)
        if r is not None:
            return const(not r)
        return mk("not", t)

    # ---------------------------------------------------------------- comparisons
    def rng(self, t):
        """(lo, hi, lo_open, hi_open) for numeric constants and intervals."""
        if t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            return (t.a[0], t.a[0], False, False)
        if t.k == "ival":
            return t.a[:4]
        if t.k == "ext" and t.a[0] in ("numpy.inf", "math.inf"):
            return (float("inf"), float("inf"), False, False)
        if t.k == "bin" and t.a[0] in ("Add", "Sub", "Mult"):
            a, b = self.rng(t.a[1]), self.rng(t.a[2])
            if a and b and "ival" in (t.a[1].k, t.a[2].k) or (a and b):
                if t.a[0] == "Add":
                    return (a[0] + b[0], a[1] + b[1], a[2] or b[2], a[3] or b[3])
                if t.a[0] == "Sub":
                    return (a[0] - b[1], a[1] - b[0], a[2] or b[3], a[3] or b[2])
        if t.k == "un" and t.a[0] == "USub":
            a = self.rng(t.a[1])
            if a:
                return (-a[1], -a[0], a[3], a[2])
        if t.k == "call" and t.a[0] in ("float", "int") and len(t.a[1]) == 1:
            if t.a[0] == "float":
                return self.rng(t.a[1][0])
        if t.k == "len" and t.a[0].k == "aval":
            n = dict(t.a[0].a[1]).get("len")
            if n is not None:
                return self.rng(n)
        return None

    def mkcmp(self, op, a, b):
        if op == "gt":
            return self.mkcmp("lt", b, a)
        if op == "ge":
            return self.mkcmp("le", b, a)
        if op == "ne":
            return self.mknot(self.mkcmp("eq", a, b))
        if op == "isnot":
            return self.mknot(self.mkcmp("is", a, b))
        if op == "notin":
            return self.mknot(self.mkcmp("in", a, b))
        if op in ("lt", "le"):
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb:
                al, ah, alo, aho = ra
                bl, bh, blo, bho = rb
                if op == "lt":
                    if ah < bl or (ah == bl and (aho or blo)):
                        return TRUE
                    if al > bh or al == bh:
                        return FALSE
                else:
                    if ah < bl or ah == bl:
                        return TRUE
                    if al > bh or (al == bh and (alo or bho)):
                        return FALSE
            if a is b and a.k not in ("call", "meth"):
                return const(op == "le")
        elif op == "eq":
            if a.k == "const" and b.k == "const":
                try:
                    return const(bool(a.a[0] == b.a[0]))
                except Exception:
                    pass
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb:
                if ra[0] == ra[1] == rb[0] == rb[1]:
                    return TRUE
                if ra[1] < rb[0] or rb[1] < ra[0] or (ra[1] == rb[0] and (ra[3] or rb[2])) or (rb[1] == ra[0] and (rb[3] or ra[2])):
                    return FALSE
            ta, tb = self.typeset(a), self.typeset(b)
            if ta and tb and not (ta & tb) and not ({"int", "float"} & ta and {"int", "float", "bool"} & tb) \
                    and not ({"int", "float"} & tb and {"int", "float", "bool"} & ta):
                return FALSE
            if "anystr" in (a.k, b.k) and "const" in (a.k, b.k):
                return FALSE
            if a.k == "dimsym" or b.k == "dimsym":
                if a is b:
                    return TRUE
                if a.k == b.k == "dimsym":
                    return FALSE
            if a.k == "tuple" and b.k == "tuple":
                if len(a.a[0]) != len(b.a[0]):
                    return FALSE
                parts = [self.mkcmp("eq", x, y) for x, y in zip(a.a[0], b.a[0])]
                tr = [self.truth(p) for p in parts]
                if all(x is True for x in tr):
                    return TRUE
                if any(x is False for x in tr):
                    return FALSE
            if a.id > b.id:
                a, b = b, a
        elif op == "is":
            if a.k == "const" and b.k == "const":
                return const(a.a[0] is b.a[0] or (a.a[0] == b.a[0] and type(a.a[0]) is type(b.a[0])))
            if a.k in ("ext", "cls") and b.k in ("ext", "cls"):
                return const(a is b)
            for x, y in ((a, b), (b, a)):
                if is_const(y, None):
                    if x.k in ("obj", "tuple", "ival", "anystr", "func", "cls", "mod", "slice", "dimsym", "bound", "aval", "idx", "len", "fstr", "opaqueval"):
                        return FALSE
                    if x.k in ("bin", "cmp") or x.k == "call" and (x.a[0] in ("abs", "sklearn.utils.check_array", "sklearn.utils.validation.check_array", "range", "str", "int", "float", "sum", "enumerate", "zip") or x.a[0].startswith("numpy.") and x.a[0] not in ("numpy.fill_diagonal", "numpy.copyto", "numpy.put", "numpy.putmask", "numpy.place", "numpy.save", "numpy.savetxt", "numpy.random.seed", "numpy.random.shuffle")):
                        return FALSE
                    if x.k == "sel":
                        p, q = self.mkcmp("is", x.a[1], NONE), self.mkcmp("is", x.a[2], NONE)
                        if p is TRUE and q is FALSE:
                            return x.a[0]
                        if p is FALSE and q is TRUE:
                            return self.mknot(x.a[0])
                        if p is q and p.k == "const":
                            return p
            if a.id > b.id:
                a, b = b, a
        elif op == "in":
            items = self.known_items_pure(b)
            if items is not None:
                rs = [self.truth(self.mkcmp("eq", a, x)) for x in items]
                if any(r is True for r in rs):
                    return TRUE
                if all(r is False for r in rs):
                    return FALSE
            if b.k == "aval":
                has = dict(b.a[1]).get("keys")
                if has is not None and a.k == "const":
                    return const(any(x is a for x in has))
        return mk("cmp", op, a, b)

    def known_items_pure(self, t):
        if t.k == "tuple":
            return t.a[0]
        if t.k == "aval":
            it = dict(t.a[1]).get("items")
            return it.a[0] if it is not None else None
        if t.k == "modconst":
            return t.a[2] or None
        if t.k == "frozenitems":
            return t.a[0]
        if t.k == "call" and t.a[0] in ("list", "tuple", "set", "sorted") and t.a[1]:
            return self.known_items_pure(t.a[1][0])
        return None

    def known_items(self, t, st):
        r = self.known_items_pure(t)
        if r is not None:
            return r
        if t.k == "obj":
            it = st.heap.get((t.a[0], "#items"))
            if it and it[0] == "known":
                return it[1]
        return None

    TYPE_ORDER = ("int", "float", "bool", "str", "none", "tuple", "list", "dict", "set", "ndarray", "func")

    def typeset(self, t):
        if t.k == "const":
            v = t.a[0]
            return {"none"} if v is None else {type(v).__name__}
        if t.k == "ival":
            return {"int"} if t.a[4] else {"float"}
        if t.k in ("anystr", "fstr"):
            return {"str"}
        if t.k == "tuple":
            return {"tuple"}
        if t.k in ("func", "bound"):
            return {"func"}
        if t.k == "obj":
            if t.a[1] in ("list", "dict", "set"):
                return {t.a[1]}
            if t.a[1] == "array":
                return {"ndarray"}
            if t.a[1].startswith("inst:"):
                return {t.a[1]}
        if t.k == "aval":
            ty = dict(t.a[1]).get("type")
            return {ty.a[0]} if ty is not None else None
        if t.k == "len":
            return {"int"}
        if t.k == "idx":
            return {"int"}
        if t.k == "opaqueval":
            return {t.a[0]}
        return None

    ISA = {
        "int": {"int", "bool"}, "numbers.Integral": {"int", "bool"}, "numpy.integer": set(), "float": {"float"},
        "numbers.Real": {"int", "float", "bool"}, "numbers.Number": {"int", "float", "bool"},
        "numpy.number": set(), "numpy.floating": set(), "numpy.bool_": set(),
        "bool": {"bool"}, "str": {"str"}, "list": {"list"}, "tuple": {"tuple"}, "dict": {"dict"},
        "set": {"set"}, "numpy.ndarray": {"ndarray"}, "collections.abc.Iterable": {"list", "tuple", "dict", "set", "ndarray", "str"},
        "pandas.DataFrame": {"dataframe"}, "pandas.core.frame.DataFrame": {"dataframe"},
    }

    def isinstance_fold(self, v, ty, st):
        ts = self.typeset(v)
        if ts is None and v.k in ("sel", "phi"):
            parts = list(v.a[1:]) if v.k == "sel" else list(v.a[0])
            rs = {self.isinstance_fold(x, ty, st) for x in parts}
            return rs.pop() if len(rs) == 1 else None
        if ts is None:
            return None
        kinds = self.known_items(ty, st) or (ty,)
        res = []
        for k in kinds:
            if k.k == "call" and k.a[0] == "type" and is_const(k.a[1][0], None):
                res.append("none" in ts)
            elif k.k == "ext":
                isa = self.ISA.get(k.a[0])
                if isa is None:
                    if any(x.startswith("inst:") or x in ("int", "float", "str", "none", "bool") for x in ts):
                        res.append(False)
                    else:
                        res.append(None)
                else:
                    res.append(bool(ts & isa))
            elif k.k == "cls":
                c = self.get_class(k)
                hit = None
                for x in ts:
                    if x.startswith("inst:"):
                        ic = self.inst_class(v)
                        hit = ic is not None and c in ic.mro
                    else:
                        hit = False
                res.append(hit)
            else:
                res.append(None)
        if any(r is True for r in res):
            return True
        if all(r is False for r in res):
            return False
        return None

    # ---------------------------------------------------------------- arithmetic
    def mkbin(self, op, a, b):
        if a.k == "const" and b.k == "const" and isinstance(a.a[0], (int, float, str)) and isinstance(b.a[0], (int, float, str)):
            try:
                x, y = a.a[0], b.a[0]
                if op == "Add":
                    return const(x + y)
                if op == "Sub":
                    return const(x - y)
                if op == "Mult":
                    return const(x * y)
                if op == "Div":
                    return const(x / y)
                if op == "FloorDiv":
                    return const(x // y)
                if op == "Pow" and abs(y) < 10:
                    return const(x ** y)
                if op == "Mod" and not isinstance(x, str):
                    return const(x % y)
            except Exception:
                pass
        if op == "Add" and is_const(b, 0):
            return a
        if op == "Add" and is_const(a, 0):
            return b
        if op == "Sub" and is_const(b, 0):
            return a
        if op == "Mult" and (is_const(b, 1)):
            return a
        if op == "Mult" and (is_const(a, 1)):
            return b
        # (x + c1) + c2
        if op in ("Add", "Sub") and b.k == "const" and isinstance(b.a[0], int) and a.k == "bin" and a.a[0] in ("Add", "Sub") \
                and a.a[2].k == "const" and isinstance(a.a[2].a[0], int):
            c = (a.a[2].a[0] if a.a[0] == "Add" else -a.a[2].a[0]) + (b.a[0] if op == "Add" else -b.a[0])
            if c == 0:
                return a.a[1]
            return mk("bin", "Add" if c > 0 else "Sub", a.a[1], const(abs(c)))
        if op in ("Add", "Mult") and a.k != "const" and b.k != "const" and a.id > b.id and self.scalarish(a) and self.scalarish(b):
            a, b = b, a
        if op in ("Add", "Mult") and a.k == "const" and b.k != "const":
            a, b = b, a
        if op == "MatMult":
            return mk("call", "numpy.dot", (a, b), ())
        return mk("bin", op, a, b)

    def scalarish(self, t):
        return t.k in ("idx", "len", "const") or (t.k == "bin" and self.scalarish(t.a[1]) and self.scalarish(t.a[2])) or t.k == "param"

    # ---------------------------------------------------------------- entry points
    def run_function(self, f, args, self_term=None, st=None, closure=None):
        """Abstractly run f with a mapping parameter -> term. Returns (state or None, value)."""
        st = st or State()
        return self.invoke(f, [], list(args.items()), st, None, f.node, self_term=self_term, closure=closure)

    def new_instance(self, cls, st=None):
        st = st or State()
        o = self.alloc("inst:%s:%s" % (cls.module.name, cls.name), st, None, cls.node)
        return o, st

    # ---------------------------------------------------------------- invocation
    def bind(self, f, pos, kws, st, fr, self_term):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        if self_term is not None and f.cls is not None and not f.is_static and names:
            pos = [self_term] + pos
        extra = []
        star = [p for p in pos if p.k == "star"]
        if star:
            flat = []
            for p in pos:
                if p.k == "star":
                    items = self.known_items(p.a[0], st)
                    if items is not None:
                        flat.extend(items)
                    else:
                        n = len(names) - len(flat)
                        for i in range(max(n, 0)):
                            flat.append(mk("sub", p.a[0], const(i)))
                else:
                    flat.append(p)
            pos = flat
        for i, p in enumerate(pos):
            if i < len(names):
                env[names[i]] = p
            else:
                extra.append(p)
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", tuple(extra))
        kwextra = []
        kwnames = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kws:
            if k is None:
                if v.k == "obj":
                    for (oid, fld), val in list(st.heap.items()):
                        if oid == v.a[0] and fld.startswith("#k:"):
                            if fld[3:] in kwnames:
                                env[fld[3:]] = val
                            else:
                                kwextra.append((fld[3:], val))
                else:
                    kwextra.append(("**", v))
            elif k in kwnames:
                env[k] = v
            else:
                kwextra.append((k, v))
        if a.kwarg:
            o = self.alloc("dict", st, fr, f.node)
            for k, v in kwextra:
                st.heap[(o.a[0], "#k:" + k)] = v
                self.contents[o.a[0]].add(v)
            env[a.kwarg.arg] = o
        elif kwextra:
            for k, v in kwextra:
                if k == "**":
                    for n in kwnames:
                        env.setdefault(n, mk("sub", v, const(n)))
        defs = a.defaults
        off = len(names) - len(defs)
        dfr = Frame(f, f.module)
        for i, d in enumerate(defs):
            if names[off + i] not in env:
                env[names[off + i]] = self.default(f, d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default(f, d, dfr)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                env[n] = mk("missing", f.qual, n)
        return env

    def default(self, f, d, dfr):
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call)):
            return mk("mutdefault", f.qual, ast.unparse(d))
        try:
            return self.eval(d, State(), dfr)
        except Dead:
            return mk("unknown", "default")

    def invoke(self, f, pos, kws, st, fr, node, self_term=None, closure=None):
        """Inline f. Returns (state, value); raises Dead when no normal return exists."""
        self.functions_seen.add(f.where + ":" + f.qual)
        depth = (fr.depth + 1) if fr else 0
        nf = Frame(f, f.module, f.cls, closure, depth, self_term)
        env = self.bind(f, pos, kws, st, fr, self_term)
        callee = State(env, dict(st.heap), st.ctx)
        self.stack.append(f.qual)
        self.active.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, callee, nf)
                st.heap = callee.heap
                return st, v
            end = self.block(f.node.body, callee, nf)
            if end is not None:
                nf.returns.append((end, NONE, f.node))
        finally:
            self.stack.pop()
            self.active.pop()
        if not nf.returns:
            raise Dead()
        # join return states pairwise, latest first: an earlier return takes precedence
        rets = nf.returns
        acc_s, acc_v, _ = rets[-1]
        for s, v, _n in reversed(rets[:-1]):
            pre, cond, pol = self.diff_cond(s.ctx, acc_s.ctx)
            acc_v = self.sel(cond, pol, v, acc_v)
            acc_s = State({}, self.join_heap(s.heap, acc_s.heap, cond, pol), pre)
        st.heap = acc_s.heap
        st.ctx = acc_s.ctx
        if len(acc_s.ctx) < len(st.ctx):
            st.ctx = acc_s.ctx
        return st, acc_v

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.budget -= 1
            if self.budget < 0:
                raise Budget()
            fr.cur = st
            try:
                st = self.stmt(s, st, fr)
            except Dead:
                return None
            if st is not None:
                fr.cur = st
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        fr.globals_decl.update(s.names)
        return st

    s_Nonlocal = s_Pass

    def s_Import(self, s, st, fr):
        self.prog.index_import(fr.module, s, fr.local_imports)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st, fr):
        f = fr.func._facts.get(("def", id(s)))
        if f is None:
            f = Func(s, fr.module, None, fr.func)
            fr.func._facts[("def", id(s))] = f
        st.env[s.name] = self.func_term(f, fr)
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = mk("unknown", "localclass:" + s.name)
        return st

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st, v, s))
        self.emit("return", st, fr, s, value=v, depth=fr.depth)
        return None

    def s_Raise(self, s, st, fr):
        exc = self.eval(s.exc, st, fr) if s.exc is not None else mk("ext", "reraise")
        name = exc.a[0] if exc.k in ("call", "ext") else ("opaque:" + exc.k)
        self.emit("raise", st, fr, s, exc=name, value=exc)
        self.note_exc(st, name)
        return None

    def note_exc(self, st, name):
        if self.collectors:
            self.collectors[-1].append((name, dict(st.heap), st.ctx))

    def s_Assert(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        r = self.assume_known(c, st.ctx)
        if r is False:
            self.emit("raise", st, fr, s, exc="AssertionError", value=c)
            return None
        if r is None:
            st.ctx = st.ctx + (("g", c, True),)
        return st

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        rhs = self.eval(s.value, st, fr)
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.lookup_name(s.target.id, st, fr)
            self.emit("augname", st, fr, s, name=s.target.id, old=old, op=op, rhs=rhs)
            new = self.mkbin(op, old, rhs)
            if old.k == "obj" and old.a[1] in ("list", "set", "dict", "array"):
                # in place
                self.mutate_list(old, "extend" if op == "Add" else "update", (rhs,), st)
                self.emit("mutcall", st, fr, s, base=old, name="__iadd__", args=(rhs,))
                if old.a[1] == "array":
                    st.env[s.target.id] = old
                return st
            st.env[s.target.id] = new
        elif isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, st, fr)
            idx = self.eval(s.target.slice, st, fr)
            old = self.mksub(base, idx, st)
            new = self.mkbin(op, old, rhs)
            self.store_sub(base, idx, new, st, fr, s, aug=op, rhs=rhs)
        elif isinstance(s.target, ast.Attribute):
            base = self.eval(s.target.value, st, fr)
            old = self.getattr(base, s.target.attr, st, fr, s.target)
            self.emit("augattr", st, fr, s, base=base, name=s.target.attr, old=old, op=op, rhs=rhs)
            self.setattr(base, s.target.attr, self.mkbin(op, old, rhs), st, fr, s)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st, fr)
                idx = self.eval(t.slice, st, fr)
                self.emit("delitem", st, fr, s, base=base, index=idx)
                if base.k == "obj":
                    it = st.heap.get((base.a[0], "#items"))
                    if it:
                        st.heap[(base.a[0], "#items")] = ("elts", tuple(sorted(set(it[1]), key=lambda x: x.id)))
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st, fr)
                self.setattr(base, t.attr, mk("deleted"), st, fr, s)
        return st

    def s_If(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        return self.branch(c, s.body, s.orelse, st, fr)

    def branch(self, c, body, orelse, st, fr):
        r = self.assume_known(c, st.ctx)
        if r is True:
            return self.block(body, st, fr)
        if r is False:
            return self.block(orelse, st, fr)
        cc, pol = c, True
        while cc.k == "not":
            cc, pol = cc.a[0], not pol
        s1 = st.copy()
        s2 = st
        s1.ctx = st.ctx + (("g", cc, pol),)
        s2.ctx = st.ctx + (("g", cc, not pol),)
        m = self.exits(fr)
        e1 = self.block(body, s1, fr)
        if e1 is None and self.exits(fr) == m:
            self.vguards.add((cc, not pol))
        m = self.exits(fr)
        e2 = self.block(orelse, s2, fr) if orelse else s2
        if e2 is None and self.exits(fr) == m:
            self.vguards.add((cc, pol))
        r = self.join(e1, e2)
        if e1 is not None and e2 is not None and (len(e1.ctx) > len(r.ctx) + 1 or len(e2.ctx) > len(r.ctx) + 1):
            # a part of a branch left (continue, return): what follows runs on the remaining paths only
            n = len(r.ctx)
            l1, l2 = ([x for x in e.ctx[n + 1:] if x[0] == "g" and (x[1], x[2]) not in self.vguards] for e in (e1, e2))
            own = cc if pol else self.mknot(cc)
            if l1 and not l2:
                g = ("g", self.mkbool("and", [own, self.mknot(self.conj(l1))]), False)
            elif l2 and not l1:
                g = ("g", self.mkbool("and", [self.mknot(own), self.mknot(self.conj(l2))]), False)
            elif l1 and l2:
                g = ("g", self.mkbool("or", [self.mkbool("and", [own, self.conj(l1)]), self.mkbool("and", [self.mknot(own), self.conj(l2)])]), True)
            else:
                return r
            r.ctx = r.ctx + (g,)
        return r

    def exits(self, fr):
        return (len(fr.returns),) + tuple((len(l["breaks"]), len(l["conts"])) for l in fr.loops)

    # loops
    def new_loop(self, it, fr, node, kind):
        self.nloop += 1
        self.loopinfo[self.nloop] = dict(iter=it, kind=kind, file=fr.module.relpath, line=getattr(node, "lineno", 0), func=fr.func.qual)
        return self.nloop

    def elem(self, it, lid, st):
        """Abstract element of iterating it in loop lid."""
        if it.k == "call":
            fn, args, kw = it.a[0], it.a[1], it.a[2]
            if fn == "range":
                lo, hi, step = const(0), const(0), const(1)
                if len(args) == 1:
                    hi = args[0]
                elif len(args) >= 2:
                    lo, hi = args[0], args[1]
                    if len(args) == 3:
                        step = args[2]
                return mk("idx", lid, lo, hi, step)
            if fn == "enumerate":
                start = args[1] if len(args) > 1 else dict(kw).get("start", const(0))
                i = mk("idx", lid, const(0), self.mklen(args[0], st), const(1))
                return mk("tuple", (self.mkbin("Add", i, start), self.elem(args[0], lid, st)))
            if fn == "zip":
                return mk("tuple", tuple(self.elem(x, lid, st) for x in args))
            if fn in ("list", "tuple", "iter", "numpy.asarray") and args:
                return self.elem(args[0], lid, st)
            if fn == "numpy.ndindex":
                return mk("ndidx", lid, args)
            if fn == "itertools.product" and len(args) == 2 and not kw:
                return mk("tuple", (self.elem(args[0], lid, st), self.elem(args[1], lid, st)))
            if fn in ("sorted", "numpy.unique", "reversed"):
                return mk("sub", it, mk("idx", lid, const(0), self.mklen(it, st), const(1)))
            if fn in ("numpy.arange",):
                lo, hi, step = const(0), const(0), const(1)
                if len(args) == 1:
                    hi = args[0]
                elif len(args) >= 2:
                    lo, hi = args[0], args[1]
                return mk("idx", lid, lo, hi, step)
        if it.k == "obj":
            org = self.origin.get(it.a[0])
            if org is not None and org.k == "call" and org.a[0] in ("list", "numpy.arange", "range", "numpy.array", "tuple") and org.a[1]:
                if not (self.contents.get(it.a[0]) or set()) - {mk("elemof", org.a[1][0])}:
                    src = org if org.a[0] in ("numpy.arange", "range") else org.a[1][0]
                    if src.k == "call" and src.a[0] in ("range", "enumerate", "zip", "numpy.arange"):
                        return self.elem(src, lid, st)
            return mk("sub", it, mk("idx", lid, const(0), self.mklen(it, st), const(1)))
        if it.k == "meth" and it.a[1] == "items":
            i = mk("idx", lid, const(0), mk("len", it.a[0]), const(1))
            return mk("tuple", (mk("dkey", it.a[0], i), mk("dval", it.a[0], i)))
        if it.k == "meth" and it.a[1] == "keys":
            return mk("dkey", it.a[0], mk("idx", lid, const(0), mk("len", it.a[0]), const(1)))
        if it.k == "meth" and it.a[1] == "values":
            return mk("dval", it.a[0], mk("idx", lid, const(0), mk("len", it.a[0]), const(1)))
        return mk("sub", it, mk("idx", lid, const(0), self.mklen(it, st), const(1)))

    def mklen(self, t, st=None):
        if t.k == "tuple":
            return const(len(t.a[0]))
        if t.k == "obj" and st is not None:
            it = st.heap.get((t.a[0], "#items"))
            if it and it[0] == "known":
                return const(len(it[1]))
        if t.k == "aval":
            n = dict(t.a[1]).get("len")
            if n is not None:
                return n
            n = dict(t.a[1]).get("items")
            if n is not None:
                return const(len(n.a[0]))
            n = dict(t.a[1]).get("shape")
            if n is not None:
                return n.a[0][0]
        if t.k == "const" and isinstance(t.a[0], str):
            return const(len(t.a[0]))
        if t.k == "call" and t.a[0] == "range" and len(t.a[1]) == 1:
            return t.a[1][0]
        sh = self.shape_of(t) if t.k in ("call", "obj", "meth") else None
        if sh is not None:
            return sh.a[0][0]
        if t.k == "call" and t.a[0] in ("list", "sorted", "numpy.asarray", "numpy.array") and t.a[1]:
            return self.mklen(t.a[1][0], st)
        return mk("len", t)

    def definitely_nonempty(self, it, st):
        n = self.mklen(it, st)
        r = self.rng(n)
        return bool(r and (r[0] > 0))

    def iter_known(self, it, st):
        """Concrete element list for literal iterables (<= 8 items)."""
        items = self.known_items(it, st)
        if items is not None and len(items) <= 8:
            return list(items)
        if it.k == "call":
            fn, args = it.a[0], it.a[1]
            if fn == "range" and all(a.k == "const" and isinstance(a.a[0], int) for a in args):
                r = range(*[a.a[0] for a in args])
                if len(r) <= 4:
                    return [const(i) for i in r]
            if fn == "enumerate" and len(args) == 1:
                sub = self.iter_known(args[0], st)
                if sub is not None:
                    return [mk("tuple", (const(i), x)) for i, x in enumerate(sub)]
            if fn == "zip":
                subs = [self.iter_known(a, st) for a in args]
                if subs and all(x is not None for x in subs):
                    return [mk("tuple", tuple(x)) for x in zip(*subs)]
            if fn in ("list", "tuple", "sorted") and args:
                return self.iter_known(args[0], st)
        if it.k == "obj":
            org = self.origin.get(it.a[0])
        return None

    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        known = self.iter_known(it, st)
        if known is not None and not s.orelse:
            broken = []
            cur = st
            for x in known:
                fr.loops.append(dict(breaks=broken, conts=[]))
                self.assign(s.target, x, cur, fr, s)
                base_ctx = cur.ctx
                cur = self.block(s.body, cur, fr)
                lp = fr.loops.pop()
                for c in lp["conts"]:
                    cur = self.join(cur, c)
                if cur is None:
                    break
            for b in broken:
                cur = self.join(cur, b)
            return cur
        lid = self.new_loop(it, fr, s, "for")
        e = self.elem(it, lid, st)
        body_end, breaks, pre = self.run_loop(lid, s.body, st, fr, target=(s.target, e), node=s)
        return self.finish_loop(lid, pre, body_end, breaks, s.orelse, fr, self.definitely_nonempty(it, pre))

    def s_While(self, s, st, fr):
        lid = self.new_loop(NONE, fr, s, "while")
        body_end, breaks, pre = self.run_loop(lid, s.body, st, fr, test=s.test, node=s)
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        return self.finish_loop(lid, pre, body_end, breaks, s.orelse, fr, False, forever)

    def run_loop(self, lid, body, st, fr, target=None, test=None, node=None):
        """One abstract iteration; a second one, from a widened heap, when the first changed the heap it started from."""
        mark = (len(self.events), len(fr.returns), [len(c) for c in self.collectors])
        snap = {k: set(v) for k, v in self.contents.items()}
        res = self.loop_pass(lid, body, st.copy(), fr, target, test, node)
        end, breaks, pre = res
        changed = {}
        for k, v in pre.heap.items():
            vals = []
            for s2 in ([end] if end is not None else []):
                w = s2.heap.get(k)
                if w is not None and w is not v and w != v:
                    vals.append(w)
            if vals:
                changed[k] = vals
        if not changed:
            return res
        del self.events[mark[0]:]
        del fr.returns[mark[1]:]
        for c, n in zip(self.collectors, mark[2]):
            del c[n:]
        for k, v in snap.items():
            self.contents[k] = v
        widened = st.copy()
        for k, vals in changed.items():
            v = pre.heap[k]
            if k[1] == "#items":
                items = set(v[1])
                for w in vals:
                    items |= set(w[1])
                widened.heap[k] = ("elts", tuple(sorted(items, key=lambda x: x.id)))
            elif k[1] == "#fit":
                widened.heap[k] = mk("mu", lid, "%s.%s" % k, v)
            else:
                widened.heap[k] = mk("mu", lid, "%s.%s" % k, v)
        end, breaks, _ = self.loop_pass(lid, body, widened, fr, target, test, node)
        if end is not None:
            for k in changed:
                w = end.heap.get(k)
                if k[1] != "#items" and w is not None:
                    self.mu_update[(lid, "%s.%s" % k)] = w
        return end, breaks, pre

    def loop_pass(self, lid, body, st, fr, target=None, test=None, node=None):
        pre = st.copy()
        inner = st.copy()
        inner.ctx = st.ctx + (("l", lid),)
        self.loopctx[lid] = inner.ctx
        names = fr.func._facts.get(("asg", id(node)))
        if names is None:
            names = assigned_names(body) | (assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))]) if isinstance(node, ast.For) else set()) | (assigned_names([ast.Expr(node.test)]) if isinstance(node, ast.While) else set())
            fr.func._facts[("asg", id(node))] = names
        for n in names:
            if n in inner.env:
                v = inner.env[n]
                if v.k == "obj" and v.a[1] in ("list", "dict", "set", "array"):
                    # mutable accumulator: keep identity unless rebound by something else
                    inner.env[n] = mk("mu", lid, n, v)
                else:
                    inner.env[n] = mk("mu", lid, n, v)
        fr.loops.append(dict(breaks=[], conts=[]))
        end = None
        stops = []
        try:
            dead = False
            try:
                if test is not None:
                    c = self.eval(test, inner, fr)
                    r = self.truth(c)
                    if r is False:
                        dead = True
                    elif r is None:
                        cc, pol = c, True
                        while cc.k == "not":
                            cc, pol = cc.a[0], not pol
                        inner.ctx = inner.ctx + (("g", cc, pol),)
                        stops.append((("g", cc, not pol),))
                if target is not None:
                    self.assign(target[0], target[1], inner, fr, node)
            except Dead:
                dead = True
            if not dead:
                end = self.block(body, inner, fr)
        finally:
            lp = fr.loops.pop()
        for c in lp["conts"]:
            end = self.join(end, c)
        depth = len(self.loopctx[lid])
        for b in lp["breaks"]:
            stops.append(tuple(b.ctx[depth:]))
        self.loopstop[lid] = stops
        return end, lp["breaks"], pre

    def finish_loop(self, lid, pre, end, breaks, orelse, fr, nonempty, forever=False):
        outs = []
        if end is not None:
            outs.append(end)
        allends = outs + breaks
        env = {}
        heap = None
        if not allends:
            if nonempty or forever:
                return None
            return self.block(orelse, pre, fr) if orelse else pre
        joined = None
        for s in allends:
            joined = self.join(joined, s)
        if forever:
            base = None
        else:
            base = pre
        names = set(joined.env) | (set(base.env) if base else set())
        for n in names:
            a = pre.env.get(n)
            b = joined.env.get(n)
            if b is None:
                env[n] = a
            elif a is None:
                env[n] = b if (nonempty or forever) else mk("eta", lid, n, mk("unbound", n), b)
            elif a is b:
                env[n] = a
            elif b.k == "mu" and b.a[0] == lid and b.a[1] == n:
                env[n] = a
            else:
                self.mu_update[(lid, n)] = b
                env[n] = mk("eta", lid, n, a, b)
                if self.absorbing(lid, n, end, breaks):
                    self.eta_plain.add((lid, n))
        heap = {}
        for k in set(pre.heap) | set(joined.heap):
            a, b = pre.heap.get(k), joined.heap.get(k)
            if a is b or a == b:
                heap[k] = a
            elif k[1] == "#items":
                ia = a[1] if a else ()
                ib = b[1] if b else ()
                if a is None:
                    heap[k] = b
                elif b is None:
                    heap[k] = a
                else:
                    heap[k] = ("elts", tuple(sorted(set(ia) | set(ib), key=lambda x: x.id)))
            elif a is None and (k[0] not in self.preheap_ids(pre) or nonempty):
                heap[k] = b
            elif b is None:
                heap[k] = a
            else:
                if a is None:
                    a = mk("fld", mk("objref", k[0]), k[1])
                heap[k] = mk("eta", lid, k[1], a, b) if not nonempty else (b if not _has_mu(b, lid) else mk("eta", lid, k[1], a, b))
        st = State(env, heap, pre.ctx)
        if orelse:
            if end is None and not forever:
                r = self.block(orelse, st.copy(), fr)
                return self.join(st, r) if r else st
            r = self.block(orelse, st.copy(), fr)
            if breaks:
                return self.join(st, r) if r else st
            return r
        return st

    def absorbing(self, lid, n, end, breaks):
        """The value changes only where the loop is left, to one that does not depend on the iteration."""
        if end is not None:
            v = end.env.get(n)
            if v is None or v.k != "mu" or v.a[0] != lid or v.a[1] != n:
                return False
        vs = {s.env.get(n) for s in breaks}
        for v in vs:
            if v is None or any(x.k in ("mu", "idx", "ndidx") and x.a[0] == lid for x in walk(v)):
                if not (v is not None and v.k == "mu" and v.a[0] == lid and v.a[1] == n):
                    return False
        return len(vs) == 1

    def preheap_ids(self, pre):
        return {k[0] for k in pre.heap}

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]["conts"].append(st)
        return None

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("attr", v, "__enter__"), st, fr, s)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        pre = st.copy()
        self.collectors.append([])
        mark = len(self.events)
        try:
            end = self.block(s.body, st, fr)
        finally:
            caught = self.collectors.pop()
        if end is not None and s.orelse:
            end = self.block(s.orelse, end, fr)
        outs = [end]
        exc_cond = mk("exc", f"{fr.module.relpath}:{s.lineno}")
        swallow_all = False
        esc = []
        if s.handlers:
            names = []
            for h in s.handlers:
                if h.type is None:
                    names.append(None)
                else:
                    tv = self.eval(h.type, pre.copy(), fr)
                    items = self.known_items(tv, pre) or (tv,)
                    names.append([x.a[0] if x.k == "ext" else "?" for x in items])
            entries = [[] for _ in s.handlers]
            for (nm, heap, ctx) in caught:
                hit = False
                for i, ns in enumerate(names):
                    if ns is None or "Exception" in ns or "BaseException" in ns or nm in ns or nm == "*":
                        entries[i].append((nm, heap, ctx))
                        hit = nm != "*" or ns is None or "Exception" in ns or "BaseException" in ns
                        if hit:
                            break
                if not hit:
                    esc.append((nm, heap, ctx))
            for e in self.events[mark:]:
                if e.kind == "raise" and not e.handled:
                    for ns in names:
                        if ns is None or "Exception" in ns or "BaseException" in ns or e.d["exc"] in ns:
                            e.handled = True
            for h, ent in zip(s.handlers, entries):
                hs = pre.copy()
                hs.ctx = pre.ctx + (("g", exc_cond, True),)
                # assigned names in the body are indeterminate
                for n in assigned_names(s.body):
                    endv = end.env.get(n) if end is not None else None
                    if n in hs.env and endv is not None and endv is not hs.env[n]:
                        hs.env[n] = self.sel(None, None, hs.env[n], endv)
                for nm, heap, ctx in ent:
                    hs.heap = self.join_heap(hs.heap, heap, None, None)
                if h.name:
                    hs.env[h.name] = mk("excval", exc_cond)
                outs.append(self.block(h.body, hs, fr))
        else:
            esc = caught
        if s.finalbody:
            # exceptional exits run the finally block too
            if esc:
                fs = pre.copy()
                heap = None
                for nm, h, ctx in esc:
                    heap = h if heap is None else self.join_heap(heap, h, None, None)
                fs.heap = dict(heap)
                rec, self.record = self.record, False
                try:
                    fe = self.block(s.finalbody, fs, fr)
                finally:
                    self.record = rec
                esc = [("*", fe.heap, fe.ctx)] if fe is not None else []
            # early returns inside the body run it as well
            for i, (rs, rv, rn) in enumerate(fr.returns):
                if s.lineno <= getattr(rn, "lineno", 0) <= (s.end_lineno or 0):
                    rec, self.record = self.record, False
                    try:
                        rs2 = self.block(s.finalbody, rs.copy(), fr)
                    finally:
                        self.record = rec
                    if rs2 is not None:
                        fr.returns[i] = (rs2, rv, rn)
        if self.collectors:
            self.collectors[-1].extend(esc)
        res = None
        for i, o in enumerate(outs):
            if o is None:
                continue
            if i == 0 and len(outs) > 1:
                o = State(o.env, o.heap, pre.ctx + (("g", exc_cond, False),) + o.ctx[len(pre.ctx):])
            res = self.join(res, o)
        if s.finalbody and res is not None:
            res = self.block(s.finalbody, res, fr)
        return res

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.emit("gwrite", st, fr, node, name=t.id, value=v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.known_items(v, st)
            n = len(t.elts)
            starred = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None and len(items) == n and not starred:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, st, fr, node)
            elif starred:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, mk("sub", v, mk("slice", const(i), NONE, NONE)), st, fr, node)
                    else:
                        self.assign(e, self.mksub(v, const(i if not starred or i < starred[0] else i - n), st), st, fr, node)
            else:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.mksub(v, const(i), st), st, fr, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr)
            idx = self.eval(t.slice, st, fr)
            self.store_sub(base, idx, v, st, fr, node)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, fr)
            self.setattr(base, t.attr, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def strip_mu(self, t):
        while t.k in ("mu",):
            t = t.a[2]
        if t.k == "eta":
            a, b = self.strip_mu(t.a[2]), self.strip_mu(t.a[3])
            if a is b:
                return a
        if t.k == "sel":
            a, b = self.strip_mu(t.a[1]), self.strip_mu(t.a[2])
            if a is b:
                return a
        return t

    def loop_value(self, t):
        """A value rebound by the loop being analysed keeps its loop-carried form; objects with methods do not."""
        b = self.strip_mu(t)
        if t.k == "mu" and (b.k in ("param", "call", "bin", "sub", "attr", "meth", "tuple", "sel", "fld", "eta", "const", "aval") or b.k == "obj" and b.a[1] in ("list", "dict", "set", "array")):
            return t
        return b

    def store_sub(self, base, idx, v, st, fr, node, aug=None, rhs=None):
        b = self.strip_mu(base)
        self.emit("store", st, fr, node, base=b, index=idx, value=v, aug=aug, rhs=rhs if rhs is not None else v)
        if b.k == "obj":
            oid = b.a[0]
            self.contents[oid].add(v)
            if idx.k == "const" and isinstance(idx.a[0], str):
                st.heap[(oid, "#k:" + idx.a[0])] = v
            elif b.a[1] == "dict" and idx.k != "const":
                self.weak_keys(oid, v, st)
            it = st.heap.get((oid, "#items"))
            if it:
                if it[0] == "known" and idx.k == "const" and isinstance(idx.a[0], int) and -len(it[1]) <= idx.a[0] < len(it[1]):
                    l = list(it[1])
                    l[idx.a[0]] = v
                    st.heap[(oid, "#items")] = ("known", tuple(l))
                else:
                    st.heap[(oid, "#items")] = ("elts", tuple(sorted(set(it[1]) | {v}, key=lambda x: x.id)))

    def weak_keys(self, oid, v, st):
        """A write under an unknown key may hit any known one."""
        for k in [k for k in st.heap if k[0] == oid and k[1].startswith("#k:")]:
            st.heap[k] = self.sel(None, None, st.heap[k], v)

    def setattr(self, base, name, v, st, fr, node):
        b = self.strip_mu(base)
        self.emit("setattr", st, fr, node, base=b, name=name, value=v)
        if b.k == "obj":
            ic = self.inst_class(b)
            if ic is not None:
                f = self.prog.find_method(ic, name + "@setter")
                if f is not None:
                    self.invoke(f, [v], [], st, fr, node, self_term=b)
                    return
            st.heap[(b.a[0], name)] = v
            self.contents[b.a[0]].add(v)

    # ---------------------------------------------------------------- attributes / subscripts
    def getattr(self, base, name, st, fr, node, call=False):
        b = self.loop_value(base)
        if b.k == "mu":
            return mk("attr", b, name)
        if b.k == "mod":
            m = self.prog.modules[b.a[0]]
            r = self.prog.lookup(m, name)
            if r is not None:
                return self.from_resolved(r, name)
            sub = b.a[0] + "." + name
            if sub in self.prog.modules:
                return mk("mod", sub)
            return mk("ext", sub)
        if b.k == "ext":
            return mk("ext", b.a[0] + "." + name)
        if b.k == "super":
            ic = self.inst_class(b.a[0])
            own = [c for m in self.prog.modules.values() for c in m.classes.values() if c.name == b.a[1]]
            if ic is not None:
                f = self.prog.find_method(ic, name, after=own[0] if own else None)
                if f is not None:
                    if f.is_property:
                        return self.invoke(f, [], [], st, fr, node, self_term=b.a[0])[1]
                    return mk("bound", b.a[0], self.func_term(f))
            return mk("ext", "super." + name)
        if b.k == "cls":
            c = self.get_class(b)
            if c is not None:
                f = self.prog.find_method(c, name)
                if f is not None:
                    return self.func_term(f)
                ca = self.prog.find_class_attr(c, name)
                if ca is not None:
                    return self.from_resolved(("expr", ca[0].module, ca[1]), name)
                if name == "__name__":
                    return const(c.name)
            return mk("attr", b, name)
        if b.k == "obj":
            key = (b.a[0], name)
            if key in st.heap:
                v = self.refine(st.heap[key], st.ctx)
                self.emit("fread", st, fr, node, base=b, name=name, value=v, initial=False)
                return v
            if b.a[1].startswith("xinst:"):
                fit = st.heap.get((b.a[0], "#fit"))
                return mk("attr", fit if fit is not None else b, name)
            ic = self.inst_class(b)
            if ic is not None:
                f = self.prog.find_method(ic, name)
                if f is not None:
                    if f.is_property:
                        if f in self.active and self.active.count(f) > 2:
                            return mk("fld", b, name)
                        return self.invoke(f, [], [], st, fr, node, self_term=b)[1]
                    return mk("bound", b, self.func_term(f))
                ca = self.prog.find_class_attr(ic, name)
                if ca is not None:
                    v = self.from_resolved(("expr", ca[0].module, ca[1]), name)
                    return v
                self.emit("fread", st, fr, node, base=b, name=name, value=None, initial=True)
                return mk("fld", b, name)
            if name == "shape":
                org = self.origin.get(b.a[0])
                if org is not None and org.k == "call" and org.a[0] in ("numpy.zeros", "numpy.ones", "numpy.empty") and org.a[1] and org.a[1][0].k == "tuple":
                    return org.a[1][0]
            if name in ("shape", "ndim") and b.a[1] == "array":
                x = self.shape_of(b)
                if x is not None:
                    return x if name == "shape" else const(len(x.a[0]))
            return mk("attr", b, name)
        if b.k == "sel" and not call:
            leaves = [self.strip_mu(x) for x in b.a[1:]]
            if any(l.k == "obj" for l in leaves):
                vals = []
                for l in leaves:
                    vals.append(self.getattr(l, name, st, fr, node))
                return self.sel(b.a[0], True, vals[0], vals[1])
        if b.k == "aval":
            d = dict(b.a[1])
            if name == "shape" and "shape" in d:
                return d["shape"]
            if name == "ndim" and "shape" in d:
                return const(len(d["shape"].a[0]))
            if name == "T":
                return mk("attr", b, "T")
        if name in ("shape", "ndim"):
            x = self.shape_of(b)
            if x is not None:
                return x if name == "shape" else const(len(x.a[0]))
        return mk("attr", b, name)

    SHAPE_KEEP = {"check_array", "asarray", "array", "as_float_array", "nan_to_num", "abs", "copy", "isnan", "isclose", "astype",
                  "asanyarray", "scale", "deepcopy", "sign", "sqrt", "exp", "flatten", "ravel"}

    def shape_of(self, t, depth=0):
        """Shape tuple of an array value when the abstract input fixes it."""
        t = self.strip_mu(t)
        if depth > 12:
            return None
        if t.k == "aval":
            return dict(t.a[1]).get("shape")
        if t.k == "call" and t.a[1]:
            fn = t.a[0].split(".")[-1]
            if fn in ("flatten", "ravel"):
                r = self.shape_of(t.a[1][0], depth + 1)
                return r if r is not None and len(r.a[0]) == 1 else None
            if fn in self.SHAPE_KEEP:
                return self.shape_of(t.a[1][0], depth + 1)
            if fn == "where" and len(t.a[1]) == 3:
                for x in (t.a[1][2], t.a[1][1]):
                    r = self.shape_of(x, depth + 1)
                    if r is not None:
                        return r
        if t.k == "meth" and t.a[1] in ("flatten", "ravel"):
            r = self.shape_of(t.a[0], depth + 1)
            return r if r is not None and len(r.a[0]) == 1 else None
        if t.k == "meth" and t.a[1] in ("astype", "copy"):
            return self.shape_of(t.a[0], depth + 1)
        if t.k == "obj" and t.a[1] == "array":
            org = self.origin.get(t.a[0])
            if org is not None and org is not t:
                return self.shape_of(org, depth + 1)
        if t.k == "sel":
            a, b = self.shape_of(t.a[1], depth + 1), self.shape_of(t.a[2], depth + 1)
            return a if a is b else None
        if t.k == "attr" and t.a[1] == "T":
            a = self.shape_of(t.a[0], depth + 1)
            return mk("tuple", tuple(reversed(a.a[0]))) if a is not None else None
        return None

    def mksub(self, base, idx, st):
        b = self.loop_value(base)
        if b.k == "mu":
            return mk("sub", b, idx)
        if b.k == "tuple":
            if idx.k == "const" and isinstance(idx.a[0], int) and -len(b.a[0]) <= idx.a[0] < len(b.a[0]):
                return b.a[0][idx.a[0]]
            if idx.k == "slice" and all(x.k == "const" for x in idx.a):
                return mk("tuple", tuple(b.a[0][slice(*[x.a[0] for x in idx.a])]))
        if b.k == "attr" and b.a[1] == "shape" and is_const(idx, 0):
            return mk("len", b.a[0])
        if b.k == "obj":
            if idx.k == "const" and isinstance(idx.a[0], str):
                v = st.heap.get((b.a[0], "#k:" + idx.a[0]))
                if v is not None:
                    return v
            it = st.heap.get((b.a[0], "#items"))
            if it and it[0] == "known" and idx.k == "const" and isinstance(idx.a[0], int) and -len(it[1]) <= idx.a[0] < len(it[1]):
                return it[1][idx.a[0]]
        if b.k == "sel" and idx.k == "const":
            l, r = self.strip_mu(b.a[1]), self.strip_mu(b.a[2])
            if l.k == "tuple" or r.k == "tuple":
                return self.sel(b.a[0], True, self.mksub(l, idx, st), self.mksub(r, idx, st))
        if b.k == "ext" and b.a[0] in ("numpy.c_", "numpy.r_", "numpy.ix_", "numpy.s_"):
            return mk("call", b.a[0], idx.a[0] if idx.k == "tuple" else (idx,), ())
        if b.k == "aval":
            d = dict(b.a[1])
            if "items" in d and (idx.k == "const" and isinstance(idx.a[0], int) or idx.k == "slice"):
                return self.mksub(d["items"], idx, st)
            if idx.k == "const" and "elem" in d:
                return d["elem"]
            if idx.k == "idx" and "elem" in d:
                return d["elem"]
            if idx.k == "const" and isinstance(idx.a[0], str):
                kv = d.get("#" + idx.a[0])
                if kv is not None:
                    return kv
        # X[:, P][:, j] is left alone; full slices are normalised away
        if idx.k == "slice" and all(is_const(x, None) for x in idx.a) and b.k not in ("obj",):
            return mk("sub", b, idx)
        return mk("sub", b, idx)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("unknown", type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value) if not isinstance(e.value, (bytes, complex)) and e.value is not Ellipsis else mk("unknown", repr(e.value))

    def e_Name(self, e, st, fr):
        return self.lookup_name(e.id, st, fr, e)

    def e_Tuple(self, e, st, fr):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                items = self.known_items(v, st)
                if items is not None:
                    vals.extend(items)
                else:
                    vals.append(mk("star", v))
            else:
                vals.append(self.eval(x, st, fr))
        return mk("tuple", tuple(vals))

    def e_List(self, e, st, fr):
        vals, partial = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                items = self.known_items(v, st)
                if items is not None:
                    vals.extend(items)
                else:
                    partial = True
                    vals.append(mk("elemof", v))
            else:
                vals.append(self.eval(x, st, fr))
        o = self.alloc("list", st, fr, e, origin=mk("display", "list", tuple(vals)), items=None if partial else vals)
        if partial:
            st.heap[(o.a[0], "#items")] = ("elts", tuple(vals))
            self.contents[o.a[0]].update(vals)
        return o

    def e_Set(self, e, st, fr):
        vals = [self.eval(x.value if isinstance(x, ast.Starred) else x, st, fr) for x in e.elts]
        return self.alloc("set", st, fr, e, origin=mk("display", "set", tuple(vals)), items=vals)

    def e_Dict(self, e, st, fr):
        o = self.alloc("dict", st, fr, e)
        vals = []
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, fr)
            if k is None:
                if vv.k == "obj":
                    for (oid, fld), val in list(st.heap.items()):
                        if oid == vv.a[0] and isinstance(fld, str) and fld.startswith("#k:"):
                            st.heap[(o.a[0], fld)] = val
                self.contents[o.a[0]].add(mk("elemof", vv))
                vals.append(vv)
                continue
            kk = self.eval(k, st, fr)
            if kk.k == "const":
                st.heap[(o.a[0], "#k:" + str(kk.a[0]))] = vv
            self.contents[o.a[0]].add(vv)
            vals += [kk, vv]
        self.origin[o.a[0]] = mk("display", "dict", tuple(vals))
        return o

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.eval(x.value, st, fr)
                spec = ast.unparse(x.format_spec) if x.format_spec is not None else ""
                parts.append(mk("fmt", v, spec))
            else:
                parts.append(self.eval(x, st, fr))
        return mk("fstr", tuple(parts))

    def e_Attribute(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        return self.getattr(b, e.attr, st, fr, e)

    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        i = self.eval(e.slice, st, fr)
        r = self.mksub(b, i, st)
        self.emit("load", st, fr, e, base=b, index=i, value=r)
        return r

    def e_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.eval(x, st, fr)
        lo, hi, step = f(e.lower), f(e.upper), f(e.step)
        if is_const(lo, 0) and (step is NONE or is_const(step, 1)):
            lo = NONE
        if is_const(step, 1):
            step = NONE
        return mk("slice", lo, hi, step)

    def e_Index(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return mk("star", self.eval(e.value, st, fr))

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        op = type(e.op).__name__
        if op == "Add":
            la, lb = self.strip_mu(a), self.strip_mu(b)
            if la.k == "obj" and la.a[1] == "list" or lb.k == "obj" and lb.a[1] == "list":
                o = self.alloc("list", st, fr, e, origin=mk("bin", "Add", a, b))
                ia = self.known_items(la, st)
                ib = self.known_items(lb, st)
                if ia is not None and ib is not None:
                    st.heap[(o.a[0], "#items")] = ("known", tuple(ia) + tuple(ib))
                    self.contents[o.a[0]].update(ia + ib)
                else:
                    self.contents[o.a[0]].update([mk("elemof", a), mk("elemof", b)])
                return o
        self.emit("binop", st, fr, e, op=op, left=a, right=b)
        return self.mkbin(op, a, b)

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        op = type(e.op).__name__
        if op == "Not":
            return self.mknot(v)
        if op == "USub" and v.k == "const" and isinstance(v.a[0], (int, float)):
            return const(-v.a[0])
        if op == "Invert" and v.k in ("cmp", "not", "bool"):
            return self.mknot(v)
        return mk("un", op, v)

    def e_Compare(self, e, st, fr):
        ops = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne", "Is": "is",
               "IsNot": "isnot", "In": "in", "NotIn": "notin"}
        left = self.eval(e.left, st, fr)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            o = ops[type(op).__name__]
            rr = right
            if o in ("in", "notin"):
                b = self.strip_mu(right)
                items = self.known_items(b, st)
                if items is not None and b.k == "obj":
                    rr = mk("frozenitems", tuple(items))
                elif b.k == "obj" and left.k == "const" and isinstance(left.a[0], str) and b.a[1] == "dict" and (b.a[0], "#k:" + left.a[0]) in st.heap:
                    parts.append(TRUE if o == "in" else FALSE)
                    left = right
                    continue
                elif b.k == "meth" and b.a[1] == "keys":
                    rr = b.a[0]
            if o in ("eq", "ne"):
                lb, bb = self.strip_mu(left), self.strip_mu(right)
                il, ib = self.known_items(lb, st), self.known_items(bb, st)
                if il is not None and lb.k == "obj":
                    left = mk("tuple", tuple(il)) if ib is not None else left
                if ib is not None and bb.k == "obj":
                    rr = mk("tuple", tuple(ib)) if il is not None else rr
            t = self.mkcmp(o, left, rr)
            self.emit("compare", st, fr, e, op=o, left=left, right=rr, value=t)
            parts.append(t)
            left = right
        if len(parts) == 1:
            return parts[0]
        return self.mkbool("and", parts)

    def mkbool(self, op, parts):
        flat = []
        for p in parts:
            if p.k == "bool" and p.a[0] == op:
                flat.extend(p.a[1])
            else:
                flat.append(p)
        out = []
        for p in flat:
            r = self.truth(p) if p.k in ("const",) else None
            if op == "and":
                if r is False:
                    return FALSE if not out else mk("bool", op, tuple(out + [FALSE]))
                if r is True and len(flat) > 1:
                    continue
            else:
                if r is True:
                    return TRUE if not out else mk("bool", op, tuple(out + [TRUE]))
                if r is False and len(flat) > 1:
                    continue
            out.append(p)
        if not out:
            return TRUE if op == "and" else FALSE
        if len(out) == 1:
            return out[0]
        return mk("bool", op, tuple(out))

    def e_BoolOp(self, e, st, fr):
        op = "and" if isinstance(e.op, ast.And) else "or"
        vals = []
        ctx0 = st.ctx
        cur = st
        for i, x in enumerate(e.values):
            if i == 0:
                v = self.eval(x, st, fr)
            else:
                s2 = st.copy()
                prev = vals[-1]
                cc, pol = prev, op == "and"
                while cc.k == "not":
                    cc, pol = cc.a[0], not pol
                s2.ctx = st.ctx + (("g", cc, pol),)
                st_ctx = s2.ctx
                try:
                    v = self.eval(x, s2, fr)
                except Dead:
                    # evaluating the remaining operands always raises
                    if self.truth(prev) is None:
                        st.ctx = ctx0 + (("g", cc, not pol),)
                        return const(op == "or")
                    raise
                st.heap = self.join_heap(s2.heap, st.heap, None, None) if s2.heap != st.heap else st.heap
                st.ctx = ctx0
            vals.append(v)
            r = self.assume_known(v, st.ctx)
            if r is False and op == "and" or r is True and op == "or":
                break
        # value semantics: keep as boolean connective
        if op == "or" and len(vals) == 2 and vals[0].k not in ("cmp", "not", "bool", "const", "call", "meth"):
            return mk("sel", vals[0], vals[0], vals[1]) if self.truth(vals[0]) is None else (vals[0] if self.truth(vals[0]) else vals[1])
        return self.mkbool(op, vals)

    def e_IfExp(self, e, st, fr):
        c = self.eval(e.test, st, fr)
        return self.either(c, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr), st)

    def either(self, c, body, orelse, st):
        """The value of one of two evaluations, chosen by c."""
        r = self.assume_known(c, st.ctx)
        if r is True:
            return body(st)
        if r is False:
            return orelse(st)
        cc, pol = c, True
        while cc.k == "not":
            cc, pol = cc.a[0], not pol
        s1, s2 = st.copy(), st.copy()
        s1.ctx = st.ctx + (("g", cc, pol),)
        s2.ctx = st.ctx + (("g", cc, not pol),)
        v1 = v2 = None
        try:
            v1 = body(s1)
        except Dead:
            pass
        try:
            v2 = orelse(s2)
        except Dead:
            pass
        if v1 is None and v2 is None:
            raise Dead()
        if v1 is None or v2 is None:
            s = s2 if v1 is None else s1
            st.heap, st.ctx = s.heap, s.ctx
            return v2 if v1 is None else v1
        if s1.heap != s2.heap:
            st.heap = self.join_heap(s1.heap, s2.heap, cc, pol)
        else:
            st.heap = s1.heap
        return self.sel(cc, pol, v1, v2)

    def e_Lambda(self, e, st, fr):
        f = fr.func._facts.get(("lam", id(e)))
        if f is None:
            f = Func(e, fr.module, None, fr.func)
            fr.func._facts[("lam", id(e))] = f
        return self.func_term(f, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def comp(self, e, st, fr, kind):
        saved = dict(st.env)
        ctx0 = st.ctx
        o = self.alloc(kind, st, fr, e)
        oid = o.a[0]
        vals = []
        lids = []

        def rec(i, s):
            if i == len(e.generators):
                if kind == "dict":
                    kk = self.eval(e.key, s, fr)
                    vv = self.eval(e.value, s, fr)
                    v = mk("tuple", (kk, vv))
                else:
                    v = self.eval(e.elt, s, fr)
                vals.append(v)
                self.emit("append", s, fr, e, base=o, value=v, comp=True)
                return
            g = e.generators[i]
            it = self.eval(g.iter, s, fr)
            known = self.iter_known(it, s)
            if known is not None:
                for x in known:
                    c0 = s.ctx
                    self.assign(g.target, x, s, fr, e)
                    if self.comp_ifs(g, s, fr):
                        rec(i + 1, s)
                    s.ctx = c0
                lids.append(None)
                return
            lid = self.new_loop(it, fr, e, "comp")
            lids.append(lid)
            s.ctx = s.ctx + (("l", lid),)
            self.assign(g.target, self.elem(it, lid, s), s, fr, e)
            if self.comp_ifs(g, s, fr):
                rec(i + 1, s)
        try:
            rec(0, st)
        except Dead:
            if not any(x for x in lids):
                st.env = saved
                st.ctx = ctx0
                raise
        walrus = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        new = {n: st.env[n] for n in walrus if n in st.env}
        st.env = saved
        st.env.update(new)
        st.ctx = ctx0
        self.contents[oid].update(vals)
        known_all = all(l is None for l in lids) and lids and not any(g.ifs for g in e.generators)
        if known_all and kind == "list":
            st.heap[(oid, "#items")] = ("known", tuple(vals))
        else:
            st.heap[(oid, "#items")] = ("elts", tuple(sorted(set(vals), key=lambda x: x.id)))
        self.origin[oid] = mk("comp", kind, tuple(vals), tuple(l or 0 for l in lids))
        return o

    def comp_ifs(self, g, s, fr):
        for c in g.ifs:
            v = self.eval(c, s, fr)
            r = self.assume_known(v, s.ctx)
            if r is False:
                return False
            if r is None:
                cc, pol = v, True
                while cc.k == "not":
                    cc, pol = cc.a[0], not pol
                s.ctx = s.ctx + (("g", cc, pol),)
        return True

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f = fr
            while f.cls is None and f.closure is not None:
                f = f.closure
            return mk("super", f.self_term or mk("unknown", "self"), f.cls.name if f.cls else "?")
        is_meth = isinstance(e.func, ast.Attribute)
        if is_meth:
            base = self.eval(e.func.value, st, fr)
            fn = None
        else:
            base = None
            fn = self.eval(e.func, st, fr)
        pos = [self.eval(a, st, fr) for a in e.args]
        kws = [(k.arg, self.eval(k.value, st, fr)) for k in e.keywords]
        self.callsites += 1
        if is_meth:
            return self.call_method(base, e.func.attr, pos, kws, st, fr, e)
        return self.call_term(fn, pos, kws, st, fr, e)

    def call_method(self, base, name, pos, kws, st, fr, node):
        b = self.strip_mu(base)
        if b.k in ("mod", "ext", "super", "cls"):
            f = self.getattr(b, name, st, fr, node)
            return self.call_term(f, pos, kws, st, fr, node)
        ic = self.inst_class(b)
        if ic is not None:
            key = (b.a[0], name)
            if key in st.heap:
                return self.call_term(st.heap[key], pos, kws, st, fr, node)
            f = self.prog.find_method(ic, name)
            if f is not None:
                if f.is_property:
                    v = self.invoke(f, [], [], st, fr, node, self_term=b)[1]
                    return self.call_term(v, pos, kws, st, fr, node)
                if f.is_static:
                    return self.call_func(f, None, pos, kws, st, fr, node, None)
                return self.call_func(f, None, pos, kws, st, fr, node, b)
            self.emit("fread", st, fr, node, base=b, name=name, value=None, initial=True)
        if b.k in ("sel", "phi", "eta"):
            leaves = self.leaves(b)
            if any(self.inst_class(l) is not None for l in leaves) and len(leaves) <= 4:
                return self.dispatch_leaves(b, leaves, name, pos, kws, st, fr, node)
        if b.k == "sub" and b.a[0].k == "obj":
            cont = [c for c in self.contents.get(b.a[0].a[0], ()) if self.inst_class(c) is not None]
            if len(cont) == 1:
                return self.call_method(cont[0], name, pos, kws, st, fr, node)
        if b.k == "obj" and b.a[1] in ("list", "dict", "set", "array"):
            return self.container_method(b, name, pos, kws, st, fr, node)
        if b.k == "obj" and b.a[1].startswith("xinst:"):
            return self.xinst_method(b, name, pos, kws, st, fr, node)
        if b.k == "aval":
            r = self.aval_method(b, name, pos, kws, st)
            if r is not None:
                return r
        return self.opaque_method(base, name, pos, kws, st, fr, node)

    def xinst_method(self, b, name, pos, kws, st, fr, node):
        """Objects of external classes: fit-like methods define the state later reads see."""
        self.maybe_closures(pos, kws, st, fr, node)
        kwt = tuple((k or "**", v) for k, v in kws)
        cur = st.heap.get((b.a[0], "#fit"), self.origin[b.a[0]])
        if name in ("fit", "partial_fit", "fit_transform", "fit_predict", "set_params"):
            new = mk("meth", self.origin[b.a[0]] if name.startswith("fit") else cur, name, tuple(pos), kwt)
            st.heap[(b.a[0], "#fit")] = new
            self.emit("ecall", st, fr, node, fn="." + name, base=b, args=tuple(pos), kw=dict(kwt), value=new)
            self.note_mayraise(st)
            return b if name in ("fit", "partial_fit", "set_params") and not b.a[1].startswith("xinst:statsmodels.") else new
        t = mk("meth", cur, name, tuple(pos), kwt)
        if name in MUTATORS:
            self.emit("mutcall", st, fr, node, base=b, name=name, args=tuple(pos))
        self.emit("ecall", st, fr, node, fn="." + name, base=b, args=tuple(pos), kw=dict(kwt), value=t)
        self.note_mayraise(st)
        return t

    def aval_method(self, b, name, pos, kws, st):
        d = dict(b.a[1])
        if name == "keys":
            return b
        if name == "get" and pos and pos[0].k == "const":
            return d.get("#" + str(pos[0].a[0]))
        return None

    def leaves(self, t, seen=None):
        t = self.strip_mu(t)
        seen = set() if seen is None else seen
        if t in seen:
            return []
        seen.add(t)
        if t.k == "sel":
            return self.leaves(t.a[1], seen) + self.leaves(t.a[2], seen)
        if t.k == "phi":
            return [l for x in t.a[0] for l in self.leaves(x, seen)]
        if t.k == "eta":
            return self.leaves(t.a[2], seen) + self.leaves(t.a[3], seen)
        return [t]

    def dispatch_leaves(self, b, leaves, name, pos, kws, st, fr, node):
        res = None
        val = None
        ctx0 = st.ctx
        for l in leaves:
            s = st.copy()
            if b.k == "sel" and self.strip_mu(b.a[1]) is l:
                s.ctx = ctx0 + (("g", b.a[0], True),)
            elif b.k == "sel" and self.strip_mu(b.a[2]) is l:
                s.ctx = ctx0 + (("g", b.a[0], False),)
            try:
                v = self.call_method(l, name, pos, kws, s, fr, node)
            except Dead:
                continue
            if res is None:
                res, val = s, v
            else:
                pre, cond, pol = self.diff_cond(res.ctx, s.ctx)
                val = self.sel(cond, pol, val, v)
                res = self.join(res, s)
        if res is None:
            raise Dead()
        st.heap = res.heap
        st.ctx = ctx0
        return val

    def container_method(self, b, name, pos, kws, st, fr, node):
        oid = b.a[0]
        kind = b.a[1]
        it = st.heap.get((oid, "#items"))
        if kind == "array" and name in NPMETH:
            return self.opaque_method(b, name, pos, kws, st, fr, node)
        if name == "append" and pos:
            v = pos[0]
            self.emit("append", st, fr, node, base=b, value=v, comp=False)
            self.mutate_list(b, name, tuple(pos), st)
            self.emit("mutcall", st, fr, node, base=b, name=name, args=tuple(pos))
            return NONE
        if name in MUTATORS:
            self.emit("mutcall", st, fr, node, base=b, name=name, args=tuple(pos))
            if name in ("extend", "update", "add", "insert"):
                for v in pos:
                    self.emit("append", st, fr, node, base=b, value=v if name in ("add", "insert") else mk("elemof", v), comp=False)
            self.mutate_list(b, name, tuple(pos), st)
            if name == "pop":
                return mk("meth", b, "pop", tuple(pos), ())
            return NONE
        if name == "copy":
            o = self.alloc(kind, st, fr, node, origin=mk("call", "copy.copy", (b,), ()))
            if it:
                st.heap[(o.a[0], "#items")] = it
            self.contents[o.a[0]].update(self.contents.get(oid, ()))
            for (i, f), v in list(st.heap.items()):
                if i == oid and f != "#items":
                    st.heap[(o.a[0], f)] = v
            return o
        if kind == "dict" and name == "get" and pos and pos[0].k == "const":
            v = st.heap.get((oid, "#k:" + str(pos[0].a[0])))
            if v is not None:
                return v
        return self.opaque_method(b, name, pos, kws, st, fr, node)

    def mutate_list(self, b, name, args, st):
        oid = b.a[0]
        it = st.heap.get((oid, "#items"))
        if name == "append":
            self.contents[oid].add(args[0])
            if it and it[0] == "known" and not self.in_deeper_loop(oid, st):
                st.heap[(oid, "#items")] = ("known", it[1] + (args[0],))
            elif it:
                st.heap[(oid, "#items")] = ("elts", tuple(sorted(set(it[1]) | {args[0]}, key=lambda x: x.id)))
            return
        new = set()
        if name in ("extend", "update"):
            new = {mk("elemof", a) for a in args}
        elif name in ("add", "insert", "setdefault"):
            new = set(args)
        if name == "update" and b.a[1] == "dict":
            for a in args:
                a = self.strip_mu(a)
                ks = [k for k in st.heap if a.k == "obj" and k[0] == a.a[0] and k[1].startswith("#k:")]
                if ks:
                    for k in ks:
                        st.heap[(oid, k[1])] = st.heap[k]
                else:
                    self.weak_keys(oid, mk("elemof", a), st)
        elif name in ("clear", "pop", "popitem") and b.a[1] == "dict":
            for k in [k for k in st.heap if k[0] == oid and k[1].startswith("#k:")]:
                del st.heap[k]
        self.contents[oid].update(new)
        if it:
            st.heap[(oid, "#items")] = ("elts", tuple(sorted(set(it[1]) | new, key=lambda x: x.id)))

    def in_deeper_loop(self, oid, st):
        site = self.objsite.get(oid)
        if not site:
            return True
        la = [c for c in site[2] if c[0] == "l"]
        ls = [c for c in st.ctx if c[0] == "l"]
        return len(ls) > len(la) or any(a != b for a, b in zip(la, ls))

    def opaque_method(self, base, name, pos, kws, st, fr, node):
        self.maybe_closures(pos, kws, st, fr, node)
        pos = tuple(pos)
        kws = tuple((k or "**", v) for k, v in kws)
        if name in MUTATORS:
            self.emit("mutcall", st, fr, node, base=base, name=name, args=pos)
        if name in NPMETH:
            return self.call_ext("numpy." + name, [base] + list(pos), list(kws), st, fr, node, meth=True)
        t = mk("meth", base, name, pos, kws)
        self.emit("ecall", st, fr, node, fn="." + name, base=base, args=pos, kw=dict(kws), value=t)
        self.note_mayraise(st)
        return t

    def note_mayraise(self, st):
        if self.watch is not None and self.collectors:
            self.collectors[-1].append(("*", dict(st.heap), st.ctx))

    def maybe_closures(self, pos, kws, st, fr, node):
        """Package functions handed to external code: analyse their bodies with unknown arguments."""
        for v in list(pos) + [v for _, v in kws]:
            if v.k in ("func", "bound"):
                ft = v if v.k == "func" else v.a[1]
                f, frame = self.funcs[ft.a[0]]
                if f in self.active:
                    continue
                names = f.params()
                st_self = None
                if v.k == "bound":
                    st_self = v.a[0]
                    names = names[1:] if not f.is_static else names
                s = st.copy()
                args = [(n, mk("cbarg", f.qual, n)) for n in names]
                try:
                    self.invoke(f, [], args, s, fr, node, self_term=st_self, closure=frame)
                    st.heap = s.heap
                except Dead:
                    pass

    def call_func(self, f, frame, pos, kws, st, fr, node, self_term):
        if f in self.opaque or self.active.count(f) > 0 or (fr.depth > self.max_depth):
            rec = f not in self.opaque and self.active.count(f) > 0
            nm = "lingam:<recursion>" if rec else "lingam:" + f.module.name + "." + f.qual
            args = tuple(([self_term] if self_term is not None and not rec else []) + list(pos))
            if rec and f.cls is None and args and f.params()[:1] == ["self"]:
                args = args[1:]
            t = mk("call", nm, args, tuple((k or "**", v) for k, v in kws))
            self.emit("ecall", st, fr, node, fn=nm, base=None, args=args, kw={(k or "**"): v for k, v in kws}, value=t)
            if f in self.opaque_writes and self_term is not None and self_term.k == "obj":
                for n in self.opaque_writes[f]:
                    st.heap[(self_term.a[0], n)] = mk("post", t, n)
                if any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(f.node)):
                    return self_term
            return t
        self.emit("icall", st, fr, node, fn=f, args=tuple(pos), kw={(k or "**"): v for k, v in kws}, self_term=self_term)
        return self.invoke(f, pos, kws, st, fr, node, self_term=self_term, closure=frame)[1]

    def call_term(self, fn, pos, kws, st, fr, node):
        fn = self.strip_mu(fn)
        if fn.k == "func":
            f, frame = self.funcs[fn.a[0]]
            if f.cls is not None and not f.is_static and pos:
                return self.call_func(f, frame, pos[1:], kws, st, fr, node, pos[0])
            return self.call_func(f, frame, pos, kws, st, fr, node, None)
        if fn.k == "bound":
            f, frame = self.funcs[fn.a[1].a[0]]
            return self.call_func(f, frame, pos, kws, st, fr, node, fn.a[0])
        if fn.k == "cls":
            c = self.get_class(fn)
            if c is not None:
                o = self.alloc("inst:%s:%s" % (c.module.name, c.name), st, fr, node)
                self.origin[o.a[0]] = mk("new", c.name, tuple(pos), tuple((k or "**", v) for k, v in kws))
                self.emit("new", st, fr, node, cls=c, args=tuple(pos), kw={(k or "**"): v for k, v in kws}, value=o)
                init = self.prog.find_method(c, "__init__")
                if init is not None:
                    self.call_func(init, None, pos, kws, st, fr, node, o)
                return o
        if fn.k == "ext":
            return self.call_ext(fn.a[0], pos, kws, st, fr, node)
        if fn.k == "sel" and len(self.leaves(fn)) <= 6 and all(l.k in ("func", "bound", "cls", "ext") for l in self.leaves(fn)):
            return self.either(fn.a[0], lambda s: self.call_term(fn.a[1], pos, kws, s, fr, node), lambda s: self.call_term(fn.a[2], pos, kws, s, fr, node), st)
        if fn.k in ("sel", "phi"):
            leaves = self.leaves(fn)
            if any(l.k in ("func", "bound", "cls") for l in leaves) and len(leaves) <= 6:
                res = val = None
                for l in leaves:
                    s = st.copy()
                    try:
                        v = self.call_term(l, pos, kws, s, fr, node)
                    except Dead:
                        continue
                    if res is None:
                        res, val = s, v
                    else:
                        val = self.sel(None, None, val, v)
                        res = self.join(res, s)
                if res is None:
                    raise Dead()
                st.heap = res.heap
                return val
        self.maybe_closures(pos, kws, st, fr, node)
        t = mk("callv", fn, tuple(pos), tuple((k or "**", v) for k, v in kws))
        self.emit("ecall", st, fr, node, fn="?", base=fn, args=tuple(pos), kw={(k or "**"): v for k, v in kws}, value=t)
        self.note_mayraise(st)
        return t

    def call_ext(self, name, pos, kws, st, fr, node, meth=False):
        kw = {(k or "**"): v for k, v in kws}
        name = CANON.get(name, name)
        n = len(pos)
        if name == "not" and n == 1:
            return self.mknot(pos[0])
        if name == "*mul" and n == 2:
            return self.mkbin("Mult", pos[0], pos[1])
        if name == "isinstance" and n == 2:
            r = self.isinstance_fold(self.strip_mu(pos[0]), pos[1], st)
            t = const(r) if r is not None else mk("call", "isinstance", tuple(pos), ())
            self.emit("isinstance", st, fr, node, args=tuple(pos), value=t)
            return t
        if name == "len" and n == 1:
            return self.mklen(self.loop_value(pos[0]), st)
        if name == "numpy.transpose" and n == 1 and not kw:
            return self.getattr(pos[0], "T", st, fr, node)
        if name in ("warnings.warn",):
            self.emit("warn", st, fr, node, args=tuple(pos), kw=kw)
            return NONE
        if name == "hasattr" and n == 2 and pos[1].k == "const":
            hb = self.strip_mu(pos[0])
            hc = self.inst_class(hb)
            if hb.k == "const":
                return const(hasattr(hb.a[0], pos[1].a[0]))
            if hb.k == "aval" and "attrs" in dict(hb.a[1]):
                return const(any(x.a[0] == pos[1].a[0] for x in dict(hb.a[1])["attrs"].a[0]))
            if hc is not None:
                if (hb.a[0], pos[1].a[0]) in st.heap or self.prog.find_method(hc, pos[1].a[0]) or self.prog.find_class_attr(hc, pos[1].a[0]):
                    return TRUE
                self.emit("fread", st, fr, node, base=hb, name=pos[1].a[0], value=None, initial=True)
        if name == "getattr" and n >= 2 and pos[1].k == "const":
            return self.getattr(pos[0], pos[1].a[0], st, fr, node)
        if name == "setattr" and n == 3:
            if pos[1].k == "const":
                self.setattr(pos[0], pos[1].a[0], pos[2], st, fr, node)
            else:
                self.emit("setattr", st, fr, node, base=self.strip_mu(pos[0]), name="?dynamic", value=pos[2])
            return NONE
        if name == "delattr" and n == 2 and pos[1].k == "const":
            self.setattr(pos[0], pos[1].a[0], mk("deleted"), st, fr, node)
            return NONE
        if name in ("list", "tuple", "set", "dict", "sorted", "frozenset"):
            if n == 0 and not kws:
                if name == "tuple":
                    return mk("tuple", ())
                return self.alloc("list" if name == "sorted" else name, st, fr, node, origin=mk("display", name, ()), items=[])
            self.maybe_closures([], [(k, v) for k, v in kws], st, fr, node)
            if name == "tuple" and n == 1:
                it = self.known_items(self.strip_mu(pos[0]), st)
                if it is not None:
                    return mk("tuple", tuple(it))
            if n >= 1:
                src = self.strip_mu(pos[0])
                it = self.known_items(src, st)
                o = self.alloc({"sorted": "list", "tuple": "list", "frozenset": "set"}.get(name, name), st, fr, node,
                               origin=mk("call", name, tuple(pos), tuple((k or "**", v) for k, v in kws)))
                if it is not None and name in ("list",):
                    st.heap[(o.a[0], "#items")] = ("known", tuple(it))
                    self.contents[o.a[0]].update(it)
                else:
                    self.contents[o.a[0]].add(mk("elemof", src))
                self.emit("ecall", st, fr, node, fn=name, base=None, args=tuple(pos), kw=kw, value=o)
                return o
            if name == "dict":
                o = self.alloc("dict", st, fr, node, origin=mk("call", "dict", (), tuple(kws)))
                for k, v in kws:
                    if k:
                        st.heap[(o.a[0], "#k:" + k)] = v
                        self.contents[o.a[0]].add(v)
                return o
        if name == "map" and n >= 2:
            f = self.strip_mu(pos[0])
            o = self.alloc("list", st, fr, node)
            its = pos[1:]
            known = [self.iter_known(x, st) for x in its]
            if all(k is not None for k in known):
                items = []
                for args in zip(*known):
                    items.append(self.call_term(f, list(args), [], st, fr, node))
                st.heap[(o.a[0], "#items")] = ("known", tuple(items))
                self.contents[o.a[0]].update(items)
                self.origin[o.a[0]] = mk("comp", "list", tuple(items), (0,))
                return o
            lid = self.new_loop(pos[1], fr, node, "comp")
            s = st.copy()
            s.ctx = st.ctx + (("l", lid),)
            try:
                v = self.call_term(f, [self.elem(x, lid, s) for x in its], [], s, fr, node)
                self.emit("append", s, fr, node, base=o, value=v, comp=True)
                self.contents[o.a[0]].add(v)
                self.origin[o.a[0]] = mk("comp", "list", (v,), (lid,))
                st.heap = s.heap
            except Dead:
                pass
            st.heap[(o.a[0], "#items")] = ("elts", tuple(self.contents[o.a[0]]))
            return o
        if name == "filter" and n == 2:
            f = self.strip_mu(pos[0])
            o = self.alloc("list", st, fr, node)
            lid = self.new_loop(pos[1], fr, node, "comp")
            s = st.copy()
            s.ctx = st.ctx + (("l", lid),)
            x = self.elem(pos[1], lid, s)
            c = x if is_const(f, None) else self.call_term(f, [x], [], s, fr, node)
            cc, pol = c, True
            while cc.k == "not":
                cc, pol = cc.a[0], not pol
            s.ctx = s.ctx + (("g", cc, pol),)
            self.emit("append", s, fr, node, base=o, value=x, comp=True)
            self.contents[o.a[0]].add(x)
            self.origin[o.a[0]] = mk("comp", "list", (x,), (lid,))
            st.heap[(o.a[0], "#items")] = ("elts", (x,))
            return o
        if name in ("any", "all") and n == 1:
            items = self.known_items(self.strip_mu(pos[0]), st)
            if items is not None:
                return self.mkbool("or" if name == "any" else "and", list(items))
            v = self.strip_mu(pos[0])
            if v.k == "obj":
                cont = self.contents.get(v.a[0], set())
                if len(cont) == 1:
                    c = next(iter(cont))
                    r = self.truth(c)
                    ne = self.comp_nonempty(v, st)
                    if r is not None:
                        if name == "all" and r is True:
                            return TRUE
                        if name == "any" and r is False:
                            return FALSE
                        if ne:
                            return const(r)
        if name == "functools.partial" and n >= 1:
            return mk("callv_partial", pos[0], tuple(pos[1:]), tuple((k, v) for k, v in kws))
        if name in ("bool",) and n == 1:
            r = self.truth(pos[0])
            return const(r) if r is not None else pos[0]
        if name in ("int", "float") and n == 1 and pos[0].k == "const" and isinstance(pos[0].a[0], (int, float)):
            return const((int if name == "int" else float)(pos[0].a[0]))
        if name.split(".")[-1] == "check_scalar" and n >= 2:
            self.check_scalar(pos, kw, st, fr, node)
            self.emit("ecall", st, fr, node, fn=name, base=None, args=tuple(pos), kw=kw, value=pos[0])
            self.note_mayraise(st)
            return pos[0]
        if name == "type" and n == 1:
            ts = self.typeset(self.strip_mu(pos[0]))
            if ts and len(ts) == 1:
                ty = next(iter(ts))
                m = {"ndarray": "numpy.ndarray", "dataframe": "pandas.DataFrame"}.get(ty, ty)
                ic = self.inst_class(self.strip_mu(pos[0]))
                if ic is not None:
                    return mk("cls", ic.name, ic.module.name)
                if m in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "numpy.ndarray", "pandas.DataFrame"):
                    return mk("ext", m)
        self.maybe_closures(pos, kws, st, fr, node)
        kwt = tuple((k or "**", v) for k, v in kws)
        t = mk("call", name, tuple(pos), kwt)
        if name == "numpy.copy" and n == 1 or name in ALLOC:
            src = self.strip_mu(pos[0]) if pos else None
            if name in ("copy.copy", "copy.deepcopy") and src is not None and src.k == "obj" and src.a[1] in ("list", "dict", "set"):
                o = self.container_method(src, "copy", [], [], st, fr, node)
            else:
                o = self.alloc("array", st, fr, node, origin=t)
            self.emit("ecall", st, fr, node, fn=name, base=None, args=tuple(pos), kw=kw, value=o)
            self.note_mayraise(st)
            return o
        last = name.split(".")[-1]
        if "." in name and last[:1].isupper() and not last.endswith(("Error", "Warning")) and last not in ("DataFrame", "Series"):
            o = self.alloc("xinst:" + name, st, fr, node, origin=t)
            self.emit("ecall", st, fr, node, fn=name, base=None, args=tuple(pos), kw=kw, value=o)
            self.note_mayraise(st)
            return o
        self.emit("ecall", st, fr, node, fn=name, base=None, args=tuple(pos), kw=kw, value=t)
        self.note_mayraise(st)
        return t

    def comp_filtered(self, oid):
        """A comprehension with an if clause (or built under an undecided guard inside its loop)."""
        org = self.origin.get(oid)
        if org is None or org.k != "comp":
            return True
        for e in self.events:
            if e.kind == "append" and e.d["base"].k == "obj" and e.d["base"].a[0] == oid:
                seen = False
                for c in e.ctx:
                    if c[0] == "l" and c[1] in org.a[2]:
                        seen = True
                    elif seen and c[0] == "g":
                        return True
        return False

    def known_list(self, t):
        """Items of a display that is never changed afterwards."""
        if t.k == "tuple":
            return list(t.a[0])
        if t.k == "obj":
            org = self.origin.get(t.a[0])
            if org is not None and org.k == "display" and org.a[0] in ("list", "tuple") and self.contents.get(t.a[0], set()) <= set(org.a[1]):
                return list(org.a[1])
            if org is not None and org.k == "call" and org.a[0] in ("numpy.array", "numpy.asarray", "list", "tuple") and org.a[1]:
                return self.known_list(self.strip_mu(org.a[1][0]))
        return None

    def comp_nonempty(self, v, st):
        org = self.origin.get(v.a[0])
        if org is not None and org.k == "comp" and len(org.a[2]) == 1 and org.a[2][0]:
            it = self.loopinfo[org.a[2][0]]["iter"]
            return self.definitely_nonempty(it, st)
        return False

    def check_scalar(self, pos, kw, st, fr, node):
        """Model of sklearn.utils.check_scalar for abstract inputs."""
        x = self.strip_mu(pos[0])
        ty = pos[2] if len(pos) > 2 else kw.get("target_type")
        if ty is not None:
            r = self.isinstance_fold(x, ty, st)
            if r is False:
                self.emit("raise", st, fr, node, exc="TypeError", value=x)
                self.note_exc(st, "TypeError")
                raise Dead()
        inc = kw.get("include_boundaries", const("both"))
        inc = inc.a[0] if inc.k == "const" else "both"
        mn, mx = kw.get("min_val"), kw.get("max_val")
        if mn is None and len(pos) > 3:
            mn = pos[3]
        if mx is None and len(pos) > 4:
            mx = pos[4]
        bad = False
        unsure = False
        if mn is not None and not is_const(mn, None):
            c = self.mkcmp("lt", x, mn) if inc in ("both", "left") else self.mkcmp("le", x, mn)
            bad = bad or self.truth(c) is True
            if self.truth(c) is None:
                unsure = c
        if mx is not None and not is_const(mx, None):
            c = self.mkcmp("lt", mx, x) if inc in ("both", "right") else self.mkcmp("le", mx, x)
            bad = bad or self.truth(c) is True
            if self.truth(c) is None:
                unsure = c
        if bad:
            self.emit("raise", st, fr, node, exc="ValueError", value=x)
            self.note_exc(st, "ValueError")
            raise Dead()
        if unsure is not False:
            s = State(st.env, st.heap, st.ctx + (("g", unsure, True),))
            self.emit("raise", s, fr, node, exc="ValueError", value=x)
            self.note_exc(st, "ValueError")


def _has_mu(t, lid):
    return any(x.k == "mu" and x.a[0] == lid for x in walk(t))
