"""Where two canonical values differ, and whether each place shows a different computation.

localise() walks both values in parallel and returns the smallest places at which they differ.  judge() decides one place:
it is evidence when the two sides depend on different inputs, when they are different truth functions of the same
conditions, or when one applies an additional operation to the other.  Anything else stays open.
"""
from .terms import T, mk, walk, children, is_const, TRUE, FALSE
from .norm import Norm
from .diff import Diff, place
from .refine import same_domain, moved
from .depend import Deps
from . import strong

MAXCALLS = 40000
MAXPAIRS = 24
# operations that may leave their argument as it is
MILD = {"list", "tuple", "set", "dict", "frozenset", "int", "float", "bool", "str", "iter", "enumerate", "zip", "map", "filter", "sorted", "len", "range",
        "numpy.broadcast_to", "numpy.tile", "numpy.repeat", "numpy.transpose", "numpy.nan_to_num", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.hstack", "numpy.vstack", "numpy.concatenate", "numpy.stack", "numpy.column_stack",
        "numpy.unique", "pandas.Series", "pandas.Index", "sum", "max", "min", "any", "all", "next", "isinstance", "numpy.sort", "numpy.moveaxis", "numpy.swapaxes",
        "numpy.where", "numpy.flatnonzero", "numpy.take", "numpy.array_split", "numpy.require", "numpy.real", "round"}
KINDS = {"call", "meth", "poly", "inv", "bin", "un", "cmp", "bool", "not", "sub", "sel", "app", "seq", "tuple", "arr", "put", "aug", "mutat", "attr", "slice",
         "all", "eta", "mu", "display", "fstr", "xinst", "inst", "len", "range", "lam", "post", "range3", "mut", "ecall", "until", "loopexit", "fold"}


class Local:
    def __init__(self, fields=frozenset()):
        self.memo = {}
        self.size = {}
        self.calls = 0
        self.n = Norm.__new__(Norm)
        self.D = Diff()
        self.D.fields = fields
        self.deps = Deps()
        self.dmemo = {}
        self.wmemo = {}
        self.lmemo = {}
        self.nested = {}

    # ------------------------------------------------------------ places
    def weight(self, t):
        r = self.size.get(t)
        if r is None:
            r = self.size[t] = sum(1 for _ in zip(walk(t), range(400)))
        return r

    ORDER = {"same": 0, "ev": 1, "dep": 2, "unk": 3}

    def verdict(self, a, b):
        """(verdict, ((x, y, why), ...)) for the pair: by its parts if every differing part is decided, else as a whole"""
        if a is b:
            return "same", ()
        r = self.memo.get((a, b))
        if r is not None:
            return r
        self.calls += 1
        if self.calls > MAXCALLS:
            return "unk", ()
        self.memo[(a, b)] = ("unk", ())
        best = None
        for parts in self.parts(a, b):
            v = self.combine(parts)
            if best is None or self.ORDER[v[0]] < self.ORDER[best[0]]:
                best = v
            if v[0] in ("same", "ev"):
                break
        if best is None or best[0] in ("unk", "dep"):
            v, why = self.judge(a, b)
            if v != "unk":
                best = (v, self.nested.get((a, b)) or ((a, b, why),) if v == "ev" else ())
            elif best is None or best[0] != "dep":
                best = ("unk", ())
        elif best[0] == "ev" and self.size_small(a) and strong.same(a, b):
            best = ("same", ())
        if a.k == b.k == "len" and best[0] == "ev" and not all(w.startswith(("an operation", "extra", "missing", "another slice", "a filter")) for _, _, w in best[1]):
            best = ("dep", ())          # different things may have one length
        self.memo[(a, b)] = best
        return best

    def size_small(self, t):
        return self.weight(t) < 120

    def combine(self, parts):
        out, worst = (), "same"
        for x, y in parts:
            v, e = self.verdict(x, y)
            if v == "unk":
                return "unk", ()
            if v == "ev":
                worst = "ev"
                out += tuple(z for z in e if z not in out)
            elif v == "dep" and worst == "same":
                worst = "dep"
        return worst, out[:6]

    def parts(self, a, b):
        """Alternative decompositions of a pair into corresponding parts."""
        if a.k != b.k or a.k not in KINDS:
            return []
        k = a.k
        if k == "slice" and any((x is not y) and "sel" in (x.k, y.k) for x, y in zip(a.a, b.a)):
            return []           # a slice bound may be cut off at the end
        if k == "sel":
            (c1, x1, y1), (c2, x2, y2) = a.a, b.a
            return self.better([(c1, c2), (x1, x2), (y1, y2)], [(c1, self.n.mkneg(c2)), (x1, y2), (y1, x2)])
        if k == "bool":
            return [self.sets(a.a[1], b.a[1])] if a.a[0] == b.a[0] and self.sets(a.a[1], b.a[1]) is not None else []
        if k == "poly":
            p, q = dict(a.a[0]), dict(b.a[0])
            l = [m for m in p if q.get(m) != p[m]]
            r = [m for m in q if p.get(m) != q[m]]
            if len(l) != len(r) or len(l) > 3 or sorted(p[m] for m in l) != sorted(q[m] for m in r):
                return []
            out = []
            for m in l:
                fits = [m2 for m2 in r if q[m2] == p[m]]
                m2 = max(fits, key=lambda z: (len(set(z) & set(m)), -abs(len(z) - len(m)))) if fits else None
                if m2 is None:
                    return []
                r.remove(m2)
                f1, f2 = list(m), list(m2)
                for f in list(f1):
                    if f in f2:
                        f1.remove(f)
                        f2.remove(f)
                if len(f1) != len(f2) or len(f1) > 3:
                    return []
                for f in f1:
                    g = min(f2, key=lambda g: (g.k != f.k, abs(self.weight(g) - self.weight(f)), g.id))
                    if len(f1) > 1 and (f.k != g.k or self.overlap(f, g) < 0.5):
                        return []
                    f2.remove(g)
                    out.append((f, g))
            return [out]
        if k == "fold":
            r = self.sets(a.a[2], b.a[2])
            return [] if r is None or a.a[0] != b.a[0] else [r + [(a.a[1], b.a[1])]]
        if k == "arr":
            r = self.sets(a.a[1], b.a[1])
            return [] if r is None else [r + [(a.a[0], b.a[0])]]
        if k in ("seq", "tuple"):
            r = list(zip(a.a[0], b.a[0])) if len(a.a[0]) == len(b.a[0]) else None
            return [] if r is None else [r]
        if k == "app":
            if len(a.a[0]) != len(b.a[0]) or a.a[3] != b.a[3]:
                return []
            if (a.a[0] != b.a[0] or a.a[1] != b.a[1]) and same_domain(a, b):
                return [[(a.a[2], b.a[2])]]
            if moved(a, b):
                return []
            rest = list(zip(a.a[0], b.a[0])) + [(a.a[2], b.a[2])]
            g = self.sets(a.a[1], b.a[1])
            out = [] if g is None else [g + rest]
            return out + [[(self.conj(a.a[1]), self.conj(b.a[1]))] + rest]
        if k == "cmp" and a.a[0] == b.a[0] and a.a[0] in ("eq", "is"):
            return self.better([(a.a[1], b.a[1]), (a.a[2], b.a[2])], [(a.a[1], b.a[2]), (a.a[2], b.a[1])])
        if k == "sub":
            p = [list(t.a[1].a[0]) if t.a[1].k == "tuple" else [t.a[1]] for t in (a, b)]
            if len(p[0]) != len(p[1]):
                q = [list(x) for x in p]
                while q[0] and q[1] and q[0][-1] is q[1][-1]:
                    q[0].pop()
                    q[1].pop()
                if len(q[0]) < len(p[0]):
                    bs = [self.n.mksub(t.a[0], mk("tuple", tuple(z)) if len(z) > 1 else z[0]) if z else t.a[0] for t, z in zip((a, b), q)]
                    return [[tuple(bs)]]
                return []
            return [[(a.a[0], b.a[0])] + list(zip(*p))]
        # same head, same shape
        out = []

        def rec(x, y):
            if isinstance(x, T) and isinstance(y, T):
                out.append((x, y))
                return True
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(rec(u, v) for u, v in zip(x, y))
            return not isinstance(x, T) and not isinstance(y, T) and x == y
        if len(a.a) != len(b.a) or not all(rec(x, y) for x, y in zip(a.a, b.a)):
            return []
        return [out]

    def better(self, p, q):
        """Two alignments: the one that leaves more parts unchanged, the given order first."""
        same = lambda ps: sum(x is y for x, y in ps)
        near = lambda ps: sum(self.overlap(x, y) for x, y in ps)
        if same(q) > same(p) or same(q) == same(p) and near(q) > near(p) + 0.5:
            return [q]
        return [p]

    def overlap(self, x, y):
        if x is y:
            return 1.0
        u, v = self.within(x), self.within(y)
        r = len(u & v) / max(1, min(len(u), len(v)))
        return r if r >= 0.5 else max(r, self.likeness(x, y) - 0.3)

    def likeness(self, x, y):
        """Share of the operations, of whatever arguments, that the two have in common."""
        u, v = self.labels(x), self.labels(y)
        n = sum(min(c, v.get(l, 0)) for l, c in u.items())
        return n / max(1, sum(u.values()), sum(v.values()))

    def labels(self, t):
        r = self.lmemo.get(t)
        if r is None:
            r = self.lmemo[t] = {}
            for z in self.within(t):
                l = (z.k,) + tuple(q for q in z.a if isinstance(q, str) or isinstance(q, (int, float, bool)) and z.k in ("const", "poly"))
                r[l] = r.get(l, 0) + 1
        return r

    def conj(self, gs):
        gs = tuple(sorted(set(gs), key=lambda x: x.id))
        return TRUE if not gs else gs[0] if len(gs) == 1 else mk("bool", "and", gs)

    def sets(self, xs, ys):
        l, r = [x for x in xs if x not in ys], [y for y in ys if y not in xs]
        if len(l) != len(r) or len(l) > 5:
            return None
        out = []
        for x in list(l):
            if len(l) > 1:
                for y in r:
                    if self.onesize(x, y):
                        l.remove(x)
                        r.remove(y)
                        out.append((x, y))
                        break
        for x in l:
            y = min(r, key=lambda y: (y.k != x.k, place(x) is None or place(x) != place(y), -self.likeness(x, y), -len(self.within(x) & self.within(y)), y.id))
            if len(l) > 1 and (x.k != y.k or self.overlap(x, y) < 0.5):
                return None
            r.remove(y)
            out.append((x, y))
        return out

    def onesize(self, x, y):
        """Both conditions bound the size of one container."""
        if x.k == y.k == "cmp":
            return False
        p, q = self.intset(x), self.intset(y)
        return p is not None and q is not None and (p[0] is q[0] or self.weight(p[0]) > 20 and self.likeness(p[0], q[0]) > 0.8)

    # ------------------------------------------------------------ judgement
    def dep(self, t):
        r = self.dmemo.get(t)
        if r is None:
            r = self.dmemo[t] = self.deps(t)
        return r

    def dimlike(self, t):
        """Only sizes, counters and numbers."""
        for x in walk(t):
            if x.k in ("len", "range", "const", "poly", "ix", "inv", "tuple"):
                continue
            if x.k in ("param", "fld", "sub", "attr"):
                continue
            return False
        return True

    def judge(self, x, y):
        d = self.D.diff(x, y)
        v = self.D.verdict(d)
        if v == "same" or strong.same(x, y):
            return "same", ""
        if v == "ev":
            e = next(z for z in d if z[0] == "ev")
            return "ev", e[3]
        if all(z[0] == "dep" for z in d):
            return "dep", d[0][3]
        w = self.arith(x, y)
        if w is not None:
            return "ev", w
        for p, q in ((x, y), (y, x)):
            if p.k == "call" and p.a[0] in ("min", "max", "sum", "numpy.min", "numpy.max", "numpy.sum") and len(p.a[1]) == 1 and q.k == "sub" and q.a[0] is p.a[1][0] \
                    and q.a[1].k == "const" and q.a[0].k in ("param", "fld"):
                return "ev", "another entry"
            if p.k == "cmp" and p.a[0] == "is" and is_const(p.a[1], None) and q.k == "not" and q.a[0] is p.a[2] and p.a[2].k in ("param", "fld", "sub"):
                return "ev", "empty or zero taken for None" if q is y else "None taken for empty or zero"
        if self.dimlike(x) and self.dimlike(y):
            for p, q in ((x, y), (y, x)):
                if any(z.k == "ix" for z in self.within(p)) and all(z.k in ("len", "const", "poly", "param", "fld", "attr", "sub", "inv") for z in self.within(q)):
                    return "ev", "a loop counter in place of a size"
            return "unk", ""
        if "rec" in (x.k, y.k):
            return "dep", ""            # where unrolling ends; judged one turn earlier
        for p, q in ((x, y), (y, x)):
            if p.k in ("param", "fld") and q.k == "mu" and q.a[1] is p:
                return "ev", "a value the loop changes in place of the original"
        for p, q, w in ((x, y, "an operation is added"), (y, x, "an operation is missing")):
            if q.k == "sub" and q.a[1].k == "slice" and p.k in ("arr", "seq") and q.a[0].k == p.k and p is not q.a[0] and self.cut(q.a[0], q.a[1]):
                v, e = self.verdict(*((p, q.a[0]) if q is y else (q.a[0], p)))
                if v == "ev":
                    self.nested[(x, y)] = e
                    return "ev", w
        (dx, sx, cx), (dy, sy, cy) = self.dep(x), self.dep(y)
        if (cx or cy) and x.k in ("call", "meth", "sub", "attr") and y.k in ("call", "meth", "sub", "attr"):
            both = self.within(x) & self.within(y)
            h = [self.deps(z, both) for z in (x, y)]
            if not h[0][2] and not h[1][2]:
                (dx, sx, cx), (dy, sy, cy) = h
        if dx != dy:
            if dy - dx - sx and not cx:
                return "ev", "depends also on " + ", ".join(f"{k} {n}" for k, n in sorted(dy - dx - sx))
            if dx - dy - sy and not cy:
                return "ev", "does not depend on " + ", ".join(f"{k} {n}" for k, n in sorted(dx - dy - sy))
        for p, q, cq in ((x, y, cy), (y, x, cx)):
            if not self.dep(p)[0] and self.dep(p)[1] and self.dep(q)[0] and not cq and self.heads(q) & {"count_nonzero", "unique", "any", "nonzero", "where"}:
                return "ev", "a number of entries in place of a size" if q is y else "a size in place of a number of entries"
        if self.ordered(x, y):
            return "ev", "another comparison"
        i = self.integers(x, y)
        if i is not None:
            return i
        for p, q in ((x, y), (y, x)):
            if p in (TRUE, FALSE) and q.k == "cmp" and q.a[0] in ("lt", "le", "eq") and not any(z.k == "len" for z in q.a[1:]) and \
                    any(z.k in ("param", "fld", "ix", "mu", "rec") for z in q.a[1:]):
                return "ev", "a condition in place of a constant"
            if self.bounded(p, q):
                return "ev", "the smaller or larger of two values in place of one of them"
        if self.truth(x, y):
            return "ev", "another condition"
        w = self.cases(x, y)
        if w is not None:
            return "ev", w
        nx, ny = self.numbers(x), self.numbers(y)
        if nx != ny and not (cx or cy):
            return "ev", "other constants: " + ", ".join(repr(v) for v in sorted(nx ^ ny)[:3])
        fx, fy = self.heads(x), self.heads(y)
        for p, q in (("intersection", "union"), ("intersect1d", "union1d")):
            if p in fx and p not in fy and q in fy and q not in fx or q in fx and q not in fy and p in fy and p not in fx:
                return "ev", f"{p} and {q} exchanged"
        for p, q, w in ((x, y, "an operation is added"), (y, x, "an operation is missing")):
            if self.inside(p, q) or self.narrowed(p, q):
                return "ev", w
        return "unk", ""

    # ---- arithmetic of sizes, counters and settings
    def arith(self, x, y):
        """Conditions or numbers over the same integer quantities, compared on small values."""
        f, g = self.formula(x), self.formula(y)
        if f is None or g is None or f[1] != g[1]:
            return None
        vs = sorted(f[1], key=lambda z: z.id)
        if not vs or len(vs) > 4 or x.k in ("param", "fld", "ix", "len") and y.k in ("param", "fld", "ix", "len"):
            return None
        import itertools
        for val in itertools.product(range(1, 6), repeat=len(vs)):
            env = dict(zip(vs, val))
            for z in vs:
                if z.k == "ix":
                    env[z] -= 1
            p, q = self.value(x, env), self.value(y, env)
            if p is None or q is None:
                return None
            if p != q:
                return "another condition" if isinstance(p, bool) else "another number"
        return None

    def formula(self, t):
        """(kind, quantities) when t is built of arithmetic and comparisons only"""
        if t.k in ("bool", "cmp", "not"):
            kind = "cond"
        elif t.k in ("poly", "sel") or t.k in ("param", "fld", "ix", "len", "sub"):
            kind = "num"
        else:
            return None
        vs = set()

        def rec(z, num):
            if z.k in ("bool",) and not num:
                return all(rec(w, False) for w in z.a[1])
            if z.k == "not" and not num:
                return rec(z.a[0], False)
            if z.k == "cmp" and not num:
                return z.a[0] in ("lt", "le", "eq") and rec(z.a[1], True) and rec(z.a[2], True)
            if not num:
                return False
            if z.k == "poly":
                return all(isinstance(c, int) for _, c in z.a[0]) and all(rec(f, True) for m, _ in z.a[0] for f in m)
            if z.k == "sel":
                return rec(z.a[0], False) and rec(z.a[1], True) and rec(z.a[2], True)
            if z.k == "const":
                return isinstance(z.a[0], int) and not isinstance(z.a[0], bool)
            if z.k in ("ix", "len", "param", "fld") or z.k == "sub" and z.a[0].k == "attr" and z.a[0].a[1] == "shape":
                vs.add(z)
                return True
            return False
        return (kind, frozenset(vs)) if rec(t, kind == "num") else None

    def value(self, t, env):
        v = env.get(t)
        if v is not None:
            return v
        k = t.k
        if k == "const":
            return t.a[0]
        if k == "poly":
            r = 0
            for m, c in t.a[0]:
                for f in m:
                    v = self.value(f, env)
                    if v is None:
                        return None
                    c *= v
                r += c
            return r
        if k == "sel":
            return self.value(t.a[1] if self.value(t.a[0], env) else t.a[2], env)
        if k == "not":
            return not self.value(t.a[0], env)
        if k == "bool":
            vals = [bool(self.value(z, env)) for z in t.a[1]]
            return all(vals) if t.a[0] == "and" else any(vals)
        if k == "cmp":
            p, q = self.value(t.a[1], env), self.value(t.a[2], env)
            return p < q if t.a[0] == "lt" else p <= q if t.a[0] == "le" else p == q
        return None

    # ---- the same conditions, other results
    def cases(self, x, y):
        """Decision diagrams over the same independent conditions that end in results known to differ."""
        if "sel" not in (x.k, y.k) or self.weight(x) + self.weight(y) > 300:
            return None
        S = strong.Strong()
        try:
            f, g = S(x), S(y)
        except (strong.TooBig, RecursionError):
            return None
        if f.k != "sel" and g.k != "sel":
            return None
        at = lambda t: set() if t.k != "sel" else {t.a[0]} | at(t.a[1]) | at(t.a[2])
        A, B = at(f), at(g)
        if len(A | B) > 6 or not (A <= B or B <= A) or not self.independent(A | B):
            return None
        out, todo, n = [], [(f, g)], 0
        while todo:
            p, q = todo.pop()
            n += 1
            if n > 200:
                return None
            if p is q:
                continue
            if p.k != "sel" and q.k != "sel":
                out.append((p, q))
                continue
            v = min((z.a[0] for z in (p, q) if z.k == "sel"), key=lambda z: z.id)
            for i in (1, 2):
                todo.append(tuple(z.a[i] if z.k == "sel" and z.a[0] is v else z for z in (p, q)))
        if not out:
            return None
        ev = []
        for p, q in out:
            if p in (TRUE, FALSE) and q in (TRUE, FALSE):
                ev.append("another condition")
                continue
            if p in (TRUE, FALSE) or q in (TRUE, FALSE) or p.k in ("cmp", "not", "and", "or") or q.k in ("cmp", "not", "and", "or"):
                return None
            v, e = self.verdict(p, q)
            if v == "unk":
                return None
            if any("depends" in w for _, _, w in e):
                return None
            ev += [w for _, _, w in e]
        return "in one case " + ev[0] if ev else None

    def bounded(self, p, q):
        """q is min(p, r) or max(p, r)"""
        if q.k != "sel" or q.a[0].k != "cmp" or q.a[0].a[0] not in ("lt", "le") or p not in q.a[1:]:
            return False
        if set(q.a[0].a[1:]) != set(q.a[1:]):
            x, y = q.a[1:]
            if not is_const(q.a[0].a[1], 0) or q.a[0].a[2] not in (self.D.minus(x, y), self.D.minus(y, x)):
                return False
        return all(z.k in ("param", "fld", "ix", "poly") or z.k == "sub" for z in q.a[1:])

    def ordered(self, x, y):
        """Comparisons of the same two unrelated quantities."""
        def split(c):
            neg = False
            while c.k == "not":
                c, neg = c.a[0], not neg
            if c.k != "cmp" or c.a[0] not in ("lt", "le", "eq"):
                return None
            op, p, q = c.a
            r = {"lt": {-1}, "le": {-1, 0}, "eq": {0}}[op]
            if p.id > q.id:
                p, q, r = q, p, {-z for z in r}
            return p, q, {-1, 0, 1} - r if neg else r
        u, v = split(x), split(y)
        if u is None or v is None or u[0] is not v[0] or u[1] is not v[1] or u[2] == v[2]:
            return False
        ds = []
        for z in u[:2]:
            d, s, c = self.dep(z)
            ds.append(d | s)
        return bool(ds[0] - ds[1] and ds[1] - ds[0])

    def integers(self, x, y):
        """Two comparisons of one length or counter with numbers, decided over the natural numbers."""
        p, q = self.intset(x), self.intset(y)
        if p is None or q is None or not any(z.k == "cmp" or z.k == "not" and z.a[0].k == "cmp" for z in (x, y)):
            return None
        if p[0] is not q[0]:
            v, e = self.verdict(p[0].a[0], q[0].a[0])
            if v == "unk":
                return None
            if v == "ev":
                self.nested[(x, y)] = e
                return "ev", e[0][2]
        for n in range(0, 60):
            if p[1](n) != q[1](n):
                return "ev", f"another comparison (they differ at {n})"
        return "same", ""

    def intset(self, c):
        neg = False
        while c.k == "not":
            c, neg = c.a[0], not neg
        if c.k in ("seq", "arr", "param", "sub", "call", "poly", "bin", "mu", "eta", "rec"):
            return mk("len", c), (lambda n: (n > 0) != neg)
        if c.k != "cmp" or c.a[0] not in ("eq", "lt", "le"):
            return None
        op, x, y = c.a
        p = self.n.padd(self.n.topoly(x), self.n.topoly(y), -1)
        vs = {f for m in p for f in m}
        if len(vs) != 1 or any(len(m) > 1 for m in p):
            return None
        v = next(iter(vs))
        if v.k != "len":
            return None
        k, c0 = p.get((v,), 0), p.get((), 0)
        f = {"eq": lambda n: k * n + c0 == 0, "lt": lambda n: k * n + c0 < 0, "le": lambda n: k * n + c0 <= 0}[op]
        return v, (lambda n: f(n) != neg)

    def numbers(self, t):
        out = set()
        for z in self.within(t):
            vals = [z.a[0]] if z.k == "const" else [c for _, c in z.a[0]] if z.k == "poly" else []
            out |= {abs(v) for v in vals if isinstance(v, float) and v == v and v != int(v) and abs(v) != 0.5} if all(v not in (float("inf"), float("-inf")) for v in vals) else set()
        return out

    def heads(self, t):
        return {z.a[0].split(".")[-1] if z.k == "call" else z.a[1] for z in self.within(t) if z.k in ("call", "meth")}

    def truth(self, x, y):
        """Different truth functions of the same independent conditions."""
        if x.k not in ("bool", "not", "cmp", "sel") or y.k not in ("bool", "not", "cmp", "sel"):
            return False
        S = strong.Strong()
        try:
            f, g = S.cond(S(x)), S.cond(S(y))
        except (strong.TooBig, RecursionError):
            return False
        if f is g or not S.boolean(f) or not S.boolean(g):
            return False
        at = lambda t: {z.a[0] for z in walk(t) if z.k == "sel" and S.boolean(z)}
        A, B = at(f), at(g)
        if not (A <= B or B <= A):
            return False
        return self.independent(A | B)

    def independent(self, atoms):
        ops = [z.a[1:] if z.k == "cmp" else (z,) for z in atoms]
        seen = set()
        for o in ops:
            key = frozenset(z for z in o if z.k != "const")
            if key in seen:
                return False
            seen.add(key)
        return True

    def inside(self, p, q):
        """q = f(p) with f built of operations that change their argument"""
        if p.k in ("const", "ix", "len", "range", "tuple", "slice"):
            return False
        t = q
        steps = 0
        while t is not p:
            steps += 1
            if steps > 6:
                return False
            nxt = None
            if t.k == "call":
                if t.a[0] == "numpy.nan_to_num":
                    if any(z.k == "call" and z.a[0] == "numpy.nan_to_num" for z in self.within(p)) or p.k not in ("param", "fld", "sub"):
                        return False
                elif t.a[0] in MILD or t.a[0].startswith("lingam:"):
                    return False
                nxt = [z for z in children(t) if z is p or p in self.within(z)]
            elif t.k == "sub" and t is q and t.a[0] is p and t.a[1].k == "slice" and self.cut(p, t.a[1]):
                nxt = [p]
            elif t.k in ("poly", "inv", "not", "cmp"):
                nxt = [z for z in children(t) if z is p or p in self.within(z)]
            else:
                return False
            if len(nxt) != 1:
                return False
            t = nxt[0]
        return steps > 0

    def narrowed(self, p, q):
        """q = p[:k] written as one indexing"""
        if p.k != "sub" or q.k != "sub" or p.a[0] is not q.a[0] or q.a[1].k != "tuple":
            return False
        i = list(p.a[1].a[0]) if p.a[1].k == "tuple" else [p.a[1]]
        j = list(q.a[1].a[0])
        if j[:len(i)] != i or len(j) != len(i) + 1 or any(z.k == "slice" for z in i):
            return False
        return j[-1].k == "slice" and self.cut(p, j[-1])

    def cut(self, p, s):
        """A slice bounded by something other than the size of what is sliced."""
        bs = [z for z in s.a if isinstance(z, T) and not is_const(z, None)]
        return bool(bs) and not any(w.k == "len" and w.a[0] is p or w.k == "attr" and w.a[0] is p or w.k in ("sel", "rec", "mu", "eta") for z in bs for w in self.within(z)) and \
            all(z.k != "const" or z.a[0] not in (0, 1, -1) for z in bs)

    def within(self, z):
        r = self.wmemo.get(z)
        if r is None:
            r = self.wmemo[z] = {w for w, _ in zip(walk(z), range(2000))}
        return r


def evidence(a, b, fields=frozenset()):
    """[(x, y, why)] when every place of difference is understood and one is evidence; else None"""
    L = Local(fields)
    try:
        v, out = L.verdict(a, b)
    except RecursionError:
        return None
    return list(out) if v == "ev" and out else None
