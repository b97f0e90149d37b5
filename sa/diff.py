"""Compare two canonical values (specification, code).

Result: [] when they are the same; otherwise a list of differences, each either evidence ("ev": the two sides differ in a
constant, argument, index, operator, bound, condition, missing or extra step of an otherwise equal computation) or
unresolved ("unk": the computation is arranged in a way that cannot be aligned).  Only evidence is ever reported.
"""
from .terms import T, mk, const, NONE, is_const, show, children, walk

# functions whose results differ from their argument and from each other
VALUE_FUNCS = {"abs", "numpy.sqrt", "numpy.log", "numpy.exp", "numpy.sum", "numpy.mean", "numpy.max", "numpy.min", "max", "min", "sum", "numpy.argmax",
               "numpy.argmin", "numpy.any", "numpy.all", "any", "all", "numpy.std", "numpy.var", "numpy.median", "numpy.transpose", "numpy.tril",
               "numpy.triu", "numpy.sort", "sorted", "numpy.argsort", "numpy.cumsum", "numpy.isnan", "numpy.isclose", "numpy.sign", "numpy.tanh",
               "numpy.linalg.inv", "numpy.linalg.pinv", "numpy.flip", "numpy.prod", "numpy.zeros", "numpy.ones", "numpy.eye", "numpy.identity",
               "numpy.unique", "set", "reversed", "round", "numpy.round", "numpy.floor", "numpy.ceil", "numpy.log1p", "numpy.cosh", "math.sqrt",
               "numpy.nanmean", "numpy.nansum", "numpy.nanmax", "numpy.nanmin", "numpy.nanmedian", "len", "numpy.diag", "numpy.cov", "numpy.corrcoef", "numpy.empty",
               "numpy.zeros_like", "numpy.ones_like", "numpy.full", "numpy.random.permutation", "numpy.argwhere", "numpy.where", "numpy.delete", "numpy.setdiff1d",
               "numpy.union1d", "numpy.intersect1d", "numpy.dot", "numpy.outer", "numpy.logical_or", "numpy.logical_and", "numpy.logical_not", "numpy.roll"}
SAMEARR = {"numpy.zeros", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.empty_like", "numpy.full_like"}


def place(t):
    """Which entries a step writes."""
    if t.k == "app":
        p = place(t.a[2])
        return None if p is None else (t.a[0], p)
    return t.a[0] if t.k == "put" else t.a[1] if t.k == "aug" else None


class Diff:
    def __init__(self):
        self.memo = {}
        self.fields = set()

    def verdict(self, ds):
        if not ds:
            return "same"
        if any(d[0] == "unk" for d in ds):
            return "unk"
        return "ev" if any(d[0] == "ev" for d in ds) else "unk"

    def ev(self, a, b, why):
        return [("ev", a, b, why)]

    def dep(self, a, b, why="follows another difference"):
        """A difference that matters only through others (a length, a loop extent)."""
        return [("dep", a, b, why)]

    def unk(self, a, b, why="different form"):
        return [("unk", a, b, why)]

    def diff(self, a, b):
        if a is b:
            return []
        key = (a, b)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        r = self._diff(a, b)
        self.memo[key] = r
        return r

    def best(self, *alts):
        """The most favourable of several alignments: same, then unresolved, then evidence."""
        order = {"same": 0, "unk": 1, "ev": 2}
        return min(alts, key=lambda ds: (order[self.verdict(ds)], len(ds)))

    def closest(self, *alts):
        order = {"same": 0, "ev": 1, "unk": 2}
        return min(alts, key=lambda ds: (order[self.verdict(ds)], len(ds)))

    def _diff(self, a, b):
        if a.k == b.k:
            m = getattr(self, "d_" + a.k, None)
            if m is not None:
                r = m(a, b)
                if r is not None:
                    return r
            else:
                r = self.generic(a, b)
                if self.verdict(r) != "unk":
                    return r
        elif "len" in (a.k, b.k) and self.dimension(a, b):
            return self.dimension(a, b)
        elif "poly" in (a.k, b.k):
            r = self.d_poly(a, b)
            if self.verdict(r) != "unk":
                return r
        w = self.wrapped(a, b)
        if w is not None:
            return w
        if {a.k, b.k} & {"seq", "tuple"}:
            r = self.pieces(a, b)
            if r is not None:
                return r
        if "arr" in (a.k, b.k) and a.k != b.k:
            x, y = (a, b) if a.k == "arr" else (b, a)
            if not self.diff(*((x.a[0], y) if a.k == "arr" else (y, x.a[0]))):
                return self.ev(a, b, "missing step" if a.k == "arr" else "extra step")
        if {a.k, b.k} == {"arr", "sub"}:
            x, y = (a, b) if a.k == "arr" else (b, a)
            if len(x.a[1]) == 1 and x.a[1][0].k == "put" and x.a[1][0].a[0] is y.a[1] and x.a[1][0].a[1] is y.a[0] and y.a[1].k not in ("slice", "const", "ix"):
                return self.ev(a, b, "gathering and scattering exchanged")
        d = self.dimension(a, b)
        if d is not None:
            return d
        if a.k in ("param", "ix", "fld", "const", "ext", "len") and b.k in ("param", "ix", "fld", "const", "ext", "len"):
            if not (a.k == "const" and isinstance(a.a[0], str) or b.k == "const" and isinstance(b.a[0], str)) and "len" not in (a.k, b.k):
                return self.ev(a, b, "another value is used")
        if "sel" in (a.k, b.k):
            return self.sel_any(a, b)
        return self.unk(a, b)

    def pieces(self, a, b):
        """A sequence built in steps against one that lacks or adds some of the steps."""
        pa = list(a.a[0]) if a.k in ("seq", "tuple") else [mk("all", a)]
        pb = list(b.a[0]) if b.k in ("seq", "tuple") else [mk("all", b)]
        if a.k not in ("seq", "tuple") and b.k not in ("seq", "tuple"):
            return None
        ida, idb = {x.id for x in pa}, {x.id for x in pb}
        if ida < idb or idb < ida:
            # the shorter one must be a subsequence
            big, small = (pb, pa) if ida < idb else (pa, pb)
            it = iter(big)
            if (small or big is pa) and all(any(x is y for y in it) for x in small):
                return self.ev(a, b, "extra step" if ida < idb else "missing step")
        return None

    def dimension(self, a, b):
        """Number of rows against number of columns of a data argument."""
        def dim(t):
            if t.k == "len":
                return t.a[0], 0
            if t.k == "sub" and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
                return t.a[0].a[0], t.a[1].a[0]
            return None
        x, y = dim(a), dim(b)
        if x and y and x[0] is y[0] and x[1] != y[1]:
            r = x[0]
            while r.k in ("sub", "call") and r.a:
                r = r.a[0] if r.k == "sub" else (r.a[1][0] if r.a[1] else None)
                if r is None:
                    return None
            if r.k == "param" and r.a[0] in ("X", "X_list", "data"):
                return self.ev(a, b, "another dimension of the data")
        return None

    # ------------------------------------------------------------ leaves
    def d_const(self, a, b):
        if isinstance(a.a[0], (int, float)) and isinstance(b.a[0], (int, float)) and not isinstance(a.a[0], bool) and not isinstance(b.a[0], bool):
            if a.a[0] == b.a[0] or a.a[0] and abs(a.a[0] - b.a[0]) < 1e-12 * abs(a.a[0]):
                return []
        return self.ev(a, b, "another constant")

    def d_param(self, a, b):
        return self.ev(a, b, "another argument")

    def d_ix(self, a, b):
        return self.ev(a, b, "another loop counter")

    def d_ext(self, a, b):
        return self.ev(a, b, "another name")

    def d_fld(self, a, b):
        if isinstance(a.a[0], str) and a.a[0] == b.a[0] and a.a[1] in self.fields and b.a[1] in self.fields:
            return self.ev(a, b, "another stored attribute")
        return None

    def d_lam(self, a, b):
        return self.generic(a, b)

    def d_cls(self, a, b):
        return self.ev(a, b, "another class")

    def d_func(self, a, b):
        return self.unk(a, b)

    def d_len(self, a, b):
        r = self.dimension(a, b)
        if r is not None:
            return r
        r = self.diff(a.a[0], b.a[0])
        return [] if not r else self.dep(a, b) if all(x[0] != "unk" for x in r) else self.unk(a, b)

    def d_rec(self, a, b):
        return self.unk(a, b)

    # ------------------------------------------------------------ structure
    def generic(self, a, b):
        ca, cb = children(a), children(b)
        sa = [x for x in a.a if not isinstance(x, (T, tuple, frozenset))]
        sb = [x for x in b.a if not isinstance(x, (T, tuple, frozenset))]
        if sa != sb or len(ca) != len(cb):
            return self.unk(a, b)
        out = []
        for x, y in zip(ca, cb):
            out += self.diff(x, y)
        return out

    def pairs(self, xs, ys):
        out = []
        for x, y in zip(xs, ys):
            out += self.diff(x, y)
        return out

    def d_attr(self, a, b):
        if a.a[1] != b.a[1]:
            if a.a[0] is b.a[0]:
                return self.ev(a, b, "another attribute")
            return self.unk(a, b)
        return self.diff(a.a[0], b.a[0])

    def d_slice(self, a, b):
        out = []
        for x, y, w in zip(a.a, b.a, ("start", "stop", "step")):
            if x is y:
                continue
            if is_const(x, None) or is_const(y, None):
                out += self.ev(a, b, "another slice " + w)
            else:
                out += self.diff(x, y)
        return out

    def d_sub(self, a, b):
        (b1, i1), (b2, i2) = a.a, b.a
        if b1 is b2:
            return self.index(i1, i2, a, b)
        p1 = list(i1.a[0]) if i1.k == "tuple" else [i1]
        p2 = list(i2.a[0]) if i2.k == "tuple" else [i2]
        if len(p1) == len(p2):
            return self.diff(b1, b2) + self.index(i1, i2, a, b)
        return self.diff(b1, b2) + self.unk(i1, i2) if len(p1) == len(p2) else None

    def index(self, i1, i2, a, b):
        if i1 is i2:
            return []
        p1 = list(i1.a[0]) if i1.k == "tuple" else [i1]
        p2 = list(i2.a[0]) if i2.k == "tuple" else [i2]
        if len(p1) == len(p2):
            if len(p1) > 1 and sorted(x.id for x in p1) == sorted(x.id for x in p2):
                return self.ev(a, b, "indices exchanged")
            out = []
            for x, y in zip(p1, p2):
                if "slice" in (x.k, y.k) and {"tuple", "seq", "arr"} & {x.k, y.k}:
                    out += self.unk(x, y, "index")
                elif x.k == "slice" and y.k != "slice" or y.k == "slice" and x.k != "slice":
                    out += self.ev(x, y, "another index")
                else:
                    out += self.diff(x, y)
            return out
        # A[i] (row) against A[:, i] (column)
        full = lambda s: s.k == "slice" and all(is_const(x, None) for x in s.a)
        q1, q2 = [x for x in p1 if not full(x)], [x for x in p2 if not full(x)]
        if len(q1) == len(q2) and all(x is y for x, y in zip(q1, q2)):
            return self.ev(a, b, "another axis is indexed")
        return self.unk(a, b)

    def d_tuple(self, a, b):
        return self.align(list(a.a[0]), list(b.a[0]), a, b, ordered=True)

    def d_seq(self, a, b):
        return self.align(list(a.a[0]), list(b.a[0]), a, b, ordered=True)

    def d_fold(self, a, b):
        if a.a[0] != b.a[0]:
            return self.ev(a, b, "another way of combining")
        return self.diff(a.a[1], b.a[1]) + self.align(list(a.a[2]), list(b.a[2]), a, b, ordered=False)

    def d_arr(self, a, b):
        out = self.diff(a.a[0], b.a[0])
        return out + self.align(list(a.a[1]), list(b.a[1]), a, b, ordered=False)

    def d_all(self, a, b):
        return self.diff(a.a[0], b.a[0])

    def align(self, xs, ys, a, b, ordered):
        """Match equal members first; the rest must pair up or be missing/extra on one side only."""
        left, right = list(xs), list(ys)
        if ordered and len(xs) == len(ys):
            r = self.pairs(xs, ys)
            if self.verdict(r) == "same":
                return []
            if sorted(x.id for x in xs) == sorted(y.id for y in ys):
                return self.ev(a, b, "another order")
            if self.verdict(r) == "ev":
                return r
        for x in list(left):
            for y in right:
                if not self.diff(x, y):
                    left.remove(x)
                    right.remove(y)
                    break
        if not left and not right:
            return [] if not ordered or len(xs) != len(ys) else self.unk(a, b, "order")
        if not left:
            return [d for y in right for d in self.ev(a, y, "extra step")]
        if not right:
            return [d for x in left for d in self.ev(x, b, "missing step")]
        if len(left) == len(right):
            if len(left) == 1:
                return self.diff(left[0], right[0])
            out = []
            r2 = list(right)
            for x in left:
                c = sorted(((0 if place(x) is not None and place(x) == place(y) else 1, 0 if self.verdict(self.diff(x, y)) == "ev" else 1, len(self.diff(x, y)), i, y) for i, y in enumerate(r2)), key=lambda q: q[:4])
                y = c[0][4]
                r2.remove(y)
                out += self.diff(x, y)
            return out
        return self.unk(a, b, f"{len(left)} against {len(right)} unmatched parts")

    def d_app(self, a, b):
        bi1, g1, v1, l1 = a.a
        bi2, g2, v2, l2 = b.a
        if [x.a[0].k if x.k == "until" else x.k for x in bi1] != [x.a[0].k if x.k == "until" else x.k for x in bi2]:
            return self.unk(a, b, "other loops")
        out = []
        for x, y in zip(bi1, bi2):
            out += self.diff(x, y)
        for x, y, more, why in ((v1, v2, set(g2) - set(g1), "a case is missing"), (v2, v1, set(g1) - set(g2), "a case is added")):
            if not out and x.k == "sel" and len(more) == 1 and len(set(g1) ^ set(g2)) == 1:
                c = next(iter(more))
                neg = c.a[0] if c.k == "not" else mk("not", c)
                for cond, keep in ((c, x.a[1]), (neg, x.a[2])):
                    if x.a[0] is cond and not self.diff(*((keep, y) if x is v1 else (y, keep))):
                        return self.ev(a, b, why)
        gs = self.guards(set(g1), set(g2), a, b)
        if out or gs:
            from .refine import same_domain, moved
            if same_domain(a, b):
                return self.diff(v1, v2)
            if out and gs and moved(a, b):
                return self.unk(a, b, "other loops and conditions")
        return out + gs + self.diff(v1, v2)

    def guards(self, g1, g2, a, b):
        l, r = g1 - g2, g2 - g1
        if not l and not r:
            return []
        for x in list(l):
            for y in list(r):
                if not self.diff(x, y):
                    l.discard(x)
                    r.discard(y)
                    break
        if not l and not r:
            return []
        if not l:
            return self.ev(a, next(iter(r)), "extra condition")
        if not r:
            return self.ev(next(iter(l)), b, "missing condition")
        if len(l) == len(r) == 1:
            return self.diff(next(iter(l)), next(iter(r)))
        return self.unk(a, b, "conditions")

    def d_range(self, a, b):
        r = self.diff(a.a[0], b.a[0])
        if self.verdict(r) == "ev" and not ("poly" in (a.a[0].k, b.a[0].k) or a.a[0].k == b.a[0].k == "const"):
            return self.dep(a, b, "loop extent")
        return r

    def d_put(self, a, b):
        return self.index(a.a[0], b.a[0], a, b) + self.diff(a.a[1], b.a[1])

    def d_mutat(self, a, b):
        if a.a[1] != b.a[1]:
            return self.ev(a, b, "another operation") if a.a[0] is b.a[0] and a.a[2] == b.a[2] else self.unk(a, b)
        if len(a.a[2]) != len(b.a[2]):
            return self.unk(a, b)
        if len(a.a[2]) == 1 and a.a[0] is b.a[2][0] and b.a[0] is a.a[2][0]:
            return self.ev(a, b, "index and value exchanged")
        return self.index(a.a[0], b.a[0], a, b) + self.pairs(a.a[2], b.a[2])

    def d_aug(self, a, b):
        if a.a[0] != b.a[0]:
            return self.ev(a, b, "another operator")
        return self.index(a.a[1], b.a[1], a, b) + self.diff(a.a[2], b.a[2])

    def d_cmp(self, a, b):
        o1, x1, y1 = a.a
        o2, x2, y2 = b.a
        if o1 == o2:
            if o1 in ("eq", "is"):
                if o1 == "eq" and (is_const(x1, 0) or is_const(y1, 0) or is_const(x2, 0) or is_const(y2, 0)) and "poly" in (x1.k, y1.k, x2.k, y2.k):
                    return self.closest(self.d_poly(self.minus(x1, y1), self.minus(x2, y2)), self.d_poly(self.minus(x1, y1), self.minus(y2, x2)))
                r = self.closest(self.pairs((x1, y1), (x2, y2)), self.pairs((x1, y1), (y2, x2)))
                return r if self.verdict(r) != "unk" else None
            if x1 is y2 and y1 is x2:
                return self.ev(a, b, "comparison reversed")
            r = self.pairs((x1, y1), (x2, y2))
            if o1 in ("lt", "le") and (is_const(x1, 0) and y1.k == "poly") != (is_const(x2, 0) and y2.k == "poly"):
                return self.d_poly(self.minus(y1, x1), self.minus(y2, x2))
            return r
        if {x1, y1} == {x2, y2}:
            return self.ev(a, b, "another comparison")
        return self.unk(a, b)

    def d_not(self, a, b):
        return self.diff(a.a[0], b.a[0])

    def d_bool(self, a, b):
        if a.a[0] != b.a[0]:
            if set(a.a[1]) == set(b.a[1]):
                return self.ev(a, b, "and/or exchanged")
            return self.unk(a, b)
        return self.guards(set(a.a[1]), set(b.a[1]), a, b)

    def d_bin(self, a, b):
        o1, x1, y1 = a.a
        o2, x2, y2 = b.a
        if o1 == o2:
            if x1 is y2 and y1 is x2 and o1 not in ("BitAnd", "BitOr", "BitXor"):
                return self.ev(a, b, "operands exchanged")
            return self.pairs((x1, y1), (x2, y2))
        if {x1, y1} == {x2, y2}:
            return self.ev(a, b, "another operator")
        return self.unk(a, b)

    def d_sel(self, a, b):
        c1, x1, y1 = a.a
        c2, x2, y2 = b.a
        if c1 is c2:
            if x1 is y2 and y1 is x2:
                return self.ev(a, b, "branches exchanged")
            return self.pairs((x1, y1), (x2, y2))
        r = self.pairs((x1, y1), (x2, y2))
        if self.verdict(r) == "same":
            return self.diff(c1, c2)
        r2 = self.pairs((c1, x1, y1), (c2, x2, y2))
        if self.verdict(r2) == "ev":
            return r2
        return self.sel_any(a, b)

    def sel_any(self, a, b):
        """One side has a special case the other lacks."""
        for s, o, code in ((a, b, "missing"), (b, a, "extra")):
            if s.k != "sel":
                continue
            c, x, y = s.a
            for keep, alt in ((x, y), (y, x)):
                if not self.diff(*((keep, o) if code == "missing" else (o, keep))):
                    d = self.diff(*((alt, keep)))
                    if alt.k in ("const", "ext") and keep.k != "sel" or self.verdict(d) == "ev" or alt.k in ("mu", "rec") and keep.k not in ("sel", "const", "mu", "rec"):
                        return self.ev(a, b, code + " special case")
        return self.unk(a, b)

    def minus(self, x, y):
        p = dict(self.topoly(x))
        for m, c in self.topoly(y).items():
            p[m] = p.get(m, 0) - c
            if not p[m]:
                del p[m]
        return mk("poly", tuple(sorted(p.items(), key=lambda mc: tuple(z.id for z in mc[0]))))

    def scaled(self, p, q):
        """q is p times a product of quantities other than one"""
        def powers(m, sign, c):
            for f in m:
                g, s = (f.a[0], -sign) if f.k == "inv" else (f, sign)
                c[g] = c.get(g, 0) + s
                if not c[g]:
                    del c[g]
            return c
        key = lambda c: tuple(sorted((g.id, n) for g, n in c.items()))
        if len(p) != len(q) or not 1 <= len(p) <= 12:
            return False
        table = {key(powers(m, 1, {})): c for m, c in q.items()}
        m0, c0 = next(iter(p.items()))
        for m1, c1 in q.items():
            r = powers(m0, -1, powers(m1, 1, {}))
            if not r or len(r) > 2 or not all(g.k in ("len", "param", "fld") or g.k == "sub" and g.a[0].k == "attr" for g in r):
                continue
            if all(abs(table.get(key(powers(m, 1, dict(r))), 0) * c0 - c * c1) <= 1e-12 * abs(c * c1) for m, c in p.items()):
                return True
        return False

    def d_poly(self, a, b):
        p = self.topoly(a)
        q = self.topoly(b)
        if p and q and self.scaled(p, q):
            return self.ev(a, b, "extra or missing factor")
        l = {m: c for m, c in p.items() if q.get(m) != c}
        r = {m: c for m, c in q.items() if p.get(m) != c}
        l2 = {m: c for m, c in l.items() if m not in r or abs(c - r[m]) > 1e-12 * abs(c)}
        r2 = {m: c for m, c in r.items() if m not in l or abs(c - l[m]) > 1e-12 * abs(c)}
        l, r = l2, r2
        if not l and not r:
            return []
        if set(l) == set(r):
            return self.ev(a, b, "another factor or sign")
        if not l or not r:
            return self.ev(a, b, "extra or missing term")
        both = set(l) & set(r)
        if both:
            l = {m: c for m, c in l.items() if m not in both}
            r = {m: c for m, c in r.items() if m not in both}
            sub = self.d_poly(mk("poly", tuple(l.items())), mk("poly", tuple(r.items()))) if l or r else []
            return self.ev(a, b, "another factor or sign") + sub
        if len(l) == len(r) == 1:
            (m1, c1), = l.items()
            (m2, c2), = r.items()
            if abs(c1 - c2) > 1e-12 * abs(c1):
                f1, f2 = list(m1), list(m2)
                for f in list(f1):
                    if f in f2:
                        f1.remove(f)
                        f2.remove(f)
                if not f1 or not f2:
                    return self.ev(a, b, "another factor")
                d = self.factors(m1, m2, a, b)
                if self.verdict(d) == "ev":
                    return d
                return self.unk(a, b)
            return self.factors(m1, m2, a, b)
        if len(l) == len(r):
            out = []
            rest = list(r.items())
            for m1, c1 in l.items():
                best = None
                for m2, c2 in rest:
                    if abs(c1 - c2) > 1e-12 * abs(c1):
                        continue
                    d = self.factors(m1, m2, a, b)
                    if best is None or (self.verdict(d) == "ev" and self.verdict(best[0]) != "ev") or len(d) < len(best[0]):
                        best = (d, (m2, c2))
                if best is None:
                    return self.unk(a, b)
                rest.remove(best[1])
                out += best[0]
            return out
        return self.unk(a, b)

    def factors(self, m1, m2, a, b):
        f1, f2 = list(m1), list(m2)
        for f in list(f1):
            if f in f2:
                f1.remove(f)
                f2.remove(f)
        if not f1 and not f2:
            return []
        if not f1 or not f2:
            return self.ev(a, b, "extra or missing factor")
        for x, y in ((f1, f2), (f2, f1)):
            if sorted(mk("inv", f).id for f in x) == sorted(g.id for g in y):
                return self.ev(a, b, "multiplication and division exchanged")
        if len(f1) == len(f2) == 1:
            return self.diff(f1[0], f2[0])
        return self.unk(a, b)

    def topoly(self, n):
        if n.k == "poly":
            return {m: c for m, c in n.a[0]}
        if n.k == "const" and isinstance(n.a[0], (int, float)) and not isinstance(n.a[0], bool):
            return {(): n.a[0]} if n.a[0] else {}
        return {(n,): 1}

    def d_call(self, a, b):
        f1, p1, k1 = a.a
        f2, p2, k2 = b.a
        if f1 == f2:
            out = []
            if len(p1) != len(p2):
                return self.ev(a, b, "missing or extra argument") if f1 in VALUE_FUNCS and p1[:1] == p2[:1] else self.unk(a, b)
            if len(p1) == 2 and p1[0] is p2[1] and p1[1] is p2[0]:
                return self.ev(a, b, "arguments exchanged") if f1 not in ("numpy.union1d", "numpy.intersect1d", "numpy.logical_or", "numpy.logical_and", "max", "min", "numpy.maximum", "numpy.minimum") else []
            out += self.pairs(p1, p2)
            return out + self.kws(k1, k2, a, b)
        if p1 == p2 and k1 == k2 and f1 in VALUE_FUNCS and f2 in VALUE_FUNCS and {f1, f2} - SAMEARR:
            if {f1.split(".")[-1], f2.split(".")[-1]} in ({"sum"}, {"max"}, {"min"}, {"any"}, {"all"}, {"round"}, {"sort", "sorted"}, {"inv", "pinv"}, {"set", "unique"}, {"set", "sorted"},
                                                          {"sorted", "unique"}, {"eye", "identity"}, {"sqrt"}, {"set", "list"}, {"unique", "sort"}):
                return self.unk(a, b)
            return self.ev(a, b, "another function")
        if p1 == p2 and k1 == k2 and p1 and self.foreign(f1) and self.foreign(f2) and f1.split(".")[-1] != f2.split(".")[-1]:
            return self.ev(a, b, "another function")
        return None

    def foreign(self, f):
        """A statistical or graph function of a library, not a container operation."""
        return f.split(".")[0] in ("scipy", "statsmodels", "sklearn", "networkx") and "check_" not in f and f.split(".")[-1][:1].islower()

    def kws(self, k1, k2, a, b):
        d1, d2 = dict(k1), dict(k2)
        out = []
        for n in sorted(set(d1) | set(d2)):
            if n in d1 and n in d2:
                out += self.diff(d1[n], d2[n])
            else:
                out += self.ev(a, b, f"option {n} missing or added")
        return out

    def d_meth(self, a, b):
        r1, m1, p1, k1 = a.a
        r2, m2, p2, k2 = b.a
        if m1 != m2:
            if r1 is r2 and p1 == p2:
                return self.ev(a, b, "another method")
            return None
        if len(p1) != len(p2):
            return self.unk(a, b)
        if len(p1) == 2 and p1[0] is p2[1] and p1[1] is p2[0]:
            return self.diff(r1, r2) + self.ev(a, b, "arguments exchanged")
        return self.diff(r1, r2) + self.pairs(p1, p2) + self.kws(k1, k2, a, b)

    def d_xinst(self, a, b):
        if a.a[0] != b.a[0]:
            return self.unk(a, b)
        if len(a.a[1]) != len(b.a[1]):
            return self.unk(a, b)
        return self.pairs(a.a[1], b.a[1]) + self.kws(a.a[2], b.a[2], a, b)

    d_inst = d_xinst

    def d_fstr(self, a, b):
        if len(a.a[0]) != len(b.a[0]):
            return self.unk(a, b)
        return self.pairs(a.a[0], b.a[0])

    def table(self, t):
        """An index table that changes while the loop runs."""
        return t.k in ("mu", "rec") and any(z.k == "call" and z.a[0] in ("numpy.delete", "numpy.setdiff1d") for z, _ in zip(walk(t), range(200)))

    # ------------------------------------------------------------ one side wraps the other
    def wrapped(self, a, b):
        for x, y in ((a, b), (b, a)):
            inner = None
            if x.k == "call" and x.a[1] and x.a[0] in VALUE_FUNCS:
                inner = x.a[1][0]
                if x.a[0] in ("max", "min", "numpy.maximum", "numpy.minimum") and y in x.a[1]:
                    inner = y
            elif x.k == "not":
                inner = x.a[0]
            elif x.k == "until" and x.a[0] is y:
                return self.ev(a, b, "leaving the loop early is added or missing")
            elif x.k == "sub" and x.a[1].k in ("slice", "const", "ix"):
                inner = x.a[0]
            elif x.k == "meth" and x.a[1] in ("fit", "transform", "fit_transform", "lower", "strip"):
                inner = x.a[0]
            elif x.k == "inv":
                inner = x.a[0]
            elif x.k in ("mu", "eta"):
                inner = x.a[1]
            elif x.k == "post" and (y.k == "fld" and y.a[1] == x.a[1] or y.k == "post" and y.a[1] == x.a[1]
                                    and any(z is y.a[0] for z in walk(x.a[0]))):
                return self.ev(a, b, "an operation is added or missing")
            elif x.k == "bool" and y in x.a[1]:
                return self.ev(a, b, "extra or missing condition")
            if x.k == "seq" and len(x.a[0]) == 1 and x.a[0][0].k == "app" and x.a[0][0].a[1] and len(x.a[0][0].a[0]) == 1:
                ap = x.a[0][0]
                if ap.a[2].k == "sub" and ap.a[2].a[0] is y and ap.a[2].a[1] is mk("ix", ap.a[3]):
                    return self.ev(a, b, "a filter is added or missing")
            if x.k == "meth" and x.a[1] in ("transform", "fit_transform", "predict", "inverse_transform") and len(x.a[2]) == 1 and x.a[2][0] is y:
                return self.ev(a, b, "an operation is added or missing")
            if x.k == "sub" and x.a[1] is y and y.k not in ("const", "slice", "tuple") and self.table(x.a[0]):
                return self.ev(a, b, "a translation of the index is added or missing")
            if x.k == "meth" and y.k == "xinst" and inner is not None and inner.k == "call" and inner.a[0] == y.a[0]:
                return self.ev(a, b, "an operation is added or missing")
            if inner is not None and inner is y:
                return self.ev(a, b, "an operation is added or missing")
        return None
