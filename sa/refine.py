"""Equalities known at a place are used there, and loops over the same index sets are recognised."""
import ast
import itertools
from .terms import T, mk, const, is_const, walk, children
from .explain import Rebuild

EMPTY = mk("tuple", ())
SIMPLE = {"param", "fld", "ix", "const", "len"}


def equality(c):
    """(replaced, representative) of a condition that two simple values are equal"""
    if c.k != "cmp" or c.a[0] not in ("eq", "is"):
        return None
    x, y = c.a[1:]
    if x.k == "const" and y.k in SIMPLE and y.k != "const":
        x, y = y, x
    if x.k not in SIMPLE or y.k not in SIMPLE or x.k == "const":
        return None
    if y.k == "const":
        return (x, y) if isinstance(y.a[0], (int, type(None))) and not isinstance(y.a[0], bool) and (c.a[0] == "eq") == isinstance(y.a[0], int) else None
    if c.a[0] == "is":
        return None
    return (x, y) if x.id > y.id else (y, x)


def settings(cls):
    """{attribute: its possible values} for a setting checked on construction and not assigned anywhere else"""
    out, count = {}, {}
    for c in cls.mro if cls else ():
        for f in ast.walk(c.node):
            if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) and isinstance(f.value, ast.Name) and f.value.id == "self":
                count[f.attr] = count.get(f.attr, 0) + 1
        init = next((f for f in c.node.body if isinstance(f, ast.FunctionDef) and f.name == "__init__"), None)
        kept = {}
        for st in init.body if init else ():
            t = st.test if isinstance(st, ast.If) else None
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and isinstance(t.left, ast.Name) and isinstance(st.body[-1], ast.Raise):
                try:
                    v = ast.literal_eval(t.comparators[0])
                except ValueError:
                    continue
                if isinstance(v, (tuple, list)):
                    kept[t.left.id] = tuple(v)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and isinstance(st.value, ast.Name) and st.value.id in kept:
                out[st.targets[0].attr] = kept[st.value.id]
    return {k: v for k, v in out.items() if count.get(k) == 1}


class Refine(Rebuild):
    def __init__(self, vals=None):
        super().__init__({})
        self.vals = vals or {}
        self.steps = 0
        self.has = {}
        self.fv = {}

    def occurs(self, t, x):
        s = self.has.get(t)
        if s is None:
            s = self.has[t] = set(itertools.islice(walk(t), 4000))
        return x in s

    def put(self, x, y, t):
        return Rebuild({x: y})(t) if self.occurs(t, x) else t

    # loops that do not use the counters around them are numbered as if outside
    def scope(self, t):
        """The level of the first counter this value binds."""
        aps = [x for x in (t.a[0] if t.k == "seq" else t.a[1] if t.k == "arr" else t.a[2]) if x.k == "app"]
        if not aps:
            return None
        if t.k == "fold":
            return min(x.a[3] for x in aps)
        ls = {x.a[3] - len(x.a[0]) + 1 for x in aps}
        return ls.pop() if len(ls) == 1 else None

    def frees(self, t):
        r = self.fv.get(t)
        if r is None:
            if t.k in ("ix", "ndix"):
                r = frozenset((t.a[0],)) if isinstance(t.a[0], int) else frozenset()
            else:
                r = frozenset().union(*(self.frees(x) for x in children(t))) if t.a else frozenset()
                if t.k in ("seq", "arr", "fold"):
                    s = self.scope(t)
                    if s is not None:
                        r = frozenset(j for j in r if j < s)
            self.fv[t] = r
        return r

    def shift(self, x, s, d):
        if isinstance(x, tuple):
            return tuple(self.shift(y, s, d) for y in x)
        if not isinstance(x, T):
            return x
        if x.k in ("ix", "ndix") and isinstance(x.a[0], int):
            return mk(x.k, x.a[0] + d, *self.shift(x.a[1:], s, d)) if x.a[0] >= s else x
        if x.k in ("seq", "arr", "fold"):
            z = self.scope(x)
            if z is not None and z < s:
                return x
        if x.k == "app":
            l = x.a[3]
            return mk("app", self.shift(x.a[0], s, d), tuple(sorted(self.shift(x.a[1], s, d), key=lambda z: z.id)), self.shift(x.a[2], s, d), l + d if l >= s or not x.a[0] and l == s - 1 else l)
        if x.k == "mu":
            return mk("mu", x.a[0] + d if x.a[0] >= s else x.a[0], *self.shift(x.a[1:], s, d))
        a = self.shift(x.a, s, d)
        return x if all(y is z or not isinstance(y, T) and y == z for y, z in zip(a, x.a)) else self.again(mk(x.k, *a))

    def again(self, t):
        if t.k == "poly":
            return self.n.mkpoly(dict((tuple(sorted(m, key=lambda z: z.id)), c) for m, c in t.a[0]))
        if t.k == "bool":
            return self.n.mkboolc(t.a[0], t.a[1])
        if t.k == "cmp":
            return self.n.cmp(*t.a)
        if t.k == "phi":
            return mk("phi", tuple(sorted(t.a[0], key=lambda z: z.id)))
        if t.k == "fold":
            return mk("fold", t.a[0], t.a[1], tuple(sorted(t.a[2], key=lambda z: z.id)))
        return t

    def outermost(self, t):
        s = self.scope(t)
        if not s or s < 0 or t.k == "fold" and any(len(x.a[0]) != 1 for x in t.a[2]):
            return t
        m = max((j for j in self.frees(t) if j < s), default=-1) + 1
        if m >= s or any(x.k in ("mu", "rec") for x in itertools.islice(walk(t), 3000)):
            return t
        if t.k == "fold":
            return mk("fold", t.a[0], t.a[1], tuple(sorted(self.shift(t.a[2], s, m - s), key=lambda z: z.id)))
        if t.k == "seq":
            return mk("seq", self.shift(t.a[0], s, m - s), t.a[1])
        return mk("arr", t.a[0], self.shift(t.a[1], s, m - s))

    def build(self, t):
        t = super().build(t)
        if t.k in ("seq", "arr", "fold"):
            return self.outermost(t)
        if t.k == "cmp" and t.a[0] == "eq" and self.vals:
            x, y = t.a[1:]
            if y.k == "const":
                x, y = y, x
            if x.k == "const" and y.k == "fld" and y.a[0] == "self" and len(self.vals.get(y.a[1], ())) == 2 and x.a[0] == self.vals[y.a[1]][1]:
                return self.n.mkneg(self.n.cmp("eq", const(self.vals[y.a[1]][0]), y))
        if t.k == "sel":
            c, x, y = t.a
            if x.k == "sel" and x.a[0] is c or y.k == "sel" and y.a[0] is c:
                return self.n.mksel(c, x.a[1] if x.k == "sel" and x.a[0] is c else x, y.a[2] if y.k == "sel" and y.a[0] is c else y)
            e = equality(t.a[0])
            if e is not None:
                c, x, y = t.a
                x2 = self.put(*e, x)
                if self.occurs(y, e[0]) and self.put(*e, y) is x2:
                    return y
                return t if x2 is x else self.n.mksel(c, x2, y)
        elif t.k == "app" and (t.a[1] or any(x.k == "range" and x.a[0].k == "len" and x.a[0].a[0].k == "sel" for x in t.a[0])):
            b, gs, v, l = t.a
            for i, x in enumerate(b):               # the elements of a collection that may be the empty one
                y = x.a[0].a[0] if x.k == "range" and x.a[0].k == "len" else None
                if y is not None and y.k == "sel" and EMPTY in y.a[1:]:
                    z, c = (y.a[1], y.a[0]) if y.a[2] is EMPTY else (y.a[2], self.n.mkneg(y.a[0]))
                    b = tuple(mk("range", mk("len", z)) if j == i else self.put(y, z, w) if isinstance(w, T) else w for j, w in enumerate(b))
                    v = self.put(y, z, v)
                    gs = tuple(sorted({self.put(y, z, g) for g in gs} | {c}, key=lambda z: z.id))
            for g in gs:
                e = equality(g)
                if e is not None:
                    v = self.put(*e, v)
                    gs = tuple(sorted({h if h is g else self.put(*e, h) for h in gs}, key=lambda z: z.id))
            if v is not t.a[2] or gs != t.a[1] or b != t.a[0]:
                return mk("app", b, gs, v, l)
        return t


def refine(t, vals=None):
    try:
        return Refine(vals)(t)
    except RecursionError:
        return t


# ---------------------------------------------------------------- index sets
def quantities(t, vs, cond):
    """t is arithmetic over sizes, counters and settings, which are collected"""
    k = t.k
    if cond:
        if k == "bool":
            return all(quantities(z, vs, True) for z in t.a[1])
        if k == "not":
            return quantities(t.a[0], vs, True)
        return k == "cmp" and t.a[0] in ("lt", "le", "eq") and quantities(t.a[1], vs, False) and quantities(t.a[2], vs, False)
    if k == "poly":
        return all(isinstance(c, int) and all(quantities(f, vs, False) for f in m) for m, c in t.a[0])
    if k == "sel":
        return quantities(t.a[0], vs, True) and quantities(t.a[1], vs, False) and quantities(t.a[2], vs, False)
    if k == "const":
        return isinstance(t.a[0], int) and not isinstance(t.a[0], bool)
    if k in ("ix", "len", "param", "fld") or k == "sub" and t.a[0].k == "attr" and t.a[0].a[1] == "shape":
        vs.add(t)
        return True
    return False


def value(t, env):
    v = env.get(t)
    if v is not None:
        return v
    k = t.k
    if k == "const":
        return t.a[0]
    if k == "poly":
        r = 0
        for m, c in t.a[0]:
            for f in m:
                c *= value(f, env)
            r += c
        return r
    if k == "sel":
        return value(t.a[1] if value(t.a[0], env) else t.a[2], env)
    if k == "not":
        return not value(t.a[0], env)
    if k == "bool":
        return (all if t.a[0] == "and" else any)(value(z, env) for z in t.a[1])
    p, q = value(t.a[1], env), value(t.a[2], env)
    return p < q if t.a[0] == "lt" else p <= q if t.a[0] == "le" else p == q


def moved(a, b):
    """Both the extent of a loop and an arithmetic condition on its counters differ."""
    def plain(t, cond):
        vs = set()
        return quantities(t, vs, cond) and all(v.k != "len" or v.a[0].k in SIMPLE or v.a[0].k == "attr" for v in vs)
    rs = [(x, y) for x, y in zip(a.a[0], b.a[0]) if x is not y]
    gs = set(a.a[1]) ^ set(b.a[1])
    return any(x.k == y.k == "range" and plain(x.a[0], False) and plain(y.a[0], False) for x, y in rs) and any(plain(g, True) for g in gs)


def same_domain(a, b):
    """Whether two loops with their conditions run over the same index tuples (True/False), None if that cannot be told."""
    b1, g1, _, l1 = a.a
    b2, g2, _, l2 = b.a
    if len(b1) != len(b2) or l1 != l2 or len(b1) > 3:
        return None
    l1 -= len(b1) - 1                   # the level of the outermost of these loops
    g1, g2 = set(g1), set(g2)
    own1, own2 = [], []
    for g in g1 | g2:
        vs = set()
        if not quantities(g, vs, True):
            if g in g1 and g in g2:
                continue
            return None
        if g in g1:
            own1.append(g)
        if g in g2:
            own2.append(g)
    free, opaque = set(), set()
    for i, (x, y) in enumerate(zip(b1, b2)):
        vs = set()
        if x.k == y.k == "range" and quantities(x.a[0], vs, False) and quantities(y.a[0], vs, False):
            free |= vs
        elif x is y:
            opaque.add(mk("ix", l1 + i))
        else:
            return None
    for g in own1 + own2:
        quantities(g, free, True)
    own = {mk("ix", l1 + i) for i in range(len(b1))} - opaque
    vs = sorted(free - own, key=lambda z: z.id)
    if len(vs) > 4:
        return None

    def tuples(bs, gs, env):
        out = set()

        def rec(i, env, pre):
            if i == len(bs):
                if all(value(g, env) for g in gs):
                    out.add(pre)
                return
            x = mk("ix", l1 + i)
            if x in opaque:
                rec(i + 1, env, pre)
            else:
                for k in range(max(0, min(value(bs[i].a[0], env), 12))):
                    rec(i + 1, {**env, x: k}, pre + (k,))
        rec(0, env, ())
        return out
    for val in itertools.product(range(1, 5 if len(vs) < 4 else 4), repeat=len(vs)):
        env = dict(zip(vs, val))
        for z in vs:
            if z.k == "ix":
                env[z] -= 1
        if tuples(b1, own1, env) != tuples(b2, own2, env):
            return False
    return True
