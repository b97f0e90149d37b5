"""A coarser canonical form: equal here means equal, whatever the branching looks like.

Choices and conditions become ordered decision diagrams over their atomic conditions, and list operations under
exclusive conditions are put in one order.  Used to recognise rewritten code before anything is reported.
"""
from .terms import T, mk, const, is_const, TRUE, FALSE
from .norm import Norm
from .explain import Rebuild

LIMIT = 20000


class TooBig(Exception):
    pass


class Strong(Rebuild):
    def __init__(self):
        super().__init__({})
        self.it = {}
        self.steps = 0

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.steps += 1
            if self.steps > 200000:
                raise TooBig()
            r = self.memo[t] = self.build2(t)
        return r

    def rec(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.rec(y) for y in x)
        return x

    # ---- decision diagrams
    def atom(self, c):
        """(positive atom, polarity)"""
        d = self.n.mkneg(c)
        if c.k == "not":
            return d, False
        if d.k == "not" or c.id <= d.id:
            return c, True
        return d, False

    def cond(self, c):
        """a condition as a diagram with True/False leaves (children already strong)"""
        if c is TRUE or c is FALSE:
            return c
        if c.k == "sel" and self.boolean(c):
            return c
        if c.k == "bool":
            r = TRUE if c.a[0] == "and" else FALSE
            for x in c.a[1]:
                d = self.cond(x)
                r = self.ite(d, r, FALSE) if c.a[0] == "and" else self.ite(d, TRUE, r)
            return r
        if c.k == "not":
            return self.ite(self.cond(c.a[0]), FALSE, TRUE)
        if c.k == "sel":
            return self.ite(c.a[0] if self.boolean(c.a[0]) else self.node(c.a[0]), self.cond(c.a[1]), self.cond(c.a[2]))
        if c.k == "const" and isinstance(c.a[0], (int, float, str, type(None))):
            return TRUE if c.a[0] else FALSE
        return self.node(c)

    def node(self, c):
        a, pos = self.atom(c)
        return mk("sel", a, TRUE, FALSE) if pos else mk("sel", a, FALSE, TRUE)

    def boolean(self, t):
        return t is TRUE or t is FALSE or t.k == "sel" and self.boolean(t.a[1]) and self.boolean(t.a[2])

    def ite(self, f, g, h):
        if f is TRUE or g is h:
            return g
        if f is FALSE:
            return h
        key = (f, g, h)
        r = self.it.get(key)
        if r is not None:
            return r
        if len(self.it) > LIMIT:
            raise TooBig()
        v = min((x.a[0] for x in (f, g, h) if x.k == "sel"), key=lambda x: x.id)
        hi = lambda x: x.a[1] if x.k == "sel" and x.a[0] is v else x
        lo = lambda x: x.a[2] if x.k == "sel" and x.a[0] is v else x
        p, q = self.ite(hi(f), hi(g), hi(h)), self.ite(lo(f), lo(g), lo(h))
        r = p if p is q else mk("sel", v, p, q)
        self.it[key] = r
        return r

    # ---- rebuilding
    def build2(self, t):
        k = t.k
        if k == "sel":
            c, x, y = self(t.a[0]), self(t.a[1]), self(t.a[2])
            return self.ite(self.cond(c), x, y)
        if k in ("bool", "not"):
            a = tuple(self.rec(x) for x in t.a)
            return self.cond(mk(k, *a))
        if k == "cmp":
            r = self.build(t)
            return self.cond(r) if r.k in ("cmp", "not") else r
        if k == "app":
            a = tuple(self.rec(x) for x in t.a)
            g = TRUE
            for c in a[1]:
                g = self.ite(self.cond(c), g, FALSE)
            if len(a[0]) == 1 and g is TRUE and a[2].k == "sub" and a[2].a[1] is mk("ix", a[3]) and a[0][0] is mk("range", self.n.mklen(a[2].a[0])):
                return mk("all", a[2].a[0])
            return mk("app", a[0], (g,) if g is not TRUE else (), a[2], a[3])
        if k in ("seq", "tuple"):
            a = tuple(self.rec(x) for x in t.a)
            r = self.n.seq(self.order(a[0]), k)
            return r
        if k == "arr":
            a = tuple(self.rec(x) for x in t.a)
            return mk("arr", a[0], tuple(self.order(a[1])))
        return self.build(t)

    def exclusive(self, x, y):
        if x.k != "app" or y.k != "app" or x.a[0] != y.a[0] or not x.a[1] or not y.a[1]:
            return False
        return self.ite(x.a[1][0], y.a[1][0], FALSE) is FALSE

    def order(self, xs):
        """adjacent operations under exclusive conditions of the same loops: any order is the same"""
        xs = list(xs)
        for i in range(1, len(xs)):
            j = i
            while j > 0 and self.exclusive(xs[j - 1], xs[j]) and xs[j].id < xs[j - 1].id:
                xs[j - 1], xs[j] = xs[j], xs[j - 1]
                j -= 1
        return self.merge(xs)

    def forced(self, g, v):
        """a value under a guard: decisions the guard already took are removed"""
        if v.k != "sel":
            return v
        c = self.node(v.a[0]) if not self.boolean(v.a[0]) else v.a[0]
        if self.ite(c, g, FALSE) is FALSE:
            return self.forced(g, v.a[2])
        if self.ite(c, FALSE, g) is FALSE:
            return self.forced(g, v.a[1])
        return v

    def merge(self, xs):
        """two exclusive writes at one place are one write of the chosen value"""
        xs = list(xs)
        i = 0
        while i < len(xs):
            x = xs[i]
            if x.k == "app" and x.a[2].k in ("put", "aug"):
                j = i + 1
                while j < len(xs) and self.exclusive(x, xs[j]):
                    y = xs[j]
                    if y.a[2].k == x.a[2].k and y.a[2].a[:-1] == x.a[2].a[:-1] and y.a[3] == x.a[3]:
                        g1, g2 = x.a[1][0], y.a[1][0]
                        g = self.ite(g1, TRUE, g2)
                        v = self.ite(g1, x.a[2].a[-1], y.a[2].a[-1])
                        x = mk("app", x.a[0], (g,) if g is not TRUE else (), mk(x.a[2].k, *x.a[2].a[:-1], v), x.a[3])
                        del xs[j]
                        if not x.a[1]:
                            break
                        continue
                    j += 1
                if x.a[1] and x.a[2].a[-1].k == "sel":
                    x = mk("app", x.a[0], x.a[1], mk(x.a[2].k, *x.a[2].a[:-1], self.forced(x.a[1][0], x.a[2].a[-1])), x.a[3])
                xs[i] = x
            i += 1
        return xs


def same(a, b):
    S = Strong()
    try:
        return S(a) is S(b)
    except (TooBig, RecursionError):
        return False
