"""Root causes of a difference between two canonical values.

explain(ref, code) looks for a small set of replacements x -> y, each one evidence by the rules of diff.py, such that
replacing every x by y in the reference yields exactly the value of the code.  The search is liberal in where it looks for
x -> y and strict in what it accepts: only an exact match counts.
"""
from .terms import T, mk, walk
from .norm import Norm
from .diff import Diff

MAXNODES = 3000
WORK = 200000
ROUNDS = 16


class Rebuild:
    """Replace sub-terms and restore canonical order."""

    def __init__(self, mapping, rule=None):
        self.m = mapping
        self.rule = rule
        self.memo = {}
        self.n = Norm.__new__(Norm)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.m.get(t)
            if r is None:
                r = self.build(t)
                if self.rule is not None and r.k == self.rule[0].k:
                    th = {}
                    if match(self.rule[0], r, th):
                        r = Rebuild(th)(self.rule[1])
            self.memo[t] = r
        return r

    def rec(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.rec(y) for y in x)
        return x

    def build(self, t):
        a = tuple(self.rec(x) for x in t.a)
        if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(a, t.a)):
            return t
        k, n = t.k, self.n
        if k == "poly":
            p = {}
            for m, c in a[0]:
                q = {(): c}
                for f in m:
                    q = n.pmul(q, n.topoly(f))
                p = n.padd(p, q)
            return n.mkpoly(p)
        if k == "bool":
            return n.mkboolc(a[0], a[1])
        if k == "cmp":
            return n.cmp(*a)
        if k == "sel":
            return n.mksel(*a)
        if k == "not":
            return n.mkneg(a[0])
        if k == "phi":
            return mk("phi", tuple(sorted(set(a[0]), key=lambda x: x.id)))
        if k == "app":
            g = tuple(sorted(set(a[1]), key=lambda x: x.id))
            v = a[2]
            if len(a[0]) == 1 and not g and v.k == "sub" and v.a[1] is mk("ix", a[3]) and a[0][0] is mk("range", n.mklen(v.a[0])):
                return mk("all", v.a[0])
            return mk("app", a[0], g, v, a[3])
        if k == "sub":
            return n.mksub(a[0], a[1])
        if k == "len":
            return n.mklen(a[0])
        if k in ("seq", "tuple"):
            return n.seq(a[0], k)
        if k in ("mu", "eta") and a[1] is a[2]:
            return a[1]
        return mk(k, *a)


def match(p, t, th, fuel=None):
    fuel = [400] if fuel is None else fuel
    fuel[0] -= 1
    if fuel[0] < 0:
        return False
    if p is t:
        return True
    if p.k == "wild":
        if p in th:
            return th[p] is t
        th[p] = t
        return True
    if p.k != t.k or len(p.a) != len(t.a):
        return False

    def rec(x, y):
        if isinstance(x, T):
            return isinstance(y, T) and match(x, y, th, fuel)
        if isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y):
                return False
            if len(x) == 2 and (p.k == "bool" or p.k == "cmp"):
                for z in (y, y[::-1]):
                    keep = dict(th)
                    if all(rec(u, v) for u, v in zip(x, z)):
                        return True
                    th.clear()
                    th.update(keep)
                return False
            return all(rec(u, v) for u, v in zip(x, y))
        return not isinstance(y, T) and x == y
    if p.k == "cmp" and p.a[0] in ("eq", "is"):
        for y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            keep = dict(th)
            if p.a[0] == t.a[0] and rec(p.a[1], y[0]) and rec(p.a[2], y[1]):
                return True
            th.clear()
            th.update(keep)
        return False
    return all(rec(x, y) for x, y in zip(p.a, t.a))


def generalise(x, y):
    """The replacement for every unrolling of the loop-carried values both sides mention."""
    cy = nodes(y)
    m, todo, seen = {}, [x], set()
    while todo:
        z = todo.pop()
        if z in seen:
            continue
        seen.add(z)
        if z is not x and z in cy and z.k in ("mu", "rec"):
            m[z] = mk("wild", len(m))
            continue
        todo.extend(parts(z))
    if not m or len(seen) > 80:
        return None
    return Rebuild(m)(x), Rebuild(m)(y)


class Search(Diff):
    """The comparison of diff.py, recording every piece of evidence met on any alignment."""

    def __init__(self, fields):
        super().__init__()
        self.fields = fields
        self.stack = []
        self.found = []
        self.calls = 0
        self.explored = set()

    def diff(self, a, b):
        if a is b:
            return []
        self.calls += 1
        if (a, b) in self.memo:
            return self.memo[(a, b)]
        if self.calls > 6000 or len(self.stack) > 400:
            return [("unk", a, b, "budget")]
        self.stack.append((a, b))
        r = super().diff(a, b)
        self.stack.pop()
        return r

    def ev(self, a, b, why):
        # the pair the rule was applied to
        x, y = self.stack[-1] if self.stack else (a, b)
        self.found.append((x, y, why, tuple(self.stack[-9:-1])))
        return super().ev(a, b, why)

    def unk(self, a, b, why="different form"):
        if (a, b) not in self.explored and isinstance(a, T) and isinstance(b, T) and self.calls < 5000:
            self.explored.add((a, b))
            ca, cb = parts(a), parts(b)
            la = [x for x in ca if x not in cb]
            lb = [y for y in cb if y not in ca]
            if len(la) * len(lb) <= 64:
                for x in la:
                    for y in lb:
                        if x.k == y.k or "sel" in (x.k, y.k) or "poly" in (x.k, y.k) or a.k == b.k and len(ca) == len(cb):
                            self.diff(x, y)
        return super().unk(a, b, why)


def parts(t):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for x in t.a:
        rec(x)
    return out


def nodes(t):
    out = set()
    for x in walk(t):
        out.add(x)
        if len(out) > MAXNODES:
            break
    return out


def explain(a, b, fields=frozenset()):
    """[(x, y, why)] that turn a into b exactly, or None."""
    nb = nodes(b)
    if len(nb) > MAXNODES or len(nodes(a)) > MAXNODES:
        return None
    done = []
    used = set()
    work = 0
    for _ in range(ROUNDS):
        na = nodes(a)
        if len(na) > MAXNODES:
            return None
        S = Search(fields)
        try:
            S.diff(a, b)
        except RecursionError:
            return None
        cands = []
        seen = set()
        for x, y, why, anc in S.found:
            if S.verdict(S.memo.get((x, y), [("unk",)])) != "ev":
                continue            # part of the pair is unresolved
            if (x, y) not in seen:
                seen.add((x, y))
                cands.append((x, y, why))
            for p, q in reversed(anc):
                if (p, q) in seen:
                    continue
                if S.verdict(S.memo.get((p, q), [("unk",)])) != "ev":
                    break
                seen.add((p, q))
                cands.append((p, q, why))
        best = None
        base = (len(nb - na), len(na - nb))
        # restrict to pairs whose old side is absent from the code: the code must not keep the old form
        for x, y, why in cands[:400]:
            if (x, y) in used or x not in na or y not in nb or x in nb and x not in nodes(y):
                continue
            work += len(na)
            if work > WORK:
                return None
            gen = generalise(x, y)
            for rule in (None, gen) if gen else (None,):
                m = {x: y} if rule is None else {}
                try:
                    a2 = Rebuild(m, rule)(a)
                except RecursionError:
                    return None
                if a2 is b:
                    return done + [(x, y, why)]
                n2 = nodes(a2)
                sc = (len(nb - n2) + len(n2 - nb), len(n2))
                if best is None or sc < best[0]:
                    best = (sc, a2, (x, y, why))
        if best is None or best[0][0] >= sum(base):
            return None
        a = best[1]
        used.add(best[2][:2])
        done.append(best[2])
    return None
