"""Canonical, run-independent form of abstract values.

Allocations are replaced by what they were built from and every write they receive (with the loops and conditions of
the write), loop counters by their nesting level, helper calls are already inlined, copies and conversions disappear,
index arithmetic becomes a polynomial.  Two values with the same canonical form are computed the same way.
"""
from .terms import T, mk, const, NONE, is_const, show, walk
from .common import last

IDENT = {"list", "tuple", "numpy.array", "numpy.asarray", "numpy.copy", "copy.copy", "copy.deepcopy", "numpy.asanyarray",
         "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d", "numpy.ascontiguousarray", "iter", "float", "numpy.float64",
         "sklearn.utils.check_array", "sklearn.utils.validation.check_array", "numpy.reshape", "numpy.astype", "numpy.flatten",
         "numpy.tolist", "numpy.int64", "pandas.DataFrame", "numpy.item", "numpy.atleast_2d", "numpy.expand_dims"}
IDENTM = {"tolist", "copy", "flatten", "ravel", "astype", "item", "squeeze", "to_numpy", "reshape"}
SIG = {"numpy.sum": ("a", "axis"), "numpy.mean": ("a", "axis"), "numpy.min": ("a", "axis"), "numpy.max": ("a", "axis"), "numpy.amax": ("a", "axis"),
       "numpy.amin": ("a", "axis"), "numpy.argmax": ("a", "axis"), "numpy.argmin": ("a", "axis"), "numpy.any": ("a", "axis"), "numpy.all": ("a", "axis"),
       "numpy.argsort": ("a", "axis"), "numpy.sort": ("a", "axis"), "numpy.concatenate": ("a", "axis"), "numpy.std": ("a", "axis"),
       "numpy.var": ("a", "axis"), "numpy.median": ("a", "axis"), "numpy.cumsum": ("a", "axis"), "numpy.delete": ("arr", "obj", "axis"),
       "numpy.append": ("arr", "values", "axis"), "numpy.roll": ("a", "shift", "axis"), "numpy.unique": ("ar", "return_index", "return_inverse", "return_counts", "axis"),
       "numpy.insert": ("arr", "obj", "values", "axis"), "numpy.prod": ("a", "axis"), "numpy.repeat": ("a", "repeats", "axis"),
       "sorted": ("iterable",), "numpy.full": ("shape", "fill_value"), "numpy.random.choice": ("a", "size", "replace", "p")}
DEFAULT = {("numpy.sum", "axis"): None, ("numpy.argsort", "axis"): -1, ("numpy.concatenate", "axis"): 0, ("sorted", "reverse"): False,
           ("numpy.delete", "axis"): None, ("numpy.unique", "axis"): None, ("resample", "replace"): True, ("sorted", "key"): None,
           ("numpy.random.choice", "replace"): True}
DROPKW = {"dtype", "copy", "order", "estimator", "ensure_min_features", "ensure_2d", "force_all_finite", "ensure_all_finite"}


LIMIT = 400000
DEPTH = 5      # unrollings of values that depend on themselves


LINEAR = {"numpy.sum", "numpy.mean", "numpy.dot"}


def canon_name(fn):
    """One spelling for functions importable from several places."""
    for a, b in (("scipy.stats.distributions.", "scipy.stats."), ("scipy.stats._continuous_distns.", "scipy.stats."), ("sklearn.utils.validation.", "sklearn.utils."),
                 ("sklearn.linear_model._base.", "sklearn.linear_model."), ("numpy.core.", "numpy."), ("scipy.optimize._linear_sum_assignment.", "scipy.optimize.")):
        if fn.startswith(a):
            return b + fn[len(a):]
    return fn


class Norm:
    def __init__(self, run):
        self.run = run
        self.I = run.I
        self.memo = {}
        self.dmemo, self.rmemo, self.smemo, self.cmemo, self.hmemo, self.bodies = {}, {}, {}, {}, {}, {}
        self.writes, self.twrites = {}, {}
        self.busy = []
        self.index_writes(self.I.events)
        self.count = 0

    def index_writes(self, events):
        for e in events:
            if e.kind == "store" or e.kind == "mutcall" or (e.kind == "append" and e.d["comp"]):
                b = self.I.strip_mu(e.d["base"])
                while e.kind in ("store", "mutcall") and b.k == "sub":
                    b = self.I.strip_mu(b.a[0])
                self.add_write(b, e)
            elif e.kind == "ecall" and e.d["args"] and e.d["fn"] in ("numpy.fill_diagonal", "numpy.copyto", "numpy.put", "numpy.random.shuffle"):
                self.add_write(self.I.strip_mu(e.d["args"][0]), e)

    def add_write(self, b, e, d=0):
        """Writes belong to the allocation, or to the value itself when it is an argument, attribute or library result."""
        if b.k == "obj":
            self.writes.setdefault(b.a[0], []).append(e)
        elif b.k in ("bin", "un", "call", "meth", "param", "fld", "post", "attr"):
            self.twrites.setdefault(b, []).append(e)
        elif b.k in ("sel", "eta") and d < 3:
            for x in b.a[-2:]:
                self.add_write(self.I.strip_mu(x), e, d + 1)

    # ------------------------------------------------------------ entry
    def value(self, t, loops=()):
        return self.n(t, {l: i for i, l in enumerate(loops)}, DEPTH)

    def ctx(self, ctx, skip=0, st=None):
        """(binders, guards) of a path condition beyond its first `skip` entries."""
        env, binders, guards = {}, [], set()
        i = 0
        for j, c in enumerate(ctx):
            if c[0] == "l":
                b = self.binder(c[1], env, st)
                env = dict(env)
                env[c[1]] = i
                i += 1
                if j >= skip:
                    binders.append(b)
            elif j >= skip and (c[1], c[2]) not in self.I.vguards:
                guards |= self.guard(c[1], c[2], env, st)
        return tuple(binders), frozenset(guards), env

    def guard(self, c, pol, env, st=None):
        """Conjunction flattened to a set of canonical conditions."""
        if not pol:
            c2 = self.I.mknot(c)
        else:
            c2 = c
        if c2.k == "bool" and c2.a[0] == "and":
            out = set()
            for x in c2.a[1]:
                out |= self.guard(x, True, env, st)
            return out
        return {self.n(c2, env, st)}

    def binder(self, lid, env, st=None, plain=False):
        li = self.I.loopinfo[lid]
        it = li["iter"]
        r = mk("while") if li["kind"] == "while" else self.extent(it, env, st)
        stops = [] if plain else self.I.loopstop.get(lid, [])
        if not stops:
            return r
        e2 = dict(env)
        e2[lid] = self.level(lid, env)
        cs = []
        for suffix in stops:
            c = self.I.conj(suffix)
            if c is None:
                return mk("until", r, const(True))
            cs.append(self.n(c, e2, st))
        return mk("until", r, cs[0] if len(cs) == 1 else self.mkboolc("or", cs))

    def extent(self, it, env, st=None):
        it = self.I.loop_value(it)
        if it.k == "call":
            fn, a = it.a[0], it.a[1]
            if fn in ("range", "numpy.arange"):
                lo, hi, step = const(0), a[0] if a else NONE, const(1)
                if len(a) >= 2:
                    lo, hi = a[0], a[1]
                if len(a) == 3:
                    step = a[2]
                if is_const(step, 1):
                    return mk("range", self.poly(mk("bin", "Sub", hi, lo), env, st))
                if is_const(step, -1):
                    return mk("range", self.poly(mk("bin", "Sub", lo, hi), env, st))
                return mk("range3", self.n(lo, env, st), self.n(hi, env, st), self.n(step, env, st))
            if fn in ("enumerate", "list", "tuple", "iter", "reversed") and a:
                return self.extent(a[0], env, st)
            if fn == "zip" and a:
                return mk("range", self.n(self.I.mklen(self.I.loop_value(a[0])), env, st))
        if it.k == "meth" and it.a[1] in ("items", "keys", "values"):
            return mk("range", mk("len", self.n(it.a[0], env, st)))
        if it.k == "obj":
            org = self.I.origin.get(it.a[0])
            if org is not None and org.k == "call" and org.a[0] in ("range", "numpy.arange") and not self.writes.get(it.a[0]):
                return self.extent(org, env, st)
        ln = self.I.mklen(it)
        return mk("range", self.n(ln, env, st))

    # ------------------------------------------------------------ terms
    def n(self, t, env, stack):
        if stack is None or stack == ():
            stack = DEPTH
        key = (t, frozenset(env.items()), stack if self.has_cycle(t) else -1)
        r = self.memo.get(key)
        if r is None:
            self.count += 1
            if self.count > LIMIT:
                raise RuntimeError("normal form too large")
            r = self._n(t, env, stack) if t not in self.twrites else self.written(t, env, stack)
            self.memo[key] = r
        return r

    def written(self, t, env, st):
        """A value that is later written to in place."""
        if not self.cyclic(("t", t)):
            return mk("arr", self._n(t, env, st), tuple(self.branches(self.write(e, self.skip(e, env), st) for e in self.twrites[t])))
        if st == 0:
            return mk("rec", "t")
        return mk("arr", self._n(t, env, st - 1), tuple(self.branches(self.write(e, self.skip(e, env), st - 1) for e in self.twrites[t])))

    def skip(self, e, env):
        """Leading loops of the write that are already open where the value is looked at."""
        k = 0
        for j, c in enumerate(e.ctx):
            if c[0] == "l":
                if c[1] not in env:
                    break
                k = j + 1
        return k

    def direct(self, t):
        """Allocations, loop-carried values and functions mentioned in a term."""
        r = self.dmemo.get(t)
        if r is None:
            out = set()
            self.dmemo[t] = frozenset()
            for x in walk(t):
                if x.k == "obj":
                    out.add(("o", x.a[0]))
                elif x.k == "mu":
                    out.add(("mu", x.a[0], x.a[1]))
                elif x.k == "func":
                    out.add(("f", x.a[0]))
                if x in self.twrites:
                    out.add(("t", x))
                if x.k in ("idx", "eta", "loopexit", "ndidx", "mu"):
                    out.add(("l", x.a[0]))
            r = self.dmemo[t] = frozenset(out)
        return r

    def succ(self, tag):
        I = self.I
        if tag[0] in "ot":
            out = set()
            org = I.origin.get(tag[1]) if tag[0] == "o" else None
            if org is not None:
                out |= self.direct(org)
            for e in self.writes.get(tag[1], []) if tag[0] == "o" else self.twrites[tag[1]]:
                for v in e.d.values():
                    for x in (v if isinstance(v, (tuple, list)) else [v]):
                        if isinstance(x, T):
                            out |= self.direct(x)
                for c in e.ctx:
                    out |= {("l", c[1])} if c[0] == "l" else self.direct(c[1])
            return out
        if tag[0] == "mu":
            u = I.mu_update.get((tag[1], tag[2]))
            return set(self.direct(u)) if u is not None else set()
        if tag[0] == "l":
            it = I.loopinfo.get(tag[1], {}).get("iter")
            out = set(self.direct(it)) if isinstance(it, T) else set()
            for suffix in I.loopstop.get(tag[1], []):
                for c in suffix:
                    out |= {("l", c[1])} if c[0] == "l" else self.direct(c[1])
            return out
        return set()

    def reach(self, t):
        r = self.rmemo.get(t)
        if r is None:
            seen, todo = set(), list(self.direct(t))
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(self.succ_of(x) - seen)
            r = self.rmemo[t] = seen
        return r

    def cyclic(self, tag):
        r = self.cmemo.get(tag)
        if r is None:
            seen, todo = set(), list(self.succ_of(tag))
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo.extend(self.succ_of(x) - seen)
            r = self.cmemo[tag] = tag in seen
        return r

    def succ_of(self, x):
        if x not in self.smemo:
            self.smemo[x] = self.succ(x)
        return self.smemo[x]

    def has_cycle(self, t):
        r = self.hmemo.get(t)
        if r is None:
            r = self.hmemo[t] = any(x[0] != "l" and self.cyclic(x) for x in self.reach(t))
        return r

    def env_at(self, ctx):
        return {l: i for i, l in enumerate(c[1] for c in ctx if c[0] == "l")}

    def _n(self, t, env, st):
        I = self.I
        N = lambda x: self.n(x, env, st)
        k, a = t.k, t.a
        if k in ("const",):
            v = a[0]
            if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 and v == v else False:
                return const(int(v))
            return t
        if k in ("param", "ext", "cbarg"):
            if k == "ext" and a[0].split(".")[-1] in ("nan", "NaN"):
                return mk("ext", "nan")
            if k == "cbarg":
                return mk("cbarg", a[1])
            return t
        if k == "fld":
            if a[0].k in ("obj", "objref"):
                if self.run.self_term is not None and a[0].a[0] == self.run.self_term.a[0]:
                    return mk("fld", "self", a[1])
                return mk("fld", "other", a[1])
            return mk("fld", N(a[0]), a[1])
        if k == "idx":
            lid, lo, hi, step = a
            if lid in env:
                ix = mk("ix", env[lid])
            else:
                ix = mk("ixend", self.binder(lid, env, st))
            if is_const(step, 1):
                if is_const(lo, 0):
                    return ix
                return self.mkpoly(self.padd(self.topoly(N(lo)), self.topoly(ix)))
            if is_const(step, -1):
                return self.mkpoly(self.padd(self.topoly(N(lo)), self.topoly(ix), -1))
            return mk("idx3", ix, N(lo), N(step))
        if k == "ndidx":
            return mk("ndix", env.get(a[0], -1), tuple(N(x) for x in a[1]))
        if k == "len":
            b = N(a[0])
            return self.mklen(b)
        if k == "attr":
            b = N(a[0])
            if a[1] == "T":
                return self.transpose(b)
            if a[1] == "values":
                return b
            return mk("attr", b, a[1])
        if k == "sub":
            return self.sub(a[0], a[1], env, st)
        if k == "tuple":
            return self.seq([self.piece(x, env, st) for x in a[0]], "tuple")
        if k == "slice":
            return mk("slice", N(a[0]), N(a[1]), N(a[2]))
        if k == "bin":
            if a[0] in ("Add", "Sub", "Mult", "Div", "Pow"):
                return self.poly(t, env, st)
            return mk("bin", a[0], N(a[1]), N(a[2]))
        if k == "un":
            if a[0] == "USub":
                return self.poly(t, env, st)
            return mk("un", a[0], N(a[1]))
        if k == "not":
            return self.mkneg(N(a[0]))
        if k == "cmp":
            return self.cmp(a[0], N(a[1]), N(a[2]))
        if k == "bool":
            return self.mkboolc(a[0], [N(x) for x in a[1]])
        if k == "sel":
            return self.mksel(N(a[0]), N(a[1]), N(a[2]))
        if k == "phi":
            return mk("phi", tuple(sorted({N(x) for x in a[0]}, key=lambda x: x.id)))
        if k == "eta":
            e2 = dict(env)
            e2[a[0]] = self.level(a[0], env)
            x, y = N(a[2]), self.n(a[3], e2, st)
            if x is y:
                return x
            if a[2].k == "unbound":
                return y
            plain = (a[0], a[1]) in I.eta_plain
            f = self.found(a[0], a[1], a[3], x, env, e2, st)
            if f is not None:
                return f
            f = self.folded(a, x, y, env, e2, st, plain)
            if f is not None:
                return f
            return mk("eta", self.binder(a[0], env, st, plain), x, y)
        if k == "mu":
            u = I.mu_update.get((a[0], a[1]))
            if u is None or u is t:
                return N(a[2])
            tag = ("mu", a[0], a[1])
            if self.only_obj(t):
                return N(I.strip_mu(t))
            if st == 0:
                return mk("rec", "mu")
            key = (tag, a[2], st)
            if key not in self.bodies:
                e2 = self.env_at(I.loopctx[a[0]]) if a[0] in I.loopctx else {a[0]: 0}
                e1 = {l: v for l, v in e2.items() if l != a[0]}
                x, y = self.n(a[2], e1, st), self.n(u, e2, st - 1)
                self.bodies[key] = x if x is y else mk("mu", e2[a[0]], x, y)
            return self.bodies[key]
        if k == "call":
            return self.call(t, env, st)
        if k == "meth":
            if a[1] in IDENTM:
                return N(a[0])
            return mk("meth", N(a[0]), a[1], tuple(N(x) for x in a[2]), tuple(sorted((n, N(v)) for n, v in a[3] if n not in DROPKW)) if a[3] else ())
        if k == "obj":
            return self.obj(t, env, st)
        if k == "func":
            return self.func(t, env, st)
        if k == "bound":
            return mk("bound", N(a[0]), self.func(a[1], env, st))
        if k in ("elemof", "star"):
            return mk("all", N(a[0]))
        if k == "fstr":
            return mk("fstr", tuple(N(x) for x in a[0]))
        if k == "modconst":
            return mk("modconst", a[1], tuple(N(x) for x in a[2])) if isinstance(a[2], tuple) else mk("modconst", a[1])
        if k == "frozenitems":
            return mk("tuple", tuple(N(x) for x in a[0]))
        if k in ("cls", "mod"):
            return t
        if k == "post":
            return mk("post", N(a[0]), a[1])
        if k == "exc":
            return mk("exc")
        if k == "unbound":
            return mk("unbound")
        if k == "callv":
            return mk("callv", N(a[0]), tuple(N(x) for x in a[1]), tuple((n, N(v)) for n, v in a[2]))
        if k == "loopexit":
            e2 = dict(env)
            e2[a[0]] = self.level(a[0], env)
            return mk("loopexit", self.binder(a[0], env, st, True), self.n(a[1], e2, st))
        if k == "objref":
            return mk("objref")

        def rec(x):
            if isinstance(x, T):
                return N(x)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        return mk(k, *[rec(x) for x in a])

    def transpose(self, b):
        if b.k == "call" and b.a[0] == "numpy.transpose" and len(b.a[1]) == 1 and not b.a[2]:
            return b.a[1][0]
        if b.k == "call" and b.a[0] == "numpy.dot" and len(b.a[1]) == 2 and not b.a[2]:
            return mk("call", "numpy.dot", (self.transpose(b.a[1][1]), self.transpose(b.a[1][0])), ())
        f, x = self.unscale(b)
        if x is not b:
            return self.mkpoly(self.pmul(f, self.topoly(self.transpose(x))))
        return mk("call", "numpy.transpose", (b,), ())

    def found(self, lid, name, upd, x, env, e2, st):
        """x, replaced by a fixed value once some iteration meets a condition."""
        if upd.k != "sel" or self.I.loopinfo[lid]["kind"] == "while":
            return None
        c, p, q = upd.a
        own = lambda t: t.k == "mu" and t.a[0] == lid and t.a[1] == name
        inside = lambda t: any(y.k in ("mu", "idx", "ndidx") and y.a[0] == lid for y in walk(t))
        if own(q) and not inside(p):
            v, neg = p, False
        elif own(p) and not inside(q):
            v, neg = q, True
        else:
            return None
        if any(own(y) for y in walk(c)):
            return None
        stops = self.I.loopstop.get(lid, [])
        if stops and (lid, name) not in self.I.eta_plain:
            return None
        cc = self.n(c, e2, st)
        return self.mksel(mk("loopexit", self.binder(lid, env, st, True), self.mkneg(cc) if neg else cc), self.n(v, env, st), x)

    def folded(self, a, x, y, env, e2, st, plain):
        """A loop that only adds to, or keeps the largest or smallest of, one value."""
        if self.I.loopinfo[a[0]]["kind"] == "while":
            return None
        m = self.n(mk("mu", a[0], a[1], a[2]), e2, st)
        if m.k != "mu":
            return None
        free = lambda t: not any(z is m or z.k == "rec" for z in walk(t))
        b, l = self.binder(a[0], env, st, plain), e2[a[0]]
        c = self.choice(m, y)
        if c is not None and free(c[1]):
            return mk("fold", c[0], x, (mk("app", (b,), (), c[1], l),))
        ps = self.added(m, y, b, l, free)
        if not ps:
            return None
        z = mk("fold", "sum", const(0), tuple(sorted(set(ps), key=lambda t: t.id)))
        return self.mkpoly(self.padd(self.topoly(x), self.topoly(z))) if len(set(ps)) == len(ps) else None

    def choice(self, m, y):
        """("max" or "min", other) if y is the larger or smaller of m and other"""
        if y.k != "sel":
            return None
        c, p, q = y.a
        if c.k == "not":
            c, p, q = c.a[0], q, p
        if p is not m and q is not m or c.k != "cmp" or c.a[0] not in ("lt", "le"):
            return None
        f = q if p is m else p
        lo, hi = c.a[1], c.a[2]
        if {lo, hi} != {m, f}:
            d = self.padd(self.topoly(f), self.topoly(m), -1)
            if c.a[0] == "lt" and is_const(lo, 0) and self.mkpoly(d) is hi:
                lo, hi = m, f
            elif c.a[0] == "lt" and is_const(lo, 0) and self.mkpoly({k: -v for k, v in d.items()}) is hi:
                lo, hi = f, m
            else:
                return None
        return "max" if (p, q) == (hi, lo) else "min", f

    def added(self, m, y, b, l, free):
        """What y adds to m: pieces of a sum over the loop, or None."""
        if y is m:
            return []
        if y.k == "sel":
            if not free(y.a[0]):
                return None
            p, q = self.added(m, y.a[1], b, l, free), self.added(m, y.a[2], b, l, free)
            if p is None or q is None:
                return None
            plain = lambda r: len(r) == 1 and r[0].k == "app" and r[0].a[0] == (b,) and not r[0].a[1]
            if plain(p) and plain(q):
                return [mk("app", (b,), (), self.mksel(y.a[0], p[0].a[2], q[0].a[2]), l)]
            out = []
            for r, c in ((p, y.a[0]), (q, self.mkneg(y.a[0]))):
                for z in r:
                    g = set(z.a[1]) | (set(c.a[1]) if c.k == "bool" and c.a[0] == "and" else {c})
                    out.append(mk("app", z.a[0], tuple(sorted(g, key=lambda t: t.id)), z.a[2], l))
            return out
        if y.k != "poly":
            return None
        p = dict(y.a[0])
        if p.pop((m,), None) != 1:
            return None
        out = []
        for k in list(p):
            if p[k] == 1 and len(k) == 1 and k[0].k == "fold" and k[0].a[0] == "sum" and free(k[0]) and all(z.k == "app" and z.a[3] == l + 1 for z in k[0].a[2]):
                out += [mk("app", (b,) + z.a[0], z.a[1], z.a[2], l) for z in k[0].a[2]]
                del p[k]
        if p:
            r = self.mkpoly(p)
            if not free(r):
                return None
            out.append(mk("app", (b,), (), r, l))
        return out

    def only_obj(self, t):
        return self.I.strip_mu(t).k == "obj" and self.I.strip_mu(self.I.mu_update.get((t.a[0], t.a[1]), t)) is self.I.strip_mu(t)

    def level(self, lid, env):
        return env[lid] if lid in env else (max(env.values()) + 1 if env else 0)

    def mklen(self, b):
        if b.k == "tuple" and not any(x.k in ("all", "app") for x in b.a[0]):
            return const(len(b.a[0]))
        if b.k == "seq" and len(b.a[0]) == 1 and b.a[0][0].k == "app" and not b.a[0][0].a[1] and len(b.a[0][0].a[0]) == 1:
            r = b.a[0][0].a[0][0]
            if r.k == "range":
                return r.a[0]
        if b.k == "arr":
            return self.mklen(b.a[0])
        if b.k == "call" and b.a[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full") and b.a[1]:
            sh = b.a[1][0]
            if sh.k == "tuple" and sh.a[0] and sh.a[0][0].k not in ("all", "app"):
                return sh.a[0][0]
            if sh.k in ("const", "poly", "len", "param"):
                return sh
        if b.k == "call" and b.a[0] in ("range", "numpy.arange") and len(b.a[1]) == 1:
            return b.a[1][0]
        return mk("len", b)

    # ------------------------------------------------------------ subscripts
    def sub(self, base, idx, env, st):
        b, i = self.n(base, env, st), self.n(idx, env, st) if idx.k != "tuple" else mk("tuple", tuple(self.n(x, env, st) for x in idx.a[0]))
        return self.mksub(b, i)

    def scalar(self, i):
        return i.k in ("ix", "poly", "param", "fld", "len") or i.k == "const" and isinstance(i.a[0], int) and not isinstance(i.a[0], bool)

    def mksub(self, b, i):
        full = lambda s: s.k == "slice" and all(is_const(x, None) for x in s.a)
        parts = list(i.a[0]) if i.k == "tuple" else [i]
        while parts and full(parts[-1]):
            parts.pop()
        if not parts:
            return b
        if b.k == "tuple" and len(parts) == 1 and parts[0].k == "const" and isinstance(parts[0].a[0], int) and \
                -len(b.a[0]) <= parts[0].a[0] < len(b.a[0]) and not any(x.k in ("all", "app") for x in b.a[0]):
            return b.a[0][parts[0].a[0]]
        # element of [f(x_i) for i in range(n)]
        if b.k == "seq" and len(b.a[0]) == 1 and b.a[0][0].k == "app" and len(b.a[0][0].a[0]) == 1 and not b.a[0][0].a[1] \
                and b.a[0][0].a[0][0].k == "range" and parts[0].k == "ix":
            v = b.a[0][0].a[2]
            lv = b.a[0][0].a[3]
            from .terms import subst
            v = subst(v, lambda x: parts[0] if x is mk("ix", lv) else None)
            return self.mksub(v, mk("tuple", tuple(parts[1:]))) if len(parts) > 1 else v
        if b.k == "attr" and b.a[1] == "shape" and len(parts) == 1 and is_const(parts[0], 0):
            return self.mklen(b.a[0])
        if b.k == "sub":
            p0 = list(b.a[1].a[0]) if b.a[1].k == "tuple" else [b.a[1]]
            if all(self.scalar(x) for x in p0):
                parts = p0 + parts
                b = b.a[0]
        return mk("sub", b, mk("tuple", tuple(parts)) if len(parts) > 1 else parts[0])

    # ------------------------------------------------------------ conditions
    def mkneg(self, c):
        """Canonical negation of a canonical condition."""
        if c.k == "not":
            return c.a[0]
        if c.k == "const" and (c.a[0] is None or isinstance(c.a[0], (bool, int, float, str))):
            return const(not c.a[0])
        if c.k == "cmp":
            op, x, y = c.a
            if op == "lt":
                return self.cmp("le", y, x)
            if op == "le":
                return self.cmp("lt", y, x)
        if c.k == "bool":
            return self.mkboolc("or" if c.a[0] == "and" else "and", [self.mkneg(x) for x in c.a[1]])
        return mk("not", c)

    def mkboolc(self, op, parts):
        flat = set()
        for x in parts:
            flat |= set(x.a[1]) if x.k == "bool" and x.a[0] == op else {x}
        flat = sorted(flat, key=lambda x: x.id)
        return mk("bool", op, tuple(flat)) if len(flat) > 1 else flat[0]

    def mksel(self, c, x, y):
        """One polarity for every choice."""
        if x is y:
            return x
        if is_const(c, True) or is_const(c, False):
            return x if c.a[0] else y
        if (x.k == "unbound" or y.k == "unbound") and not any(z.k == "ix" for z in walk(c)):
            return y if x.k == "unbound" else x
        d = self.mkneg(c)
        if d.k != "not" and (c.k == "not" or c.k != "bool" and d.id < c.id or c.k == "bool" and (c.a[0] == "or")):
            c, x, y = d, y, x
        return mk("sel", c, x, y)

    # ------------------------------------------------------------ comparisons
    def intlike(self, t):
        if t.k == "poly":
            return all(isinstance(c, int) and all(self.intlike(f) for f in m) for m, c in t.a[0])
        return t.k in ("ix", "len") or t.k == "const" and isinstance(t.a[0], int)

    def cmp(self, op, x, y):
        if op == "le" and self.intlike(x) and self.intlike(y):
            return self.cmp("lt", x, self.mkpoly(self.padd(self.topoly(y), {(): 1})))
        if op == "lt" and self.intlike(x) and self.intlike(y):
            p = self.padd(self.topoly(y), self.topoly(x), -1)
            ls = [m for m in p if m]
            if len(ls) == 1 and len(ls[0]) == 1 and ls[0][0].k == "len" and (p[ls[0]], p.get((), 0)) in ((1, 0), (-1, 1)):
                return ls[0][0].a[0] if p[ls[0]] == 1 else self.mkneg(ls[0][0].a[0])
            return mk("cmp", "lt", const(0), self.mkpoly(p))
        if op in ("eq", "lt", "le") and "poly" in (x.k, y.k) and not (is_const(x, 0) and op != "eq"):
            p = self.padd(self.topoly(y), self.topoly(x), -1)
            if op != "eq":
                return mk("cmp", op, const(0), self.mkpoly(p)) if p else const(op == "le")
            if not p:
                return const(True)
            ms = sorted(p.items(), key=lambda mc: tuple(z.id for z in mc[0]))
            if len(ms) == 2 and ms[0][1] == -ms[1][1]:
                x, y = (self.mkpoly({m: 1}) for m, _ in ms)
            elif len(ms) == 2 and not ms[0][0] and ms[1][1] in (1, -1):
                x, y = const(-ms[0][1] * ms[1][1]), self.mkpoly({ms[1][0]: 1})
            elif len(ms) == 1:
                x, y = const(0), self.mkpoly({ms[0][0]: 1})
            else:
                s = 1 if ms[0][1] > 0 else -1
                x, y = const(0), self.mkpoly({m: s * c for m, c in ms})
        if op in ("eq", "is"):
            for p, q in ((x, y), (y, x)):
                if p.k == "const" and isinstance(p.a[0], bool) and q.k not in ("const", "ix"):
                    return q if p.a[0] else self.mkneg(q)
                if is_const(p, 0) and q.k == "len" and op == "eq":
                    return self.mkneg(q.a[0])       # empty
            if x.id > y.id:
                x, y = y, x
        return mk("cmp", op, x, y)

    # ------------------------------------------------------------ polynomials
    def poly(self, t, env, st):
        return self.mkpoly(self.p(t, env, st))

    def p(self, t, env, st, d=0):
        t2 = t
        if d < 40:
            if t2.k == "bin":
                op, x, y = t2.a
                if op in ("Add", "Sub"):
                    return self.padd(self.p(x, env, st, d + 1), self.p(y, env, st, d + 1), 1 if op == "Add" else -1)
                if op == "Mult":
                    return self.pmul(self.p(x, env, st, d + 1), self.p(y, env, st, d + 1))
                if op == "Div":
                    den = self.mkpoly(self.p(y, env, st, d + 1))
                    if den.k == "const" and isinstance(den.a[0], (int, float)) and den.a[0]:
                        return self.pmul(self.p(x, env, st, d + 1), {(): 1 / den.a[0]})
                    return self.pmul(self.p(x, env, st, d + 1), {(mk("inv", den),): 1})
                if op == "Pow":
                    e = self.mkpoly(self.p(y, env, st, d + 1))
                    if e.k == "const" and isinstance(e.a[0], int) and 1 <= e.a[0] <= 4:
                        r = b = self.p(x, env, st, d + 1)
                        for _ in range(e.a[0] - 1):
                            r = self.pmul(r, b)
                        return r
                    return {(mk("bin", "Pow", self.mkpoly(self.p(x, env, st, d + 1)), e),): 1}
            if t2.k == "un" and t2.a[0] == "USub":
                return self.padd({}, self.p(t2.a[1], env, st, d + 1), -1)
        return self.topoly(self.n(t2, env, st))

    def topoly(self, n):
        if n.k == "poly":
            return {m: c for m, c in n.a[0]}
        if n.k == "const" and isinstance(n.a[0], (int, float)) and not isinstance(n.a[0], bool):
            return {(): n.a[0]} if n.a[0] else {}
        return {(n,): 1}

    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + s * c
            if r[m] == 0:
                del r[m]
        return r

    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > 64:
            return {(mk("prod", self.mkpoly(a), self.mkpoly(b)),): 1}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                fs = list(m1 + m2)
                # x * inv(x) cancels
                for f in list(fs):
                    if f.k == "inv" and f.a[0] in fs:
                        fs.remove(f)
                        fs.remove(f.a[0])
                m = tuple(sorted(fs, key=lambda x: x.id))
                r[m] = r.get(m, 0) + c1 * c2
                if r[m] == 0:
                    del r[m]
        return r

    def mkpoly(self, p):
        if not p:
            return const(0)
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                return const(int(c) if isinstance(c, float) and c == int(c) else c)
            if c == 1 and len(m) == 1:
                return m[0]
        return mk("poly", tuple(sorted(p.items(), key=lambda mc: tuple(x.id for x in mc[0]))))

    # ------------------------------------------------------------ calls
    def call(self, t, env, st):
        fn, args, kws = t.a
        fn = canon_name(fn)
        N = lambda x: self.n(x, env, st)
        if fn in IDENT and args:
            return N(args[0])
        if fn == "range" or fn == "numpy.arange":
            if len(args) == 2 and is_const(args[0], 0):
                args = args[1:]
            return mk("call", "range", tuple(N(x) for x in args), ())
        if fn == "numpy.abs" or fn == "numpy.absolute":
            fn = "abs"
        if fn == "numpy.multiply" and len(args) == 2 and not kws:
            return self.poly(mk("bin", "Mult", *args), env, st)
        if fn in ("numpy.add", "numpy.subtract", "numpy.divide") and len(args) == 2 and not kws:
            return self.poly(mk("bin", {"add": "Add", "subtract": "Sub", "divide": "Div"}[last(fn)], *args), env, st)
        if fn == "numpy.square" and len(args) == 1:
            return self.poly(mk("bin", "Pow", args[0], const(2)), env, st)
        if fn == "numpy.power" and len(args) == 2:
            return self.poly(mk("bin", "Pow", *args), env, st)
        if fn == "numpy.negative" and len(args) == 1:
            return self.poly(mk("un", "USub", args[0]), env, st)
        if fn in ("numpy.matmul",):
            fn = "numpy.dot"
        fn = {"numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.nonzero": "numpy.where", "numpy.true_divide": "numpy.divide",
              "numpy.identity": "numpy.eye", "numpy.diagonal": "numpy.diag", "math.sqrt": "numpy.sqrt", "math.log": "numpy.log", "math.exp": "numpy.exp",
              "math.isnan": "numpy.isnan", "math.fabs": "abs", "numpy.fabs": "abs", "numpy.alltrue": "numpy.all", "numpy.vectorize": "map"}.get(fn, fn)
        if fn in ("numpy.cov", "numpy.corrcoef") and args and any(n == "rowvar" and v.k == "const" and not v.a[0] for n, v in kws):
            return mk("call", fn, (self.transpose(N(args[0])),) + tuple(N(x) for x in args[1:]), tuple(sorted((n, N(v)) for n, v in kws if n not in DROPKW and n != "rowvar")))
        if fn == "numpy.flatnonzero" and len(args) == 1:
            return self.mksub(mk("call", "numpy.where", (N(args[0]),), ()), const(0))
        if fn == "numpy.argwhere" and len(args) == 1:
            return self.transpose(mk("call", "numpy.where", (N(args[0]),), ()))
        sig = SIG.get(fn)
        pos = list(args)
        kw = {n: v for n, v in kws if n not in DROPKW}
        if sig and len(pos) > 1:
            for nme, v in zip(sig[1:], pos[1:]):
                if nme == "axis" or fn in ("numpy.random.choice",) or nme.startswith("return_"):
                    kw[nme] = v
                else:
                    kw["#" + nme] = v
            pos = pos[:1]
        elif sig:
            for nme in sig[1:]:
                if nme in kw and not (nme == "axis" or fn in ("numpy.random.choice",) or nme.startswith("return_")):
                    kw["#" + nme] = kw.pop(nme)
        kwn = {}
        for n, v in kw.items():
            d = DEFAULT.get((fn, n), DEFAULT.get((last(fn), n), ...))
            if d is not ... and is_const(v, d):
                continue
            kwn[n] = N(v)
        if fn == "numpy.concatenate" and pos:
            its = self.I.known_list(self.I.strip_mu(pos[0])) if self.I.strip_mu(pos[0]).k in ("obj", "tuple") else None
            if its is not None and not kwn and not any(x.k in ("elemof", "star") for x in its):
                return self.seq([mk("all", N(x)) for x in its], "cat")
        if fn in ("any", "all", "numpy.any", "numpy.all") and len(pos) == 1 and not kwn:
            q = N(pos[0])
            if q.k == "seq" and len(q.a[0]) == 1 and q.a[0][0].k == "app":
                ap = q.a[0][0]
                c = ap.a[2] if last(fn) == "any" else self.mkneg(ap.a[2])
                c = self.mkboolc("and", list(ap.a[1]) + [c])
                for b in reversed(ap.a[0]):
                    c = mk("loopexit", b, c)
                return c if last(fn) == "any" else self.mkneg(c)
            return mk("call", last(fn) if fn in ("any", "all") else fn, (q,), ())
        if fn in ("sum", "numpy.sum", "math.fsum") and len(pos) == 1 and not kwn:
            q = N(pos[0])
            if q.k == "seq" and q.a[0] and all(z.k == "app" for z in q.a[0]):
                return mk("fold", "sum", const(0), tuple(sorted(q.a[0], key=lambda t: t.id)))
        if fn in ("max", "min") and len(pos) == 2 and not kwn:
            x, y = N(pos[0]), N(pos[1])
            if x is y:
                return x
            if x.k != "all" and y.k != "all":
                return self.mksel(self.cmp("lt", *((x, y) if fn == "max" else (y, x))), y, x)
        if fn == "numpy.transpose" and len(pos) == 1 and not kwn:
            return self.transpose(N(pos[0]))
        pos = [N(x) for x in pos]
        if fn in LINEAR and any(x.k == "poly" for x in pos):
            scale, rest = {(): 1}, []
            for x in pos:
                f, x = self.unscale(x)
                scale = self.pmul(scale, f)
                rest.append(x)
            v = mk("call", fn, tuple(rest), tuple(sorted(kwn.items())))
            return v if scale == {(): 1} else self.mkpoly(self.pmul(scale, self.topoly(v)))
        return mk("call", fn, tuple(pos), tuple(sorted(kwn.items())))

    def unscale(self, t):
        """(scalar factor, rest) of a product"""
        if t.k != "poly" or len(t.a[0]) != 1:
            return {(): 1}, t
        (m, c), = t.a[0]
        sc = tuple(f for f in m if f.k == "len" or f.k == "inv" and f.a[0].k == "len")
        rest = tuple(f for f in m if f not in sc)
        if not rest or c == 1 and not sc:
            return {(): 1}, t
        return {sc: c}, self.mkpoly({rest: 1})

    # ------------------------------------------------------------ functions
    def func(self, t, env, st):
        I = self.I
        f, frame = I.funcs[t.a[0]]
        tag = ("f", t.a[0])
        if st == 0:
            return mk("rec", "f")
        import ast as _ast
        if isinstance(f.node, _ast.Lambda) or frame is not None:
            from .interp import State, Dead
            names = f.params()
            saved, I.events = I.events, []
            try:
                _, v = I.invoke(f, [], [(n, mk("cbarg", "", i)) for i, n in enumerate(names)], State({}, dict(self.run.state.heap)), None, f.node, closure=frame)
            except (Dead, KeyError, AttributeError, TypeError, ValueError, IndexError):
                v = None
            finally:
                new, I.events = I.events, saved
            if v is not None:
                self.index_writes(new)
                return mk("lam", len(names), self.n(v, env, st - 1))
        return mk("func", f.module.name if f.module.name.startswith("lingam") else "", f.name)

    # ------------------------------------------------------------ allocations
    def piece(self, x, env, st):
        if x.k in ("elemof", "star"):
            return mk("all", self.n(x.a[0], env, st))
        return self.n(x, env, st)

    def seq(self, pieces, kind):
        out = []
        for p in pieces:
            if p.k == "all" and p.a[0].k == "tuple":
                out += list(p.a[0].a[0])
            elif p.k == "all" and p.a[0].k == "seq" and p.a[0].a[1] != "set":
                out += list(p.a[0].a[0])
            else:
                out.append(p)
        if len(out) == 1 and out[0].k == "all":
            return out[0].a[0]
        if not any(x.k in ("all", "app", "mut") for x in out):
            return mk("tuple", tuple(out))
        return mk("seq", tuple(out), "list")

    def branches(self, ws):
        """if c: step(x) else: step(y)  ==  step(x if c else y)"""
        ws = list(ws)
        i = 0
        same = lambda x, y: x.k == y.k == "app" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and x.a[3] == y.a[3]
        while i + 1 < len(ws):
            n = 1
            while i + n < len(ws) and same(ws[i], ws[i + n]):
                n += 1
            rs = None
            for m in range(n, 0, -1):       # the last m steps of this branch against the first m of the other
                j = i + n
                if j + m <= len(ws) and (j + m == len(ws) or not same(ws[j], ws[j + m])) and all(same(ws[j], ws[j + q]) for q in range(m)) and m == n:
                    rs = [self.branch(ws[i + q], ws[j + q]) for q in range(m)]
                    break
            if rs is None or None in rs:
                i += n
            else:
                ws[i:i + 2 * n] = rs
                i = 0
        return ws

    def branch(self, p, q):
        if p.k != "app" or q.k != "app" or p.a[0] != q.a[0] or p.a[3] != q.a[3]:
            return None
        g, h = set(p.a[1]), set(q.a[1])
        l, r = g - h, h - g
        if not l or not r:
            return None
        l, r = self.mkboolc("and", list(l)), self.mkboolc("and", list(r))
        if self.mkneg(l) is not r:
            return None
        v, w = p.a[2], q.a[2]
        if v.k == w.k == "put":
            if v.a[0] is not w.a[0]:
                return None
            v = mk("put", v.a[0], self.mksel(l, v.a[1], w.a[1]))
        elif v.k == w.k == "aug":
            if v.a[:2] != w.a[:2]:
                return None
            v = mk("aug", v.a[0], v.a[1], self.mksel(l, v.a[2], w.a[2]))
        elif v.k == w.k == "all":
            v = mk("all", self.mksel(l, v.a[0], w.a[0]))
        elif {v.k, w.k} & {"put", "aug", "all", "mut", "mutat", "ecall"}:
            return None
        else:
            v = self.mksel(l, v, w)
        gs = tuple(sorted(g & h, key=lambda x: x.id))
        return mk("app", p.a[0], gs, v, p.a[3]) if p.a[0] or gs else v

    def obj(self, t, env, st):
        I = self.I
        oid, kind = t.a
        if self.run.self_term is not None and t is self.run.self_term:
            return mk("self")
        tag = ("o", oid)
        if not self.cyclic(tag):
            return self.alloc(t, env, st)
        if st == 0:
            return mk("rec", "o" + kind)
        key = (tag, st)
        if key not in self.bodies:
            site = I.objsite.get(oid)
            self.bodies[key] = self.alloc(t, self.env_at(site[2] if site else ()), st - 1)
        return self.bodies[key]

    def alloc(self, t, env, st2):
        I = self.I
        oid, kind = t.a
        org = I.origin.get(oid)
        ws = self.writes.get(oid, [])
        N = lambda x: self.n(x, env, st2)
        if kind.startswith("inst:"):
            if org is not None and org.k == "new":
                return mk("inst", org.a[0], tuple(N(x) for x in org.a[1]), tuple(sorted((n, N(v)) for n, v in org.a[2])))
            return mk("inst", kind.split(":")[-1], (), ())
        if kind.startswith("xinst:"):
            fits = [e for e in I.events if e.kind == "ecall" and e.d.get("base") is t and e.d["fn"] in (".fit", ".partial_fit", ".set_params", ".fit_transform", ".fit_predict")]
            if len(fits) == 1 and fits[0].d["fn"] == ".fit" and I.objsite.get(oid) is not None and [c for c in fits[0].ctx if c[0] == "l"] == [c for c in I.objsite[oid][2] if c[0] == "l"]:
                return N(fits[0].d["value"])
            return mk("xinst", kind[6:], tuple(N(x) for x in org.a[1]), tuple(sorted((n, N(v)) for n, v in org.a[2]))) if org is not None and org.k == "call" else mk("xinst", kind[6:], (), ())
        site = I.objsite.get(oid)
        skip = len(site[2]) if site else 0
        if kind in ("list",):
            pieces = []
            if org is not None and org.k == "display":
                pieces = [self.piece(x, env, st2) for x in org.a[1]]
            elif org is not None and org.k == "bin":
                pieces = [mk("all", N(org.a[1])), mk("all", N(org.a[2]))]
            elif org is not None and org.k == "call" and org.a[0] in IDENT and org.a[1]:
                pieces = [mk("all", N(org.a[1][0]))]
            elif org is not None and org.k == "call":
                pieces = [mk("all", self.call(org, env, st2))]
            elif org is not None and org.k != "comp":
                pieces = [mk("all", N(org))]
            return self.seq(pieces + self.branches(self.write(e, skip, st2) for e in ws), "list")
        base = None
        if org is not None and org.k == "comp":
            base = mk("empty", kind)
        elif org is not None and org.k == "display" and kind == "set" and org.a[1]:
            base = mk("call", "set", (self.seq([self.piece(x, env, st2) for x in org.a[1]], "list"),), ())
        elif org is not None and org.k == "display":
            base = mk("display", kind, tuple(N(x) for x in org.a[1]))
        elif org is not None:
            base = N(org) if org.k != "call" else self.call(org, env, st2)
        else:
            base = mk("empty", kind)
        if not ws:
            return base
        return mk("arr", base, tuple(self.branches(self.write(e, skip, st2) for e in ws)))

    def write(self, e, skip, st):
        I = self.I
        site = e.ctx
        binders, guards, env = self.ctx(e.ctx, skip, st)
        self_env = env
        n = lambda x: self.n(x, self_env, st)
        lv = len([c for c in e.ctx if c[0] == "l"]) - 1
        if e.kind == "append":
            v = n(e.d["value"])
        elif e.kind == "mutcall" and I.strip_mu(e.d["base"]).k == "sub":
            i, b = (), I.strip_mu(e.d["base"])
            while b.k == "sub":
                i = tuple(n(x) for x in (b.a[1].a[0] if b.a[1].k == "tuple" else (b.a[1],))) + i
                b = I.strip_mu(b.a[0])
            v = mk("mutat", mk("tuple", i) if len(i) > 1 else i[0], e.d["name"], tuple(n(x) for x in e.d["args"]))
        elif e.kind == "mutcall" and e.d["name"] == "append":
            v = n(e.d["args"][0])
        elif e.kind == "mutcall" and e.d["name"] in ("extend",):
            v = mk("all", n(e.d["args"][0]))
        elif e.kind == "mutcall":
            v = mk("mut", e.d["name"], tuple(n(x) for x in e.d["args"]))
        elif e.kind == "store":
            i = e.d["index"]
            i = mk("tuple", tuple(n(x) for x in i.a[0])) if i.k == "tuple" else n(i)
            b = I.strip_mu(e.d["base"])
            while b.k == "sub":
                j = mk("tuple", tuple(n(x) for x in b.a[1].a[0])) if b.a[1].k == "tuple" else n(b.a[1])
                i = mk("tuple", (j.a[0] if j.k == "tuple" else (j,)) + (i.a[0] if i.k == "tuple" else (i,)))
                b = I.strip_mu(b.a[0])
            i = self.mksub(mk("hole"), i)
            i = i.a[1] if i.k == "sub" else mk("slice", NONE, NONE, NONE)
            if e.d["aug"]:
                v = mk("aug", e.d["aug"], i, n(e.d["rhs"]))
            else:
                v = mk("put", i, n(e.d["value"]))
        else:
            v = mk("ecall", e.d["fn"], tuple(n(x) for x in e.d["args"][1:]))
        if not binders and not guards:
            return v
        g = tuple(sorted(guards, key=lambda x: x.id))
        # for x in S: append(x)  ==  extend(S)
        if len(binders) == 1 and not g and v.k == "sub" and v.a[1] is mk("ix", lv) and binders[0] is mk("range", self.mklen(v.a[0])):
            return mk("all", v.a[0])
        return mk("app", binders, g, v, lv)
