"""Hash-consed Herbrand terms: the value domain of the abstract interpreter."""

_TABLE = {}


class T:
    __slots__ = ("k", "a", "id", "_leaves")

    def __init__(self, k, a, i):
        self.k = k
        self.a = a
        self.id = i
        self._leaves = None

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    if isinstance(x, T):
        return x
    return (type(x).__name__, x)


def mk(k, *a):
    key = (k,) + tuple(_key(x) for x in a)
    t = _TABLE.get(key)
    if t is None:
        t = T(k, a, len(_TABLE))
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=...):
    if t.k != "const":
        return False
    return True if v is ... else (type(t.a[0]) is type(v) and t.a[0] == v)


def children(t):
    """Immediate sub-terms."""
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                rec(y)
    for x in t.a:
        rec(x)
    return out


def walk(t, seen=None):
    """All sub-terms, t included, each once."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, f, memo=None):
    """Rebuild t, replacing any sub-term x with f(x) when f(x) is not None."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        def rec(x):
            if isinstance(x, T):
                return subst(x, f, memo)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        r = mk(t.k, *[rec(x) for x in t.a])
    memo[t] = r
    return r


_INFIX = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%",
          "Pow": "**", "MatMult": "@", "BitAnd": "&", "BitOr": "|", "BitXor": "^"}


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    k, a = t.k, t.a
    if k == "const":
        return repr(a[0])
    if k == "param":
        return "$" + a[0]
    if k == "fld":
        return s(a[0]) + "." + a[1] + "₀"
    if k == "obj":
        return f"{a[1]}#{a[0]}"
    if k == "attr":
        return s(a[0]) + "." + a[1]
    if k == "sub":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if k == "tuple":
        return "(" + ",".join(s(x) for x in a[0]) + ")"
    if k == "slice":
        return ":".join("" if is_const(x, None) else s(x) for x in a[:2])
    if k == "bin":
        return "(" + s(a[1]) + _INFIX.get(a[0], a[0]) + s(a[2]) + ")"
    if k == "cmp":
        return "(" + s(a[1]) + " " + a[0] + " " + s(a[2]) + ")"
    if k in ("call",):
        return a[0] + "(" + ",".join([s(x) for x in a[1]] + [f"{n}={s(v)}" for n, v in a[2]]) + ")"
    if k == "meth":
        return s(a[0]) + "." + a[1] + "(" + ",".join([s(x) for x in a[2]] + [f"{n}={s(v)}" for n, v in a[3]]) + ")"
    if k == "idx":
        return f"i{a[0]}"
    if k == "sel":
        return "(" + s(a[0]) + "?" + s(a[1]) + ":" + s(a[2]) + ")"
    if k == "ext":
        return a[0]
    return k + "(" + ",".join(s(x) for x in a) + ")"
