"""What a canonical value depends on: arguments, stored attributes, steps left closed.  Sizes are not counted."""
from .terms import T, walk

ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.eye", "numpy.tile", "numpy.zeros_like", "numpy.empty_like", "numpy.ones_like"}
PRED = {"isinstance", "hasattr", "callable", "any", "all", "isnan", "isclose", "issubclass", "bool"}
CLOSED = {"phi", "rec", "func", "callv", "unbound", "objref", "bound", "exc"}


class Deps:
    def __init__(self):
        self.memo = {}

    def __call__(self, t, holes=()):
        """(dependencies, dependencies by size only, whether part of the value is closed to inspection)"""
        seen, out, soft, closed = set(), set(), set(), False
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in holes:
                continue
            k = x.k
            if k in ("len", "range", "range3") or k == "attr" and x.a[1] in ("shape", "size", "ndim"):
                closed |= self.sizes(x, soft)
                continue
            if k == "call" and x.a[0] in ALLOC and x.a[1]:
                closed |= self.sizes(x.a[1][0], soft)
                todo += x.a[1][1:]
                self.push(x.a[2], todo)
                continue
            if k == "param":
                out.add(("argument", x.a[0]))
            elif k == "fld":
                out.add(("attribute", x.a[1]))
            elif k == "call" and x.a[0].startswith("lingam:"):
                out.add(("step", x.a[0].split(".")[-1]))
            elif k in CLOSED:
                closed = True
            atoms = (x.a[0],) if k in ("sel", "not") else x.a[1] if k in ("bool", "app") else ()
            for c in atoms:
                while c.k == "not":
                    c = c.a[0]
                if c.k in ("seq", "arr", "sub", "bin", "mu", "eta") or c.k == "call" and not c.a[0].startswith("lingam:") and c.a[0].split(".")[-1] not in PRED:
                    closed |= self.sizes(c, soft)
                    seen.add(c)
            for y in x.a:
                self.push(y, todo)
        return frozenset(out), frozenset(soft), closed

    def sizes(self, x, soft):
        closed = False
        for z, n in zip(walk(x), range(400)):
            if z.k in ("seq", "arr", "mu", "eta", "app") or n == 399:
                closed = True
            elif z.k == "param":
                soft.add(("argument", z.a[0]))
            elif z.k == "fld":
                soft.add(("attribute", z.a[1]))
            elif z.k == "call" and z.a[0].startswith("lingam:"):
                soft.add(("step", z.a[0].split(".")[-1]))
        return closed

    def push(self, y, todo):
        if isinstance(y, T):
            todo.append(y)
        elif isinstance(y, tuple):
            for z in y:
                self.push(z, todo)


def compare(a, b):
    """Text of a dependence one side has and the other lacks, or None."""
    D = Deps()
    (da, sa, ca), (db, sb, cb) = D(a), D(b)
    extra, lost = db - da - sa, da - db - sb
    if extra and not ca:
        return "the result depends on " + ", ".join(f"{k} {n}" for k, n in sorted(extra))
    if lost and not cb:
        return "the result no longer depends on " + ", ".join(f"{k} {n}" for k, n in sorted(lost))
    return None
