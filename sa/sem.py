"""Term-level helpers shared by the value rules: canonical index vectors, regressions, element sources."""
from .terms import T, mk, const, NONE, is_const, walk, show, children
from .common import last, deep_walk

WRAP = {"list", "tuple", "numpy.array", "numpy.asarray", "int", "numpy.copy", "copy.copy", "copy.deepcopy", "numpy.asanyarray",
        "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d"}
WRAPM = {"tolist", "copy", "flatten", "ravel", "astype", "item", "squeeze"}
FIT = {"fit", "fit_transform", "fit_predict"}


def full(s):
    return s.k == "slice" and all(is_const(x, None) for x in s.a)


def canon(I, t, depth=0):
    """Same values under copies, conversions and list/array wrappers."""
    if depth > 30:
        return t
    t = I.strip_mu(t)
    if t.k == "call" and t.a[0] in WRAP and len(t.a[1]) >= 1:
        return canon(I, t.a[1][0], depth + 1)
    if t.k == "meth" and t.a[1] in WRAPM:
        return canon(I, t.a[0], depth + 1)
    if t.k == "obj":
        org = I.origin.get(t.a[0])
        if org is not None and org.k == "call" and org.a[0] in WRAP and org.a[1]:
            extra = set(I.contents.get(t.a[0], ())) - {mk("elemof", I.strip_mu(org.a[1][0])), mk("elemof", org.a[1][0])}
            if not extra:
                return canon(I, org.a[1][0], depth + 1)
        if org is not None and org.k == "comp" and org.a[0] == "list" and len(org.a[1]) == 1 and len(org.a[2]) == 1 and org.a[2][0]:
            # [f(x) for x in S] with f a wrapper, no filter
            lid = org.a[2][0]
            v = org.a[1][0]
            if not I.comp_filtered(t.a[0]):
                src = I.loopinfo[lid]["iter"]
                if canon(I, v, depth + 1) is mk("sub", canon_base(I, src), idx0(I, src, lid)):
                    return canon(I, src, depth + 1)
    if t.k == "sub":
        b, i = t.a
        cb = canon(I, b, depth + 1)
        ci = i if i.k in ("slice",) else (mk("tuple", tuple(canon(I, x, depth + 1) for x in i.a[0])) if i.k == "tuple" else canon(I, i, depth + 1))
        if full(ci):
            return cb
        if cb is not b or ci is not i:
            return mk("sub", cb, ci)
    return t


def canon_base(I, t):
    return I.strip_mu(t)


def idx0(I, src, lid):
    return mk("idx", lid, const(0), I.mklen(I.strip_mu(src)), const(1))


def same(I, a, b):
    return a is b or canon(I, a) is canon(I, b)


def simple(I, t):
    """Built only from loop indices, parameters, stored containers, constants and subscripts."""
    for x in walk(t):
        if x.k in ("idx", "param", "fld", "obj", "objref", "const", "sub", "tuple", "slice", "mu", "len", "dkey", "dval", "attr", "bin"):
            continue
        return False
    return True


def columns(I, t, depth=0):
    """(data, column selector) of a term that selects columns X[:, c], looking through reshapes and scalings."""
    t = I.strip_mu(t)
    if depth > 12:
        return None
    if t.k == "sub" and t.a[1].k == "tuple" and len(t.a[1].a[0]) == 2 and t.a[1].a[0][0].k == "slice":
        c = t.a[1].a[0][1]
        if c.k == "obj":
            its = I.known_list(c)
            if its is not None and len(its) == 1:
                c = its[0]
        return t.a[0], c
    if t.k == "call" and last(t.a[0]) in ("ravel", "reshape", "asarray", "array", "squeeze", "atleast_2d", "ascontiguousarray", "scale", "check_array") and t.a[1]:
        return columns(I, t.a[1][0], depth + 1)
    if t.k == "meth" and t.a[1] in ("ravel", "flatten", "reshape", "copy", "astype", "to_numpy"):
        return columns(I, t.a[0], depth + 1)
    if t.k == "bin" and t.a[0] in ("Mult", "Div"):
        r = columns(I, t.a[1], depth + 1)
        s = columns(I, t.a[2], depth + 1)
        if r and not s:
            return r
        if s and not r:
            return s
    if t.k == "obj":
        org = I.origin.get(t.a[0])
        if org is not None and org.k == "call" and org.a[0] in WRAP:
            return columns(I, org.a[1][0], depth + 1)
    return None


def fits_in(I, t):
    """Regression terms (meth fit) reachable inside a value."""
    out = []
    for x in deep_walk(I, t):
        if x.k == "meth" and x.a[1] in FIT and len(x.a[2]) >= 2:
            out.append(x)
    return out


def coef_of(I, v, depth=0):
    """[(fit term, position term or None, mask term or None)] when v is a regression coefficient (vector); [] otherwise."""
    v = I.strip_mu(v)
    if depth > 10:
        return []
    if v.k == "attr" and v.a[1] == "coef_":
        return [(v.a[0], None, None)]
    if v.k == "sub":
        return [(f, v.a[1] if p is None else mk("tuple", (p, v.a[1])), m) for f, p, m in coef_of(I, v.a[0], depth + 1)]
    if v.k == "call" and (v.a[0] in WRAP or last(v.a[0]) in ("reshape", "ravel", "float")) and v.a[1]:
        return coef_of(I, v.a[1][0], depth + 1)
    if v.k == "meth" and v.a[1] in WRAPM | {"reshape"}:
        return coef_of(I, v.a[0], depth + 1)
    if v.k in ("sel",):
        return coef_of(I, v.a[1], depth + 1) + coef_of(I, v.a[2], depth + 1)
    if v.k == "obj" and v.a[1] == "array":
        out = []
        org = I.origin.get(v.a[0])
        if org is not None and org.k == "call" and org.a[0] in WRAP and org.a[1]:
            out += coef_of(I, org.a[1][0], depth + 1)
        for e in I.events:
            if e.kind == "store" and e.base is v:
                for f, p, m in coef_of(I, e.value, depth + 1):
                    out.append((f, p, e.index))
        return out
    return []


def sources(I, t, depth=0, seen=None):
    """Base vectors the elements of vector t are taken from (through filters, slices kept as they are)."""
    seen = set() if seen is None else seen
    t = I.strip_mu(t) if t.k == "mu" and (t.a[0], t.a[1]) not in I.mu_update else t
    if t in seen or depth > 25:
        return []
    seen.add(t)
    S = lambda x: sources(I, x, depth + 1, seen)
    if t.k == "mu":
        u = I.mu_update.get((t.a[0], t.a[1]))
        return S(t.a[2]) + (S(u) if u is not None else [])
    if t.k == "eta":
        return S(t.a[2]) + S(t.a[3])
    if t.k == "sel":
        return S(t.a[1]) + S(t.a[2])
    if t.k == "phi":
        return [y for x in t.a[0] for y in S(x)]
    if t.k == "call":
        fn = last(t.a[0])
        if (t.a[0] in WRAP or fn in ("sorted", "unique", "setdiff1d", "delete", "array", "asarray")) and t.a[1]:
            return S(t.a[1][0])
        if fn in ("concatenate", "union1d", "hstack", "append"):
            out = []
            for a in t.a[1]:
                its = I.known_list(I.strip_mu(a)) if a.k in ("obj", "tuple") else None
                for y in (its if its is not None and fn in ("concatenate", "hstack") else [a]):
                    out += S(y)
            return out
    if t.k == "meth" and t.a[1] in WRAPM:
        return S(t.a[0])
    if t.k == "sub":
        b, i = t.a
        if i.k == "slice":
            return [t]
        if i.k in ("cmp", "not", "bool") or i.k == "call" and last(i.a[0]) in ("where", "nonzero", "argsort"):
            return S(b)
        return [t]
    if t.k == "obj":
        org = I.origin.get(t.a[0])
        out = []
        done = False
        if org is not None and org.k == "call" and (org.a[0] in WRAP or last(org.a[0]) in ("sorted",)) and org.a[1]:
            out += S(org.a[1][0])
            done = True
        if org is not None and org.k == "bin":
            out += S(org.a[1]) + S(org.a[2])
            done = True
        for c in I.contents.get(t.a[0], ()):
            if c.k == "elemof":
                if not done:
                    out += S(c.a[0])
                continue
            out += elem_sources(I, c, depth + 1, seen)
            done = True
        return out if done else [t]
    return [t]


def elem_sources(I, v, depth=0, seen=None):
    """Vectors a scalar value is an element of."""
    seen = set() if seen is None else seen
    v = I.strip_mu(v) if v.k == "mu" and (v.a[0], v.a[1]) not in I.mu_update else v
    if depth > 25:
        return []
    if v.k == "sel":
        return elem_sources(I, v.a[1], depth + 1, seen) + elem_sources(I, v.a[2], depth + 1, seen)
    if v.k == "phi":
        return [y for x in v.a[0] for y in elem_sources(I, x, depth + 1, seen)]
    if v.k == "sub" and v.a[1].k not in ("slice", "tuple"):
        return sources(I, v.a[0], depth + 1, seen)
    if v.k == "call" and v.a[0] in WRAP and v.a[1]:
        return elem_sources(I, v.a[1][0], depth + 1, seen)
    if v.k == "elemof":
        return sources(I, v.a[0], depth + 1, seen)
    return [mk("single", v)]


def query(run, name):
    """Value of a property of the object after the run (None when it has no such property)."""
    I = run.I
    f = I.prog.find_method(run.cls, name)
    if f is None or run.dead:
        return None
    rec, I.record = I.record, False
    try:
        _, v = I.invoke(f, [], [], run.state.copy(), None, f.node, self_term=run.self_term)
        return v
    except Exception:
        return None
    finally:
        I.record = rec
