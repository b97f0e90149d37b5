"""C01-C04: ownership and state rules (alias, effect and definite-assignment analyses)."""
import re
from .terms import mk, const, NONE, is_const, walk, show
from .common import alias_roots, deps, last, deep_walk

INPLACE_FIRST_ARG = {"fill_diagonal", "put", "copyto", "place", "putmask", "shuffle", "put_along_axis", "at"}
FITLIKE = {"fit", "partial_fit", "fit_transform", "fit_predict", "set_params"}


def mutations(run):
    """(event, target term, how) for everything in the run that writes into existing storage."""
    for e in run.events:
        if e.kind == "store":
            yield e, e.base, "item assignment"
        elif e.kind == "delitem":
            yield e, e.base, "item deletion"
        elif e.kind == "mutcall":
            yield e, e.base, "." + e.name + "()"
        elif e.kind == "augname":
            yield e, e.old, "augmented assignment to '%s'" % e.name
        elif e.kind == "augattr":
            yield e, e.old, "augmented assignment to .%s" % e.name
        elif e.kind == "setattr":
            yield e, e.base, "attribute assignment ." + e.name
        elif e.kind == "ecall":
            kw = e.kw
            fn = last(e.fn)
            if "out" in kw:
                yield e, kw["out"], fn + "(out=)"
            if fn in INPLACE_FIRST_ARG and e.args and (e.fn.startswith("numpy") or e.fn.startswith("random") or fn == "shuffle"):
                yield e, e.args[0], fn + "()"
            if e.fn == "numpy.dot" and len(e.args) == 3:
                yield e, e.args[2], "dot(out)"
            if is_const(kw.get("inplace", NONE), True) and e.base is not None:
                yield e, e.base, "." + fn + "(inplace=True)"
            for k, v in kw.items():
                if k.startswith("overwrite") and is_const(v, True) and e.args:
                    yield e, e.args[0], fn + "(%s=True)" % k
            if is_const(kw.get("copy", NONE), False) and fn in (
                    "scale", "normalize", "minmax_scale", "robust_scale", "maxabs_scale", "nan_to_num") and e.args:
                yield e, e.args[0], fn + "(copy=False)"
            if e.base is not None and e.base.k == "obj" and e.base.a[1].startswith("xinst:") and fn in FITLIKE | {"transform", "predict"}:
                org = run.I.origin.get(e.base.a[0])
                if org is not None and is_const(dict(org.a[2]).get("copy", NONE), False) and e.args and fn in ("fit_transform", "transform"):
                    yield e, e.args[0], fn + "(copy=False)"


def scalar_value(run, t):
    """Values that in-place operators rebind instead of mutating."""
    I = run.I
    if t.k in ("const", "idx", "len", "ival", "cmp", "not", "bool", "fstr"):
        return True
    if t.k == "param":
        return False
    if t.k == "sub":
        if t.a[1].k == "tuple" and all(x.k in ("const", "idx") for x in t.a[1].a[0]):
            return True
    return False


def rule_C01(A, R):
    # which fields of which class hold caller-owned storage after which method
    holders = {}
    n_entries = 0
    for c in A.entry_classes():
        h = {}
        for f in A.public_methods(c, init=True):
            run = A.run(c, f)
            if run.dead:
                continue
            for (oid, fld), v in run.state.heap.items():
                if oid != run.self_term.a[0] or fld.startswith("#") if run.self_term else True:
                    continue
                roots = alias_roots(run.I, v)
                ps = {r.a[0] for r in roots if r.k == "param" and not A.is_scalar_param(f, r.a[0])}
                if ps:
                    h.setdefault(fld, set()).update((f.qual, p) for p in ps)
        holders[c.name] = h
    seen_viol = set()
    for run in A.all_runs():
        n_entries += 1
        c = run.cls
        h = holders.get(c.name, {}) if c else {}
        nm = 0
        cloned = {p for p, d in A.param_docs(run.func).items() if "cloned" in d.lower()}
        for e, target, how in mutations(run):
            nm += 1
            if e.kind in ("augname", "augattr") and scalar_value(run, target):
                continue
            if e.kind == "setattr" and run.self_term is not None and target is run.self_term:
                continue
            roots = alias_roots(run.I, target)
            for r in roots:
                owner = None
                if r.k == "param":
                    if A.is_scalar_param(run.func, r.a[0]):
                        continue
                    owner = f"argument '{r.a[0]}' of {run.name}"
                elif r.k == "fld" and run.self_term is not None and r.a[0] in (run.self_term, mk("objref", run.self_term.a[0])) and r.a[1] in h:
                    src = sorted(h[r.a[1]])[0]
                    if e.kind == "augattr" and scalar_value(run, target):
                        continue
                    owner = f"argument '{src[1]}' of {src[0]} held in .{r.a[1]}"
                elif r.k == "mutdefault":
                    owner = f"mutable default {r.a[1]} of {r.a[0]}"
                elif r.k == "modconst" and r.a[2] is not None:
                    owner = f"module-level constant {r.a[1]}"
                if owner is None:
                    continue
                key = (e.file, e.line, owner)
                if key in seen_viol:
                    continue
                seen_viol.add(key)
                R.bad("caller-data-mutated", f"{e.loc} via {run.name}", f"{how} writes into {owner}: {show(target)[:120]}", e.loc)
        for e in run.ev("ecall"):
            if last(e.fn) in FITLIKE and e.base is not None:
                roots = {r.a[0] for r in alias_roots(run.I, e.base) if r.k == "param"}
                if roots & cloned:
                    nm += 1
                    R.bad("caller-model-fitted", f"{e.loc} via {run.name}", f"fits a caller-supplied model that is documented as cloned: {show(e.base)[:100]}", e.loc)
        R.ok("no-caller-mutation", run.name, f"{nm} writes examined")
    if n_entries < 150:
        R.error(f"only {n_entries} entry points found")


# ------------------------------------------------------------------ C02, C03, C04
FIT_METHODS = {"fit", "fit_transform", "bootstrap", "train"}


def self_roots(run, t):
    """Field names of self that t may share storage with."""
    s = run.self_term
    if s is None:
        return set()
    ref = mk("objref", s.a[0])
    return {r.a[1] for r in alias_roots(run.I, t) if r.k == "fld" and r.a[0] in (s, ref)}


def config_fields(A, c):
    """field -> constructor parameters its initial value is built from (including 'if p is None: default')."""
    ini = A.prog.find_method(c, "__init__")
    out = {}
    if ini is None:
        return out
    run = A.run(c, ini)
    if run.self_term is None:
        return out
    for (oid, fld), v in run.state.heap.items():
        if oid != run.self_term.a[0] or fld.startswith("#"):
            continue
        ps = {d.a[0] for d in deps(run.I, v) if d.k == "param"}
        if ps:
            out[fld] = ps
    return out


def init_fields(A, c):
    ini = A.prog.find_method(c, "__init__")
    if ini is None:
        return set()
    run = A.run(c, ini)
    return {fld for (oid, fld), v in run.state.heap.items() if run.self_term and oid == run.self_term.a[0] and not fld.startswith("#")}


def method_effects(A, c):
    """name -> dict(writes, inplace, reads) for every public non-constructor method."""
    key = ("effects", c.name, c.module.name)
    if key in A.cache:
        return A.cache[key]
    out = {}
    for f in A.public_methods(c, init=False):
        run = A.run(c, f)
        if run.self_term is None:
            continue
        writes, inplace, reads = {}, {}, {}
        for e in run.ev("setattr"):
            if e.base is run.self_term:
                writes.setdefault(e.name, []).append(e)
        for e, t, how in mutations(run):
            if e.kind == "setattr":
                continue
            if e.kind in ("augname", "augattr") and scalar_value(run, t):
                continue
            for fl in self_roots(run, t):
                inplace.setdefault(fl, []).append((e, how))
        for e in run.ev("fread"):
            if e.initial and e.base is run.self_term:
                reads.setdefault(e.name, []).append(e)
        out[f.name] = dict(run=run, func=f, writes=writes, inplace=inplace, reads=reads)
    A.cache[key] = out
    return out


RNG_DRAWS = {"choice", "rand", "randn", "random", "randint", "integers", "normal", "uniform", "permutation", "shuffle",
             "random_sample", "standard_normal", "exponential", "laplace", "gamma", "beta", "poisson", "binomial",
             "multivariate_normal", "random_integers", "ranf", "sample", "bytes", "permuted", "logistic", "gumbel",
             "standard_cauchy", "standard_t", "chisquare", "lognormal", "triangular", "weibull", "multinomial", "dirichlet"}


def rule_C02(A, R):
    n = 0
    for c in A.entry_classes():
        conf = config_fields(A, c)
        eff = method_effects(A, c)
        mutable = set()
        for nm, d in eff.items():
            mutable |= set(d["inplace"])
            for fl in d["writes"]:
                end = d["run"].state.heap.get((d["run"].self_term.a[0], fl))
                if fl not in conf or not (end is None or (end.k == "fld" and end.a[1] == fl)):
                    mutable.add(fl)
        for nm, d in eff.items():
            if nm not in FIT_METHODS:
                continue
            n += 1
            run = d["run"]
            bad = False
            for fl, evs in sorted(d["reads"].items()):
                if fl in mutable:
                    bad = True
                    e = evs[0]
                    R.bad("stale-state-read", f"{c.name}.{nm} .{fl}", f"{e.loc} reads .{fl} before this call has set it; "
                          f"it holds what an earlier call left ({', '.join(sorted(m for m, x in eff.items() if fl in x['writes'] or fl in x['inplace']))})", e.loc)
            # a generator kept across calls
            for e in run.ev("ecall"):
                if last(e.fn) in RNG_DRAWS and e.base is not None:
                    b = e.base
                    if b.k == "fld" and b.a[0] in (run.self_term, mk("objref", run.self_term.a[0])):
                        bad = True
                        R.bad("generator-state", f"{c.name}.{nm} .{b.a[1]}", f"{e.loc} draws from a generator kept in .{b.a[1]}, so the result depends on earlier calls", e.loc)
            if not bad:
                R.ok("fit-depends-on-arguments", f"{c.name}.{nm}", f"{len(d['reads'])} initial reads, all configuration")
    n2 = 0
    seen = set()
    for run in A.all_runs():
        n2 += 1
        for e in run.ev("gwrite"):
            if e.loc not in seen:
                seen.add(e.loc)
                R.bad("module-state-written", f"{run.name} global {e.name}", f"{e.loc} writes the module variable {e.name}", e.loc)
        for e, t, how in mutations(run):
            for r in alias_roots(run.I, t):
                if r.k == "modconst" or r.k == "mutdefault" or r.k == "cls":
                    if e.loc in seen:
                        continue
                    seen.add(e.loc)
                    what = f"module variable {r.a[1]}" if r.k == "modconst" else (f"default value of {r.a[0]}" if r.k == "mutdefault" else f"class {r.a[0]}")
                    R.bad("shared-state-written", f"{e.func} {what}", f"{e.loc} {how} changes a {what}, shared by every later call", e.loc)
            if t.k == "cls" and e.loc not in seen:
                seen.add(e.loc)
                R.bad("class-state-written", f"{e.func} class {t.a[0]}", f"{e.loc} {how} changes class {t.a[0]}, shared by every instance", e.loc)
    # memoisation decorators keep results across calls
    for m in A.prog.modules.values():
        fs = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for f in fs:
            for dname in f.decorators:
                if re.search(r"(^|\.)(lru_cache|cache|cached_property|memoize)\b", dname):
                    R.bad("memoised", f"{f.where} {f.qual}", f"@{dname} keeps results of earlier calls", f.where)
    R.ok("no-module-state", "package", f"{n2} entry points examined")
    if n < 20:
        R.error(f"only {n} fit/bootstrap methods found")


def lazily_guarded(run, e, fl):
    """The write happens only when the field was absent or None (lazy initialisation)."""
    s = run.self_term
    for g, pol in e.guards():
        for x in walk(g):
            if x.k == "fld" and x.a[1] == fl:
                return True
            if x.k == "call" and x.a[0] == "hasattr" and len(x.a[1]) == 2 and is_const(x.a[1][1], fl):
                return True
    return False


def rule_C03(A, R):
    n = 0
    for c in A.entry_classes():
        eff = method_effects(A, c)
        fits = {nm for nm in eff if nm in FIT_METHODS}
        conf = config_fields(A, c)
        for nm, d in eff.items():
            if nm in FIT_METHODS:
                continue
            n += 1
            run = d["run"]
            bad = False
            for fl, evs in sorted(d["inplace"].items()):
                e, how = evs[0]
                bad = True
                R.bad("query-mutates-state", f"{c.name}.{nm} .{fl}", f"{e.loc} {how} changes the fitted .{fl} in place", e.loc)
            for fl, evs in sorted(d["writes"].items()):
                end = run.state.heap.get((run.self_term.a[0], fl))
                if end is not None and end.k == "fld" and end.a[1] == fl:
                    continue
                readers = [m for m, x in eff.items() if fl in x["reads"]]
                lazy = all(lazily_guarded(run, e, fl) for e in evs)
                e = evs[0]
                if lazy:
                    # a cache: must be reset by fitting
                    stale = [m for m in fits if fl not in eff[m]["writes"] and m != "bootstrap"]
                    if fits and stale:
                        bad = True
                        R.bad("stale-cache", f"{c.name}.{nm} .{fl}", f"{e.loc} caches .{fl} but {c.name}.{stale[0]} does not reset it", e.loc)
                    continue
                if readers:
                    bad = True
                    R.bad("query-rebinds-state", f"{c.name}.{nm} .{fl}", f"{e.loc} overwrites .{fl}, which {readers[0]} reads", e.loc)
                elif fl in conf:
                    bad = True
                    R.bad("query-rebinds-state", f"{c.name}.{nm} .{fl}", f"{e.loc} overwrites the setting .{fl}", e.loc)
            # fitting self again from a query
            for e in run.ev("icall"):
                if e.self_term is run.self_term and e.fn.name in ("fit", "fit_transform"):
                    bad = True
                    R.bad("query-refits", f"{c.name}.{nm}", f"{e.loc} refits the model", e.loc)
            # objects held by self (fitted models) refitted or written
            for e in run.ev("setattr"):
                if e.base is not run.self_term:
                    for fl in self_roots(run, e.base):
                        bad = True
                        R.bad("query-mutates-state", f"{c.name}.{nm} .{fl}", f"{e.loc} sets .{e.name} of an object held in .{fl}", e.loc)
            if not bad:
                R.ok("query-is-pure", f"{c.name}.{nm}")
    if n < 80:
        R.error(f"only {n} query methods found")


def rule_C04(A, R):
    n = 0
    for c in A.entry_classes():
        conf = config_fields(A, c)
        if not conf:
            continue
        for nm, d in method_effects(A, c).items():
            f = d["func"]
            touched = [fl for fl in conf if fl in d["writes"]]
            run = d["run"]
            if touched:
                names = set(touched)
                run = A.run(c, f, watch=lambda *a: True, key="watch")
            n += 1
            bad = False
            oid = run.self_term.a[0]
            for fl in touched:
                e = d["writes"][fl][0]
                end = run.state.heap.get((oid, fl))
                orig = lambda v: v is None or (v.k == "fld" and v.a[1] == fl)
                if not run.dead and not orig(end):
                    bad = True
                    R.bad("setting-overwritten", f"{c.name}.{nm} .{fl}", f"{e.loc} replaces the constructor setting {sorted(conf[fl])}; after the call .{fl} = {show(end)[:100]}", e.loc)
                    continue
                exits = run.I.collectors[0] if run.I.collectors else []
                for name, heap, ctx in exits:
                    if not orig(heap.get((oid, fl))):
                        bad = True
                        R.bad("setting-lost-on-error", f"{c.name}.{nm} .{fl}", f"{e.loc} replaces the constructor setting {sorted(conf[fl])} and an exception ({name}) leaves it replaced", e.loc)
                        break
            for fl, evs in d["inplace"].items():
                if fl in conf:
                    e, how = evs[0]
                    bad = True
                    R.bad("setting-mutated", f"{c.name}.{nm} .{fl}", f"{e.loc} {how} changes the constructor setting {sorted(conf[fl])} in place", e.loc)
            if not bad:
                R.ok("settings-kept", f"{c.name}.{nm}", f"{len(conf)} settings")
    if n < 80:
        R.error(f"only {n} methods with settings found")
