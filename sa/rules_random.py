"""C05: where randomness comes from (source/sink analysis over resolved calls)."""
from .terms import mk, const, NONE, is_const, walk, show
from .common import deps, last, deep_walk, alias_roots
from .rules_state import RNG_DRAWS, config_fields, method_effects

FORBIDDEN = ("random.", "secrets.", "uuid.", "os.urandom", "os.getpid", "time.", "datetime.", "os.getrandom", "id", "hash")
RESEED = {"numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "torch.manual_seed"}
# external consumers of randomness with a random_state parameter
CONSUMERS = {"resample", "shuffle", "train_test_split", "KFold", "ShuffleSplit", "StratifiedKFold", "FastICA", "IterativeImputer",
             "RandomForestRegressor", "RandomForestClassifier", "GradientBoostingRegressor", "MLPRegressor", "LassoLarsIC__never",
             "LassoCV", "RandomizedSearchCV", "LGBMRegressor", "LGBMClassifier", "GradientBoostingClassifier", "PCA__never"}
NEEDS_SHUFFLE = {"KFold", "StratifiedKFold"}
OPTIONAL_SELECTION = {"LassoCV"}
GEN_MAKERS = {"default_rng", "RandomState", "Generator", "PCG64", "MT19937", "SeedSequence", "Random", "SystemRandom", "Philox", "SFC64"}


def consumer_events(run):
    """(event, kind, seed term or None) for every step that draws random numbers."""
    for e in run.ev("ecall"):
        fn = last(e.fn)
        if e.fn.startswith("numpy.random.") and fn in RNG_DRAWS:
            yield e, "global", None
        elif e.fn.startswith("random.") and not e.fn.startswith("random.Random"):
            yield e, "stdlib", None
        elif e.fn.startswith(".") and fn in RNG_DRAWS and e.base is not None:
            g = [x for x in deep_walk(run.I, e.base) if (x.k == "call" and last(x.a[0]) in GEN_MAKERS | {"check_random_state"})
                 or (x.k == "obj" and x.a[1].startswith("xinst:") and last(x.a[1]) in GEN_MAKERS)
                 or (x.k in ("fld", "param") and "random_state" in x.a[-1])]
            if g:
                yield e, "generator", e.base
        elif fn in CONSUMERS and e.base is None and not e.fn.startswith("lingam:"):
            if fn in NEEDS_SHUFFLE and not is_const(e.kw.get("shuffle", NONE), True):
                continue
            if fn in OPTIONAL_SELECTION and not is_const(e.kw.get("selection", NONE), "random"):
                continue
            yield e, "consumer", e.kw.get("random_state", NONE)


def seed_sources(A, run):
    """Terms the caller's random_state arrives as in this run."""
    out = set()
    if "random_state" in run.params or "seed" in run.params:
        for p in ("random_state", "seed"):
            if p in run.params:
                out.add(mk("param", p))
    if run.cls is not None:
        for fl, ps in config_fields(A, run.cls).items():
            if "random_state" in ps or "seed" in ps:
                out.add(("fld", fl))
    return out


def rule_C05(A, R):
    n_draws = 0
    seen = set()

    def bad(rule, construct, detail, loc):
        if (rule, construct) in seen:
            return
        seen.add((rule, construct))
        R.bad(rule, construct, detail, loc)
    for run in A.all_runs():
        srcs = seed_sources(A, run)
        for e in run.ev("ecall"):
            if e.fn in RESEED or (last(e.fn) in ("seed", "set_state") and (e.fn.startswith("numpy.random") or e.fn.startswith("random."))):
                bad("reseeds-global-generator", f"{e.func} {e.fn}", f"{e.loc} reseeds the process-wide generator", e.loc)
            if last(e.fn) == "seed" and e.fn.startswith(".") and e.base is not None:
                if any(x.k == "call" and last(x.a[0]) == "check_random_state" for x in walk(e.base)) or "random_state" in show(e.base):
                    bad("reseeds-given-generator", f"{e.func} {e.fn}", f"{e.loc} reseeds the caller's generator", e.loc)
            if any(e.fn == f or (f.endswith(".") and e.fn.startswith(f)) for f in FORBIDDEN) and e.base is None \
                    and e.fn not in ("time.sleep", "random.Random") and not e.fn.startswith("datetime.timedelta"):
                if e.fn.startswith("time.") or e.fn.startswith("datetime."):
                    # clocks are fine for logging; only a value that is used matters
                    if not clock_used(run, e.value):
                        continue
                bad("unseeded-source", f"{e.func} {e.fn}", f"{e.loc} uses {e.fn}, which no random_state or numpy seed controls", e.loc)
            if last(e.fn) in GEN_MAKERS and (e.fn.startswith("numpy.random") or e.fn.startswith("random")):
                seed = e.args[0] if e.args else e.kw.get("seed", NONE)
                if is_const(seed, None):
                    bad("unseeded-source", f"{e.func} {e.fn}", f"{e.loc} makes a generator seeded from the operating system", e.loc)
                elif seed.k == "const":
                    bad("fixed-seed", f"{e.func} {e.fn}", f"{e.loc} makes a generator with the fixed seed {show(seed)}: neither random_state nor numpy's generator controls it", e.loc)
            if last(e.fn) == "check_random_state" and e.args and e.args[0].k == "const" and e.args[0].a[0] is not None:
                bad("fixed-seed", f"{e.func} {e.fn}", f"{e.loc} makes a generator with the fixed seed {show(e.args[0])}", e.loc)
        for e, kind, seed in consumer_events(run):
            n_draws += 1
            if kind == "stdlib":
                continue
            fixed = [l for l in run.I.leaves(seed) if l.k == "const" and l.a[0] is not None] if seed is not None else []
            if fixed:
                seed = fixed[0]
                bad("fixed-seed", f"{e.func} {last(e.fn)}", f"{e.loc} draws with the fixed seed {show(seed)}", e.loc)
                continue
            where = f"{run.name}: {e.func} {last(e.fn)}"
            if not srcs or run.func.name == "bootstrap":
                R.ok("global-or-caller-generator", where, f"{e.loc}")
                continue
            ok = False
            if seed is not None:
                if drops_seed(run, seed, srcs):
                    bad("random-state-ignored", where, f"{e.loc} draws without the caller's random_state when it was given: {show(seed)[:120]}", e.loc)
                    continue
                for x in deep_walk(run.I, seed):
                    if x in srcs or (x.k == "fld" and ("fld", x.a[1]) in srcs):
                        ok = True
            if ok:
                R.ok("random-state-reaches-draw", where, e.loc)
            else:
                bad("random-state-ignored", where, f"{e.loc} draws without the random_state the caller gave", e.loc)
    if n_draws < 15:
        R.error(f"only {n_draws} random draws found")


def is_src(x, srcs):
    return x in srcs or (x.k == "fld" and ("fld", x.a[1]) in srcs)


def drops_seed(run, t, srcs, depth=0):
    """Some selection hands None on although its condition is not 'the seed is None'."""
    t = run.I.strip_mu(t)
    if t.k != "sel" or depth > 8:
        return False
    c, a, b = t.a
    if any(is_src(x, srcs) for x in walk(t)):
        for v in (a, b):
            if is_const(v, None):
                about_none = c.k == "cmp" and c.a[0] == "is" and any(is_const(x, None) for x in c.a[1:])
                if not about_none and not is_src(c, srcs):
                    return True
    return drops_seed(run, a, srcs, depth + 1) or drops_seed(run, b, srcs, depth + 1)


def clock_used(run, t):
    for e in run.events:
        if e.kind in ("store", "setattr", "append") and any(x is t for x in walk(e.value)):
            return True
        if e.kind == "ecall" and e.value is not t:
            if any(x is t for a in list(e.args) + list(e.kw.values()) for x in walk(a)):
                return True
        if e.kind == "return" and e.depth == 0 and any(x is t for x in walk(e.value)):
            return True
    return False
