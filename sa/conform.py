"""Conformance of the package with reference definitions (/verif/spec), decided on canonical abstract values.

A definition is a small function with the same arguments as the entry point.  It is never executed: both it and the
package code are abstractly interpreted (helpers inlined, loops summarised) and their canonical results compared.
"""
import ast
import glob
import os
import re
from .loader import Module, Program, desugar
from .terms import children, T, mk, const, NONE, show, walk
from .interp import Interp, State, Dead, Budget
from .common import Run
from .norm import Norm
from .diff import Diff
from .explain import explain
from .refine import refine, settings
from . import strong, depend, local

# further properties a definition is evidence for, by entry point: the same computation carries several guarantees
ALSO = [
    ("C07", r"(CAMUV|MultiGroupCAMUV|DirectLiNGAM|HighDimDirectLiNGAM|MultiGroupDirectLiNGAM|BottomUpParceLiNGAM)\.__init__$"),
    ("C07", r"LongitudinalLiNGAM\.fit$"),
    ("C08", r"(CAMUV|MultiGroupCAMUV|RCD|MultiGroupRCD|LongitudinalLiNGAM|LiM|LiNA|MDLiNA)\.(fit|_estimate_\w+|_extract_parents)$"),
    ("C08", r"(get_sink_variables|get_exo_variables|remove_effect|find_all_paths)$"),
    ("C09", r"predict_adaptive_lasso$"),
    ("C10", r"find_all_paths$"),
    ("C11", r"\w*BootstrapResult\.__init__$"),
    ("C12", r"find_all_paths$"),
    ("C13", r"MultiGroup\w+\.__init__$"),
    ("C15", r"BottomUpParceLiNGAM\.(_fisher_hsic_test|_f_correlation)$"),
    ("C15", r"(RCD|MultiGroupRCD)\.(_get_resid_and_coef_by_MLHSICR|_get_resid_and_coef|_is_independent|_is_correlated|_is_non_gaussianity)$"),
    ("C15", r"utils\._rcd:(get_resid_and_coef_by_MLHSICR|get_resid_and_coef|is_independent|is_correlated|is_non_gaussianity)$"),
    ("C15", r"HighDimDirectLiNGAM\.(_predict_adaptive_lasso|_calc_taus?)$"),
    ("C15", r"(CAMUV|MultiGroupCAMUV)\._is_independent\w*$"),
    ("C15", r"OutOfSampleCausalTuning\._calc_mutual_info$"),
    ("C16", r"(VARLiNGAM|VARMALiNGAM|LongitudinalLiNGAM|VARBootstrapResult|VARMABootstrapResult|LongitudinalBootstrapResult)\.__init__$"),
    ("C16", r"LongitudinalBootstrapResult\.\w+$"),
    ("C18", r"calculate_total_effect$"),
    ("C19", r"(RCD|MultiGroupRCD|BottomUpParceLiNGAM|CAMUV|MultiGroupCAMUV)\.__init__$"),
    ("C21", r"(LiM|LiNA|MDLiNA)\.__init__$"),
    ("C21", r"(likelihood_i|log_p_super_gaussian|variance_i)$"),
]

SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def load_specs(prog):
    """[(property, entries, observe, Func)] and the spec modules registered with the program."""
    out = []
    for p in sorted(glob.glob(os.path.join(SPECDIR, "*.py"))):
        src = open(p, encoding="utf-8").read()
        nm = "spec_" + os.path.basename(p)[:-3]
        m = Module(nm, p, "spec/" + os.path.basename(p), desugar(ast.parse(src, filename=p)), src)
        prog.modules[nm] = m
        prog._index(m, m.tree.body)
        for c in m.classes.values():
            c.mro = prog._mro(c, ())
        for f in m.funcs.values():
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "defines":
                    args = [ast.literal_eval(a) for a in d.args]
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    obs = list(kw.get("observe", ["return"]))
                    if REFUSE & set(args[0].split()):
                        obs.append("rejects")
                    also = {}
                    for e in args[1:]:
                        also.setdefault(tuple(sorted({p for p, rx in ALSO if re.match(rx, e)} - set(args[0].split()))), []).append(e)
                    for more, own in also.items():
                        out.append(dict(props=args[0].split() + list(more), entries=own, observe=obs, func=f,
                                        init=kw.get("init", False), what=kw.get("what") or (ast.get_docstring(f.node) or f.name).split("\n")[0],
                                        opaque=kw.get("opaque", []), part_of=kw.get("part_of")))
    # spec modules must not be reported as part of the package
    for nm in [n for n in prog.modules if n.startswith("spec_")]:
        prog.hidden = getattr(prog, "hidden", set()) | {nm}
    return out


def find_entry(prog, name):
    """(class or None, Func or None) for 'Class.method', 'function' or 'module:function'."""
    if ":" in name:
        mod, fn = name.split(":")
        m = prog.modules.get("lingam." + mod if mod != "lingam" else mod)
        return None, (m.funcs.get(fn) if m else None)
    if "." in name:
        c, m = name.split(".")
        cls = prog.cls(c)
        return cls, (prog.find_method(cls, m) if cls else None)
    for m in prog.modules.values():
        if not m.name.startswith("spec_") and name in m.funcs:
            return None, m.funcs[name]
    return None, None


def written_fields(prog, cls, f):
    """Fields of self a method assigns, helpers included."""
    out, seen, todo = set(), set(), [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                else:
                    h = prog.find_method(cls, x.attr)
                    if h is not None and not h.is_property:
                        todo.append(h)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) and getattr(x.func.value.func, "id", "") == "super":
                for c in cls.mro:
                    if x.func.attr in c.methods:
                        todo.append(c.methods[x.func.attr])
    return sorted(out)


def exec_run(A, cls, f, names, init, self_param=False, opaque=(), max_depth=14):
    prog = A.prog
    I = Interp(prog, max_depth=max_depth)
    for n in opaque:
        if n.startswith("%"):
            g = prog.find_method(cls, n[1:]) if cls is not None else None
            if g is not None:
                I.opaque.add(g)
                I.opaque_writes[g] = written_fields(prog, cls, g)
            continue
        c, g = find_entry(prog, n)
        if g is not None:
            I.opaque.add(g)
            if c is not None:
                I.opaque_writes[g] = written_fields(prog, c, g)
    st = State()
    o = None
    if cls is not None:
        o, st = I.new_instance(cls, st)
    if init and cls is not None:
        ini = prog.find_method(cls, "__init__")
        if ini is not None:
            ia = {p: mk("param", "__init__." + p) for p in ini.params()[1:]}
            I.record = False
            try:
                st, _ = I.run_function(ini, ia, self_term=o, st=st)
            except Dead:
                pass
            I.record = True
            st.env = {}
            st.ctx = ()
    a = {n: mk("param", n) for n in names}
    if self_param:
        a["self"] = o
    dead, val = False, None
    A.n_runs += 1
    try:
        st, val = I.run_function(f, a, self_term=None if self_param else o, st=st)
    except Dead:
        dead = True
    A.n_functions |= I.functions_seen
    A.n_callsites += I.callsites
    return Run(I, cls, f, o, st, val, dead, names)


def query(run, name):
    I = run.I
    f = I.prog.find_method(run.cls, name)
    if f is None:
        return None
    rec, I.record = I.record, False
    try:
        _, v = I.invoke(f, [], [], run.state.copy(), None, f.node, self_term=run.self_term)
        return v
    finally:
        I.record = rec


def observe(run, what, spec_side):
    """Canonical observation."""
    n = Norm(run)
    if what == "return":
        return n.value(run.value)
    if what in ("warn",):
        ws = []
        for e in run.events:
            if e.kind == what:
                b, g, _ = n.ctx(e.ctx)
                ws.append(mk("app", b, tuple(sorted(g, key=lambda x: x.id)), const(what), 0))
        return mk("arr", const("events"), tuple(sorted(ws, key=lambda x: x.id)))
    if what == "rejects":
        return rejects(run, n)
    if what.startswith("prop:"):
        v = query(run, what[5:])
        return n.value(v) if v is not None else None
    if what.startswith("field:"):
        v = run.state.heap.get((run.self_term.a[0], what[6:]))
        return n.value(v) if v is not None else None
    if what.startswith("call:"):
        # arguments of calls to an external function
        fn = what[5:]
        ws = []
        for e in run.events:
            if e.kind == "ecall" and (e.d["fn"] == fn or e.d["fn"].split(".")[-1] == fn):
                b, g, env = n.ctx(e.ctx)
                N = lambda x: n.n(x, env, ())
                v = mk("call", fn, tuple(N(x) for x in e.d["args"]), tuple(sorted((k, N(v)) for k, v in e.d["kw"].items())))
                ws.append(mk("app", b, tuple(sorted(g, key=lambda x: x.id)), v, 0))
        return mk("arr", const("calls"), tuple(ws))
    raise ValueError(what)


CHECKS = {"check_array", "check_scalar", "check_X_y", "check_consistent_length", "check_is_fitted", "column_or_1d", "check_non_negative"}


def rejects(run, n):
    """When arguments are refused: one entry per raise, and one per validating library call."""
    ws = []
    for e in run.events:
        if e.kind == "raise" and not e.handled:
            b, g, env = n.ctx(e.ctx)
            ws.append(mk("app", b, tuple(sorted(g, key=lambda x: x.id)), mk("call", "raise", (const(str(e.d["exc"]).split(".")[-1]),), ()), 0))
        elif e.kind == "ecall" and e.d["fn"].split(".")[-1] in CHECKS:
            b, g, env = n.ctx(e.ctx)
            N = lambda x: n.n(x, env, ())
            fn = e.d["fn"].split(".")[-1]
            args = [N(x) for x in e.d["args"]]
            if fn == "check_scalar" and len(args) > 1:
                args[1] = const("name")
            kw = tuple(sorted((k, N(v)) for k, v in e.d["kw"].items() if k not in ("copy", "order", "estimator", "name")))
            ws.append(mk("app", b, tuple(sorted(g, key=lambda x: x.id)), mk("call", fn, tuple(args), kw), 0))
    seen, out = set(), []
    for w in ws:
        if w not in seen:
            seen.add(w)
            out.append(w)
    return mk("arr", const("rejects"), tuple(out))


def merged(a):
    """Refusals with the same error and loops as one condition."""
    d = {}
    for w in a.a[1]:
        c = mk("bool", "and", tuple(w.a[1])) if len(w.a[1]) != 1 else w.a[1][0]
        d.setdefault((w.a[0], w.a[2]), []).append(c)
    out = []
    for (b, v), cs in d.items():
        c = cs[0] if len(cs) == 1 else mk("bool", "or", tuple(cs))
        out.append((b, v, c))
    return out


def same_rejects(a, b):
    from .strong import Strong, TooBig
    S = Strong()
    try:
        t = [{(S.rec(x), S(v)): S.cond(S(c)) for x, v, c in merged(y)} for y in (a, b)]
    except (TooBig, RecursionError):
        return False
    return t[0] == t[1]


def class_fields(prog, cls):
    out = set()
    for c in cls.mro if cls else ():
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
    return out


def short(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + "…"


def rule(prop):
    def run_rule(A, R):
        check(A, R, prop, max_depth=getattr(A, "depth", 14))
    return run_rule


REFUSE = {"C13", "C14", "C17", "C18", "C20", "C22", "C23"}


def refusals(A):
    """Every definition of a public computation, for what it refuses."""
    out, seen = [], set()
    for s in specs_for(A):
        own = [e for e in s["entries"] if not e.split(":")[-1].split(".")[-1].startswith("_") or e.endswith("__init__")]
        if own and (not s["part_of"] or own[0].endswith("__init__")):
            out.append(dict(s, props=["C06"], entries=own, observe=["rejects"], part_of=None))
    return out


def specs_for(A):
    if not hasattr(A, "_specs"):
        A._specs = load_specs(A.prog)
    return A._specs


def spec_attrs(A, f, seen=None):
    """Private attributes of objects a definition reads, its helpers included."""
    memo = A.__dict__.setdefault("_spec_attrs", {})
    if f in memo:
        return memo[f]
    seen = set() if seen is None else seen
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr.startswith("_") and not x.attr.startswith("__"):
            out.add(x.attr)
        elif isinstance(x, ast.Name) and x.id in f.module.funcs:
            out |= spec_attrs(A, f.module.funcs[x.id], seen)
    memo[f] = out
    return out


def renamed(A, cls, s):
    """Private names of the class the definition uses which the class no longer has."""
    if cls is None:
        return set()
    names = spec_attrs(A, s["func"]) | {ob[6:] for ob in s["observe"] if ob.startswith("field:")}
    memo = A.__dict__.setdefault("_clsattrs", {})
    if cls not in memo:
        memo[cls] = class_fields(A.prog, cls) | {m for c in cls.mro for m in c.methods} | {t.id for c in cls.mro for x in c.node.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
    return names - memo[cls]


def check(A, R, prop, max_depth=14, specs=None):
    specs = [s for s in specs_for(A) if prop in s["props"]] if specs is None else specs
    groups = {}
    for s in specs:
        for e in s["entries"]:
            groups.setdefault((e, s["what"]), []).append(s)
    parted = {e for s in specs_for(A) if s["part_of"] is not None for e in s["entries"]}
    for (entry, what), alts in groups.items():
        cls, f = find_entry(A.prog, entry)
        if f is None:
            R.undecided("conformance", entry, "not present")
            continue
        names = [p for p in f.params() if not (p == "self" and cls is not None)]
        if cls is not None and not f.is_static and f.params():
            names = f.params()[1:]
        results = {}
        if alts[0]["part_of"] is not None and not comparable(A, cls, f, alts[0]):
            R.undecided("conformance", f"{entry} {what}", "the step is divided differently")
            continue
        gone = set().union(*[renamed(A, cls, s) for s in alts])
        if gone:
            R.undecided("conformance", f"{entry} {what}", "the class has no " + ", ".join(sorted(gone)))
            continue
        for s in alts:
            try:
                code = exec_run(A, cls, f, names, s["init"], opaque=s["opaque"], max_depth=max_depth)
                ref = exec_run(A, cls, s["func"], [p for p in s["func"].params() if p != "self"], s["init"],
                               self_param=s["func"].params()[:1] == ["self"], opaque=s["opaque"], max_depth=max_depth)
            except (Budget, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, RuntimeError) as ex:
                results.setdefault("run", []).append(("unk", f"{type(ex).__name__}: {ex}"[:120], ""))
                continue
            for ob in s["observe"]:
                try:
                    r = one(A, cls, code, ref, ob, s["part_of"] is not None or entry not in parted)
                except (Budget, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, RuntimeError) as ex:
                    r = ("unk", f"{type(ex).__name__}: {ex}"[:120], "")
                results.setdefault(ob, []).append(r)
        results.setdefault("defaults", []).extend(defaults(s["func"], f) for s in alts)
        for ob, rs in results.items():
            best = min(rs, key=lambda r: {"same": 0, "unk": 1, "ev": 2}[r[0]])
            con = f"{entry} [{ob}] {what}"
            if best[0] == "same":
                R.ok("conformance", con, "canonical value equals the definition")
            elif best[0] == "unk":
                R.undecided("conformance", con, best[1])
            elif alts[0]["part_of"] is not None and whole_holds(A, [entry] + alts[0]["part_of"], max_depth):
                R.undecided("conformance", con, "differs, but every computation it is part of is unchanged: " + best[1])
            else:
                R.bad("conformance", con, best[1], loc=f.where, key=f"{entry}:{ob}:{what}".replace(" ", "_"))


def comparable(A, cls, f, s):
    """A step is compared only when it takes the same arguments and uses the same other steps."""
    own = [p for p in f.params() if p != "self"]
    ref = [p for p in s["func"].params() if p != "self"]
    if f.name.startswith("_") and own != ref:
        return False
    for n in s["opaque"]:
        g = (A.prog.find_method(cls, n[1:]) if cls is not None else None) if n.startswith("%") else find_entry(A.prog, n)[1]
        if g is None:
            return False
    return True


def whole_holds(A, entries, max_depth):
    """All complete (fully inlined, untruncated) definitions of these entry points still hold."""
    n = 0
    for s in specs_for(A):
        if s["part_of"] is not None:
            continue
        for e in s["entries"]:
            if e not in entries:
                continue
            n += 1
            cls, f = find_entry(A.prog, e)
            if f is None:
                return False
            key = (s["func"], e)
            memo = A.__dict__.setdefault("_whole", {})
            if key not in memo:
                memo[key] = _whole(A, cls, f, s, max_depth)
            if not memo[key]:
                return False
    return n > 0


def _whole(A, cls, f, s, max_depth):
    names = f.params()[1:] if cls is not None and not f.is_static and f.params() else f.params()
    try:
        code = exec_run(A, cls, f, names, s["init"], opaque=s["opaque"], max_depth=max_depth)
        ref = exec_run(A, cls, s["func"], [p for p in s["func"].params() if p != "self"], s["init"],
                       self_param=s["func"].params()[:1] == ["self"], opaque=s["opaque"], max_depth=max_depth)
    except (Budget, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, RuntimeError):
        return False
    for ob in s["observe"]:
        if one(A, cls, code, ref, ob, False)[0] != "same":
            return False
        a = observe(code, ob, False)
        if any(x.k == "rec" for x in walk(a)):
            return False
    return True


def defaults(spec, f):
    """Default values of the arguments both sides have."""
    def table(g):
        a = g.node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return d
    def lit(e):
        try:
            return (True, ast.literal_eval(e))
        except ValueError:
            return (False, None)
    d1, d2 = table(spec), table(f)
    for n, e in d1.items():
        if n in d2:
            (ok1, v1), (ok2, v2) = lit(e), lit(d2[n])
            if ok1 and ok2 and (v1 != v2 or type(v1) is bool and type(v2) is not bool):
                return ("ev", f"another default: {n}={v2!r}, defined {v1!r}", "")
        elif n in [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]:
            return ("ev", f"argument {n} lost its default", "")
    return ("same", "", "")


SOFT = ("extra", "missing", "an operation is", "depends", "does not depend", "another condition", "another index", "a filter", "leaving", "a condition in place",
        "another constant", "another comparison", "another number", "in one case", "another entry", "empty or zero", "None taken", "another slice", "other constants", "another factor")
LOOSE = {"mu", "rec", "eta", "seq", "arr", "fold"}


def alike(x, y, d=4):
    """The same operations near the top, whatever the state of the loops around them."""
    if x is y or d == 0 or x.k in LOOSE or y.k in LOOSE:
        return True
    if x.k != y.k or [z for z in x.a if isinstance(z, str)] != [z for z in y.a if isinstance(z, str)]:
        return False
    p, q = list(children(x)), list(children(y))
    if len(p) != len(q):
        return False
    if x.k in ("poly", "bool", "cmp"):
        for u in p:
            v = next((v for v in q if alike(u, v, d - 1)), None)
            if v is None:
                return False
            q.remove(v)
        return True
    return all(alike(u, v, d - 1) for u, v in zip(p, q))


def single(ex):
    """Several unrelated small differences are a rewriting; one, wherever it shows, is a change."""
    if len(set(ex)) == 1 or not all(w.startswith(SOFT) for _, _, w in ex):
        return True
    if {(x, y) for x, y, _ in ex} == {(y, x) for x, y, _ in ex}:
        return True             # exchanged
    L = local.Local()
    x, y, w = ex[0]
    return all(x2 is x or w2 == w and (alike(x, x2) and alike(y, y2) or L.likeness(x, x2) > 0.7 and L.likeness(y, y2) > 0.7) for x2, y2, w2 in ex[1:])


def one(A, cls, code, ref, ob, deep=True):
    if ref.dead:
        return ("unk", "definition has no normal result", "")
    if code.dead:
        return ("unk", "no normal result", "")
    try:
        if ob.startswith("prop:") or ob.startswith("field:"):
            a = observe(ref, ob, True)
        else:
            a = observe(ref, ob, True)
        b = observe(code, ob, False)
    except (RecursionError, RuntimeError, KeyError, AttributeError, TypeError, ValueError, Dead) as ex:
        return ("unk", f"{type(ex).__name__}: {ex}"[:120], "")
    if a is None or b is None:
        return ("unk", "not observable", "")
    vals = settings(cls)
    a, b = refine(a, vals), refine(b, vals)
    D = Diff()
    D.fields = class_fields(A.prog, cls)
    try:
        ds = D.diff(a, b)
    except RecursionError:
        return ("unk", "too deep", "")
    v = D.verdict(ds)
    if v == "same":
        return ("same", "", "")
    if strong.same(a, b) or ob == "rejects" and same_rejects(a, b):
        return ("same", "", "")
    if ob == "rejects":
        deep = False
    d = next((x for x in ds if x[0] == v), ds[0])
    if v == "ev" and not single([(x, y, w) for q, x, y, w in ds if q == "ev"]):
        v = "unk"
    if v == "unk" and deep:
        ex = explain(a, b, D.fields)
        if ex and single(ex):
            return ("ev", "; ".join(f"{w}: defined {short(x)}, code has {short(y)}" for x, y, w in ex[:2]), "")
        ex = local.evidence(a, b, D.fields)
        if ex and single(ex):
            return ("ev", "; ".join(f"{w}: defined {short(x)}, code has {short(y)}" for x, y, w in ex[:2]), "")
        dd = depend.compare(a, b)
        if dd:
            return ("ev", dd, "")
    return (v, f"{d[3]}: defined {short(d[1])}, code has {short(d[2])}", "")
