"""C06: which argument values are rejected, decided by evaluating the guards on abstract argument classes."""
from .terms import mk, const, NONE, is_const, walk, show
from .common import last

INF = float("inf")


def ints(lo=-INF, hi=INF):
    return mk("ival", lo, hi, False, False, True)


def reals(lo, hi, lo_open=False, hi_open=False):
    return mk("ival", lo, hi, lo_open, hi_open, False)


def dim(n):
    return mk("dimsym", n)


def array(*dims, name="arr"):
    return mk("aval", name + "x".join(map(str, dims)), (("shape", mk("tuple", tuple(d if not isinstance(d, (str, int)) else (const(d) if isinstance(d, int) else dim(d)) for d in dims))),
                                  ("type", const("ndarray"))))


def listof(*items, name="list"):
    return mk("aval", name, (("items", mk("tuple", tuple(items))), ("type", const("list"))))


STR = mk("anystr")
VE, TE, RE, KE = "ValueError", "TypeError", "RuntimeError", "KeyError"

NEG = ("a negative number", reals(-INF, 0.0, False, True))
NONNEG = [("zero", const(0.0)), ("a positive number", reals(0.0, 1.0, True, False))]
BADINT = [("zero", ints(0, 0)), ("a negative integer", ints(-INF, -1))]
BADCOUNT = BADINT + [("a fraction", reals(0.5, 1.5, True, True)), ("a string", STR)]
OKCOUNT = [("an integer >= 1", ints(1, INF)), ("one", const(1))]


def spec():
    """(entry, param, kind, [(what, value)], exception)  kind: reject / accept; entry Class or Class.method or function."""
    out = []

    def rej(entry, param, vals, exc=VE, **kw):
        for w, v in vals:
            out.append((entry, param, "reject", w, v, exc, kw))

    def acc(entry, param, vals, **kw):
        for w, v in vals:
            out.append((entry, param, "accept", w, v, None, kw))

    def nonneg(entry, p):
        rej(entry, p, [NEG])
        acc(entry, p, NONNEG)

    def choice(entry, p, names):
        rej(entry, p, [("an unknown name", STR)])
        acc(entry, p, [(repr(n), const(n)) for n in names])

    for c in ("RCD", "MultiGroupRCD"):
        rej(c, "max_explanatory_num", BADINT)
        acc(c, "max_explanatory_num", OKCOUNT)
        for p in ("cor_alpha", "ind_alpha", "shapiro_alpha", "ind_corr"):
            nonneg(c, p)
        choice(c, "bw_method", ("mdbs", "scott", "silverman"))
        choice(c, "independence", ("hsic", "fcorr"))
    for c in ("CAMUV", "MultiGroupCAMUV"):
        rej(c, "num_explanatory_vals", BADINT)
        acc(c, "num_explanatory_vals", OKCOUNT)
        nonneg(c, "alpha")
        nonneg(c, "ind_corr")
        choice(c, "independence", ("hsic", "fcorr"))
    nonneg("BottomUpParceLiNGAM", "alpha")
    nonneg("BottomUpParceLiNGAM", "ind_corr")
    choice("BottomUpParceLiNGAM", "independence", ("hsic", "fcorr"))
    notmodel = [("an object without fit and predict", const(5)),
                ("an object with fit only", mk("aval", "fitonly", (("attrs", mk("tuple", (const("fit"),))),))),
                ("an object with predict only", mk("aval", "predonly", (("attrs", mk("tuple", (const("predict"),))),)))]
    model = [("a regressor", mk("aval", "regr", (("attrs", mk("tuple", (const("fit"), const("predict")))),)))]
    rej("BottomUpParceLiNGAM", "regressor", notmodel)
    acc("BottomUpParceLiNGAM", "regressor", [("None", NONE)] + model)
    rej("RESIT", "regressor", [("None", NONE)] + notmodel)
    acc("RESIT", "regressor", model)
    rej("RESIT", "alpha", [NEG], other={"regressor": model[0][1]})
    acc("RESIT", "alpha", NONNEG, other={"regressor": model[0][1]})
    rej("HighDimDirectLiNGAM", "J", [("2 or less", ints(-INF, 2))])
    acc("HighDimDirectLiNGAM", "J", [("an integer greater than 2", ints(3, INF))])
    rej("HighDimDirectLiNGAM", "K", [("0 or less", ints(-INF, 0))])
    acc("HighDimDirectLiNGAM", "K", [("an integer greater than 0", ints(1, INF))])
    rej("HighDimDirectLiNGAM", "alpha", [NEG, ("more than 1", reals(1.0, INF, True, False))])
    acc("HighDimDirectLiNGAM", "alpha", [("a number in [0, 1]", reals(0.0, 1.0))])
    rej("HighDimDirectLiNGAM", "estimate_adj_mat", [("a string", STR)], TE)
    rej("LongitudinalLiNGAM", "prior_knowledge", [("a 3-dimensional array", array("t", "p", "p")), ("a 2-dimensional array", array("p", "p"))])
    acc("LongitudinalLiNGAM", "prior_knowledge", [("None", NONE), ("a 4-dimensional array", array("t", "k", "p", "p"))])
    # number of bootstrap samples
    for c in ("DirectLiNGAM", "ICALiNGAM", "RESIT", "HighDimDirectLiNGAM", "BottomUpParceLiNGAM", "RCD", "MultiGroupDirectLiNGAM",
              "MultiGroupRCD", "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM"):
        rej(c + ".bootstrap", "n_sampling", BADCOUNT)
        acc(c + ".bootstrap", "n_sampling", OKCOUNT)
    # bootstrap summaries
    for c in ("BootstrapResult", "VARBootstrapResult", "VARMABootstrapResult", "LongitudinalBootstrapResult"):
        rej(c + ".get_causal_direction_counts", "n_directions", BADCOUNT)
        acc(c + ".get_causal_direction_counts", "n_directions", OKCOUNT + [("None", NONE)])
        rej(c + ".get_directed_acyclic_graph_counts", "n_dags", BADCOUNT)
        acc(c + ".get_directed_acyclic_graph_counts", "n_dags", OKCOUNT + [("None", NONE)])
        for m in ("get_causal_direction_counts", "get_directed_acyclic_graph_counts", "get_probabilities", "get_total_causal_effects", "get_paths"):
            rej(c + "." + m, "min_causal_effect", [("zero", reals(0.0, 0.0)), NEG])
            acc(c + "." + m, "min_causal_effect", [("None", NONE), ("a positive number", reals(0.0, INF, True, False))])
    lagged = dict(other={"from_index": const(0), "to_index": const(1)})
    for c in ("VARBootstrapResult", "VARMABootstrapResult"):
        rej(c + ".get_paths", "from_lag", [("a later time than the destination", const(0))], other={"to_lag": const(1), "from_index": const(0), "to_index": const(1)})
        rej(c + ".get_paths", "to_index", [("the source variable itself", const(0))], other={"from_index": const(0), "from_lag": const(0), "to_lag": const(0)})
        acc(c + ".get_paths", "from_lag", [("an earlier time", const(1))], other={"to_lag": const(0), "from_index": const(0), "to_index": const(0)})
    rej("LongitudinalBootstrapResult.get_paths", "from_t", [("a later time than the destination", const(2))], other={"to_t": const(1), "from_index": const(0), "to_index": const(1)})
    rej("LongitudinalBootstrapResult.get_paths", "to_index", [("the source variable itself", const(0))], other={"from_index": const(0), "from_t": const(1), "to_t": const(1)})
    acc("LongitudinalBootstrapResult.get_paths", "from_t", [("an earlier time", const(0))], other={"to_t": const(1), "from_index": const(0), "to_index": const(0)})
    # dataset lists
    A1, A2, W = array("n", "p", name="A"), array("m", "p", name="B"), array("m", "q", name="C")
    A3 = array("n", "p", name="D")
    pair, mixed = listof(A1, A2, name="pair"), listof(A1, W, name="mixed")
    mixed3 = listof(A1, A2, W, name="mixed3")
    for c in ("MultiGroupDirectLiNGAM", "MultiGroupRCD", "MultiGroupCAMUV"):
        ms = ("fit", "bootstrap", "estimate_total_effect", "get_error_independence_p_values") if c != "MultiGroupCAMUV" else ("fit",)
        for m in ms:
            oth = dict(other={"n_sampling": const(3)}) if m == "bootstrap" else {}
            rej(f"{c}.{m}", "X_list", [("a single array", A1), ("a string", STR), ("a list with one dataset", listof(A1, name="one")),
                                       ("an empty list", listof(name="none")), ("datasets with different numbers of variables", mixed),
                                       ("a last dataset with another number of variables", mixed3)], **oth)
            acc(f"{c}.{m}", "X_list", [("two datasets over the same variables", pair)], **oth)
    for m in ("fit", "bootstrap"):
        oth = dict(other={"n_sampling": const(3)}) if m == "bootstrap" else {}
        rej(f"LongitudinalLiNGAM.{m}", "X_list", [("a string", STR), ("a single timepoint", listof(A1, name="one")),
                                                   ("timepoints with different numbers of variables", listof(A1, array("n", "q", name="E"), name="tmix")),
                                                   ("timepoints with different numbers of samples", pair)], **oth)
        acc(f"LongitudinalLiNGAM.{m}", "X_list", [("two timepoints of the same shape", listof(A1, A3, name="tt"))], **oth)
    # prior knowledge of the wrong size
    for c in ("DirectLiNGAM", "BottomUpParceLiNGAM"):
        rej(c + ".fit", "X", [("data whose number of variables differs from the prior knowledge", array("n", "p"))], ctor={"prior_knowledge": array("q", "q")})
        acc(c + ".fit", "X", [("data matching the prior knowledge", array("n", "p"))], ctor={"prior_knowledge": array("p", "p")})
    rej("MultiGroupDirectLiNGAM.fit", "X_list", [("datasets whose number of variables differs from the prior knowledge", pair)], ctor={"prior_knowledge": array("q", "q")})
    acc("MultiGroupDirectLiNGAM.fit", "X_list", [("datasets matching the prior knowledge", pair)], ctor={"prior_knowledge": array("p", "p")})
    rej("LongitudinalLiNGAM.fit", "X_list", [("data whose number of variables differs from the prior knowledge", listof(A1, A3, name="tt"))],
        ctor={"prior_knowledge": array(2, 2, "q", "q"), "n_lags": const(1)})
    rej("bootstrap_with_imputation", "prior_knowledge", [("a matrix of another size", array("q", "q"))], other={"X": array("n", "p"), "n_sampling": const(2)})
    # lingam_model of the time series models
    for c in ("VARLiNGAM", "VARMALiNGAM"):
        rej(c + ".fit", "X", [("a lingam_model that is not one of the package's models", array("n", "p"))], ctor={"lingam_model": const(5)})
    # tools
    f = "bootstrap_with_imputation"
    rej(f, "n_sampling", BADINT)
    rej(f, "n_sampling", [("a string", STR)], TE)
    acc(f, "n_sampling", OKCOUNT)
    rej(f, "n_repeats", BADINT)
    acc(f, "n_repeats", OKCOUNT)
    rej(f, "cd_model", [("an object of another class", const(5))])
    rej(f, "imp", [("an object of another class", const(5))])
    # graph utilities
    sq, ns = array("p", "p"), array("p", "q")
    rej("make_dot", "adjacency_matrix", [("a matrix that is not square", ns)], other={"ignore_shape": const(False)})
    acc("make_dot", "adjacency_matrix", [("a square matrix", sq)])
    rej("make_dot", "labels", [("labels of another number", listof(const("a"), const("b"), name="lab2"))], other={"adjacency_matrix": array(3, 3)})
    acc("make_dot", "labels", [("one label per variable", listof(const("a"), const("b"), name="lab2"))], other={"adjacency_matrix": array(2, 2)})
    rej("make_dot", "path", [("not a tuple", const(3))], TE, other={"adjacency_matrix": sq})
    rej("make_dot", "path", [("a tuple with one index", mk("tuple", (const(0),)))], TE, other={"adjacency_matrix": sq})
    rej("make_dot", "detect_cycle", [("not a boolean", const(3))], TE, other={"adjacency_matrix": sq})
    rej("make_dot_highlight", "adjacency_matrix", [("a matrix that is not square", ns)], other={"node_index": const(0)})
    rej("make_dot_highlight", "node_index", [("a negative index", ints(-INF, -1))], other={"adjacency_matrix": sq})
    rej("make_dot_highlight", "max_dsc", [("a negative number", ints(-INF, -1))], other={"adjacency_matrix": sq, "node_index": const(0)})
    rej("make_dot_highlight", "max_anc", [("a negative number", ints(-INF, -1))], other={"adjacency_matrix": sq, "node_index": const(0)})
    rej("calculate_distance_from_root_nodes", "adjacency_matrix", [("a matrix that is not square", ns)])
    rej("calculate_distance_from_root_nodes", "max_distance", [("less than 1", ints(-INF, 0))], other={"adjacency_matrix": sq})
    rej("calculate_total_effect", "adjacency_matrix", [("a matrix that is not square", ns)])
    rej("calculate_total_effect", "from_index", [("a negative index", ints(-INF, -1)), ("an index out of range", const(3))], other={"adjacency_matrix": array(3, 3), "to_index": const(1)})
    rej("calculate_total_effect", "to_index", [("a negative index", ints(-INF, -1)), ("an index out of range", const(3))], other={"adjacency_matrix": array(3, 3), "from_index": const(1)})
    rej("calculate_total_effect", "to_index", [("the source itself", const(1))], other={"adjacency_matrix": array(3, 3), "from_index": const(1)})
    acc("calculate_total_effect", "to_index", [("another variable", const(2))], other={"adjacency_matrix": array(3, 3), "from_index": const(1)})
    rej("evaluate_model_fit", "adjacency_matrix", [("a matrix that is not square", ns)])
    rej("evaluate_model_fit", "X", [("data over other variables", array("n", "q"))], other={"adjacency_matrix": sq})
    rej("evaluate_model_fit", "is_ordinal", [("flags of another number", array("q"))], other={"adjacency_matrix": sq, "X": array("n", "p")})
    # causal effects
    rej("CausalEffect.estimate_effects_on_prediction", "X", [("a model matrix that is not square", array("n", "p"))], ctor={"causal_model": array("p", "q")})
    rej("CausalEffect.estimate_effects_on_prediction", "X", [("a model that is neither matrix nor fitted model", array("n", "p"))], ctor={"causal_model": const(5)})
    # simulator
    S = "CausalBasedSimulator"
    rej(S + ".run", "changing_models", [("use before training", NONE)], RE, ctor={})
    rej(S + ".train", "cd_algo_name", [("not a string", const(5))], TE)
    rej(S + ".train", "cd_algo_name", [("an unknown algorithm", STR)], VE)
    for n in ("DirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM", "VARLiNGAM"):
        acc(S + ".train", "cd_algo_name", [(n, const(n))])
    # out-of-sample tuning
    O = "OutOfSampleCausalTuning"
    D = array("n", "p")
    okc = mk("aval", "cfg", (("type", const("dict")),))
    rej(O + ".fit", "configs", [("not a list", const(5))], TE, other={"data": D})
    rej(O + ".fit", "configs", [("an empty list", listof(name="none"))], VE, other={"data": D})
    rej(O + ".fit", "configs", [("an entry that is not a dict", listof(const(5), name="badcfg"))], TE, other={"data": D})
    for w, v in (("zero", const(0.0)), NEG, ("one or more", reals(1.0, INF))):
        rej(O + ".fit", "data", [("thr " + w, D)], VE, ctor={"thr": v})
    # data generator
    rej("CausalDataGenerator.fit", "X", [("not a table", array("n", "p"))], TE)
    return out


def find_entry(A, name):
    if "." in name:
        c, m = name.split(".")
        cl = A.prog.cls(c)
        return (cl, A.prog.find_method(cl, m)) if cl else (None, None)
    cl = A.prog.cls(name)
    if cl is not None:
        return cl, A.prog.find_method(cl, "__init__")
    for m in A.prog.modules.values():
        if name in m.funcs:
            return None, m.funcs[name]
    return None, None


def default_args(A, f):
    """Parameters left out by the caller take their declared defaults."""
    import ast
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            out[n] = const(d.value)
        elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub):
            out[n] = const(-d.operand.value)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant):
            out[x.arg] = const(d.value)
    return out


def exc_matches(exc, want):
    if exc == want:
        return True
    if want in ("ValueError", "TypeError", "RuntimeError", "KeyError") and exc == want:
        return True
    return False


def evaluate(A, entry, param, value, kw):
    cl, f = find_entry(A, entry)
    if f is None:
        return None
    args = default_args(A, f)
    args.update(kw.get("other", {}))
    args[param] = value
    args = {k: v for k, v in args.items() if k in f.params()}
    if param not in f.params():
        return None
    if "." in entry and cl is not None and "ctor" in kw:
        ini = A.prog.find_method(cl, "__init__")
        ca = default_args(A, ini) if ini else {}
        ca.update(kw["ctor"])
        return A.run(cl, f, args=args, init=True, ctor_args=ca)
    return A.run(cl, f, args=args)


def rule_C06(A, R):
    n = 0
    missing = []
    for entry, param, kind, what, value, exc, kw in spec():
        run = evaluate(A, entry, param, value, kw)
        if run is None:
            missing.append(f"{entry}({param})")
            continue
        n += 1
        name = f"{entry}({param}): {what}"
        raises = [e for e in run.ev("raise") if not e.handled]
        loc = f"{run.func.where} {run.func.qual}"
        if A.failed and run.dead and any(x.startswith(run.func.qual + ":") for x in A.failed):
            R.undecided("validation", name, "not analysed")
            continue
        if kind == "reject":
            if run.dead:
                last_r = raises[-1] if raises else None
                kinds = {e.exc for e in raises}
                if raises and not any(exc_matches(k, exc) for k in kinds) and not any("opaque" in k or k == "reraise" for k in kinds):
                    R.bad("wrong-exception", name, f"{last_r.loc} raises {sorted(kinds)} instead of {exc}", last_r.loc)
                else:
                    R.ok("rejects", name, last_r.loc if last_r else "")
            else:
                others = tuple(kw.get("other", {}).values()) + tuple(kw.get("ctor", {}).values())
                pend = [e for e in raises if guarded_by_unknown(run, e, value, others)]
                if pend:
                    R.undecided("rejects", name, f"{pend[0].loc} may reject it")
                else:
                    R.bad("accepted-invalid", name, f"{loc}: no path rejects {what} for {param}: every guard evaluates to false", loc)
        else:
            if run.dead:
                last_r = raises[-1] if raises else None
                R.bad("rejected-valid", name, f"{last_r.loc if last_r else loc}: {what} is rejected", loc)
            else:
                R.ok("accepts", name)
    for m in missing:
        R.undecided("rejects", m, "not present")
    from . import conform
    conform.check(A, R, "C06", specs=conform.refusals(A), max_depth=getattr(A, "depth", 14))
    if n < 150:
        R.error(f"only {n} validation obligations")


def guarded_by_unknown(run, e, value, others):
    """Some undecided guard or loop around this raise mentions the abstract values."""
    vals = set()
    for v in (value,) + tuple(o for o in others if o.k != "const"):
        vals |= set(walk(v)) | {v}
    conds = [g for g, pol in e.guards()]
    for i, c in enumerate(e.ctx):
        if c[0] == "l" and not any(x[0] == "g" for x in e.ctx[i:]):
            conds.append(run.I.loopinfo[c[1]]["iter"])
    for g in conds:
        for x in walk(g):
            if x is value:
                return True
            if x.k in ("aval", "ival", "anystr", "dimsym") and x in vals:
                return True
    # raised inside library models of the value
    return any(x is value for x in walk(e.value)) and bool(e.guards())
