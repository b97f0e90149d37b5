"""The property catalogue; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


ABS = "abstract interpretation of the package source"
TRUST = ("Static: decided from the syntax trees of the current tree, nothing is run. Library calls are trusted to behave as documented; "
         "constructs the analyser cannot resolve are listed as undecided in the evidence and raise no alarm. ")

prop("C01", "Calls never modify the data the caller passes in",
     "No public function, constructor, fit, bootstrap, query or simulation call changes the contents of an array, table, list or dictionary the caller handed to it, now or through an object that kept a reference to it. "
     "Models the documentation says are cloned are not fitted in place, and neither module constants nor mutable default arguments are written.",
     ["inputs", "histories", "configurations"], "every public entry point, every argument (dtype, memory layout, container) and every later call on an object that kept a reference",
     "Tests compare results, not the inputs afterwards; whether an in-place write reaches caller memory depends on dtype and layout (a float64 C-contiguous array is not copied by input checking), which tests sample once.",
     ["lingam"], [("input checking may return the same memory", "check_array at the top of every fit"), ("working copies before in-place updates", "np.copy / copy.copy before stores")],
     "alias and mutation analysis (" + ABS + ")",
     TRUST + "Decides: no write in any inlined call path has a target that may share storage with a caller argument.")

prop("C02", "A fit or bootstrap depends only on settings and arguments",
     "The outcome of fitting, training or bootstrapping depends only on the constructor settings, the arguments of that call and the random source: nothing left behind by earlier fits, queries or bootstraps on the same or another object influences it. "
     "No call leaves state behind in module variables, classes, default arguments or memoised functions.",
     ["histories", "configurations"], "every sequence of earlier calls on the same or other objects",
     "Tests fit fresh objects; a stale attribute, a kept generator or a module-level cache shows only on particular call sequences.",
     ["lingam"], [("state is recomputed from the arguments at the start of fit", "fit methods of every model")],
     "definite-assignment dataflow on object fields (" + ABS + ")",
     TRUST + "Decides: no field that any public method may change is read by a fit-like method before that call has assigned it; no shared module or class state is written.")

prop("C03", "Queries leave the fitted model unchanged",
     "Asking a fitted model or a bootstrap result for anything (total effects, p-values, probabilities, counts, paths, predictions, simulated data, properties) leaves every later answer of that object unchanged: queries can be repeated and reordered freely. "
     "They do not alter fitted state in place, do not replace it and do not refit the model.",
     ["histories", "inputs"], "every sequence of queries after fitting",
     "Tests call each query once on a fresh fit; a query that edits the stored matrices affects only the second and later calls.",
     ["lingam"], [("queries work on copies", "bootstrap summaries use np.abs / np.copy of the stored arrays")],
     "effect analysis on object fields (" + ABS + ")",
     TRUST + "Decides: no query's call tree writes into storage reachable from the object's fields, nor rebinds a field another method reads.")

prop("C04", "Constructor settings survive every call, also failing ones",
     "The settings an object was constructed with keep their values through fitting, bootstrapping and every query, including calls that end in an exception, so that a second fit uses the same settings. "
     "Settings that are arrays, lists or models are not edited in place either.",
     ["histories", "fault_sequences", "configurations"], "every call sequence and every exception point inside a call",
     "Tests use an object once; losing a setting shows only on the next call, or only when an exception interrupts at the wrong moment.",
     ["lingam"], [("temporary changes of settings are restored in a finally block", "bootstrap methods of the time series models")],
     "typestate analysis of fields with exceptional exits (" + ABS + ")",
     TRUST + "Decides: on every normal exit, and at every point where an exception may leave the call, each setting field holds its initial value.")

prop("C05", "Random draws obey the caller's seed and only that",
     "Every random draw in the package comes from the random_state the caller supplied where one is accepted, and otherwise from numpy's global generator; no draw uses a hard-coded seed, the operating system's entropy, a clock, or Python's own generator. "
     "No call reseeds numpy's global generator or a generator the caller passed in.",
     ["configurations", "inputs", "histories"], "every setting of random_state and every call that draws random numbers",
     "Tests fix one seed and compare shapes; an ignored or hard-coded seed gives plausible results.",
     ["lingam"], [("random_state passed on", "check_random_state, resample(random_state=...), FastICA(random_state=...)")],
     "source/sink taint analysis (" + ABS + ")",
     TRUST + "Decides: every call that consumes randomness gets a seed derived from the caller's random_state or uses numpy's global generator; no forbidden source is called.")

prop("C06", "Invalid arguments are rejected, valid ones accepted",
     "Documented limits on arguments are enforced for every value: counts below one, negative significance levels and thresholds, unknown option names, matrices and labels of mismatched size, dataset lists that are too short or disagree in shape, prior knowledge of the wrong size, reversed time orders and out-of-range indices raise the documented kind of error, and using the simulator before training raises a runtime error. "
     "Values inside the limits, boundary values included, are not rejected.",
     ["inputs", "configurations"], "every value of each limited argument, as classes of values (negative, zero, one, fraction, string, matching and mismatching shapes)",
     "Tests try one bad value per parameter, often not the boundary, and not on every entry point.",
     ["lingam"], [("range checks in constructors", "__init__ of RCD, CAMUV, RESIT, BottomUpParceLiNGAM, HighDimDirectLiNGAM"), ("dataset list checks", "_check_X_list"), ("graph utility checks", "lingam/utils/__init__.py")],
     "interval and shape abstract interpretation of the guards",
     TRUST + "Decides, per argument class of a fixed table: whether the guards of the current code must raise or cannot raise for every member of the class.")

CONF = "semantic conformance with reference definitions (" + ABS + ", canonical value comparison)"
CTRUST = ("Static: both the package code and the reference definition (spec/) are abstractly interpreted with helpers inlined and loops summarised; nothing is run. "
          "A violation is a located difference (operand, index, condition, argument, order, missing step) between the canonical values; a difference that could be a rewriting is undecided and raises no alarm. "
          "The definitions and the semantics of library calls are trusted. ")

prop("C07", "Estimates never contradict the prior knowledge given",
     "For every prior knowledge the user supplies, a relation marked as absent never appears in the estimate, a relation marked as present constrains the causal order from cause to effect, and variables declared exogenous or sink are placed and connected accordingly; unmarked relations stay free. "
     "This holds for every estimator that accepts prior knowledge, for the helper that builds such knowledge from variable lists, and whether or not the knowledge is applied softly.",
     ["inputs", "configurations"], "every prior-knowledge matrix or pair list, every data set, every estimator that accepts one",
     "Tests pass one or two matrices and check only that fitting succeeds; a forbidden edge appears only for data whose statistics favour it.",
     ["lingam/direct_lingam.py", "lingam/base.py", "lingam/bottom_up_parce_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/camuv.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_camuv.py", "lingam/utils/__init__.py"],
     [("candidate search restricted by known paths and partial orders", "DirectLiNGAM._search_candidate, _extract_partial_orders"), ("edges forbidden by prior knowledge removed from the predictors", "_BaseLiNGAM._estimate_adjacency_matrix"),
      ("forbidden pairs skipped in the search", "CAMUV._check_prior_knowledge")],
     CONF, CTRUST + "Decides: orders, predictor sets and adjacency of every estimator with prior knowledge, and the knowledge builder.")

prop("C08", "Causal orders are complete and estimated graphs respect them",
     "Every causal order a model reports contains each variable exactly once (variables whose order is undetermined are grouped, not lost), and every instantaneous coefficient it reports goes from an earlier to a later variable of that order, so the estimated graph has no cycle. "
     "A coefficient in row i and column j always means the effect of variable j on variable i.",
     ["inputs", "configurations"], "every data set and configuration of the order-based estimators",
     "Tests assert on one seeded data set; a swapped index, a wrong slice bound or an order updated before use gives cyclic or transposed graphs only on other data.",
     ["lingam/base.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/resit.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/utils/__init__.py"],
     [("predictors of a variable are exactly its predecessors in the order", "_BaseLiNGAM._estimate_adjacency_matrix"), ("one variable appended per round and removed from the candidates", "_search loops in fit"), ("order from the permuted matrix", "ICALiNGAM._search_causal_order")],
     CONF, CTRUST + "Decides: order construction and the positions (row, column) at which coefficients are written.")

prop("C09", "Each estimator's reported result is the one its method defines",
     "For every data set and setting, the graph, order, intercepts, residuals, lag orders and ancestors an estimator reports are those its documented algorithm defines for that data and those settings: every option acts on the step it is documented for, every threshold and significance level is compared in the documented direction, and the reported attributes belong to the same fit.",
     ["inputs", "configurations"], "every data set and every combination of options of every estimator",
     "Tests run default options on one seeded data set and mostly check that attributes exist; option branches and rare data-dependent branches are not exercised.",
     ["lingam"], [("fit of every estimator", "fit methods and their helpers")],
     CONF, CTRUST + "Decides: the values of fit() and of every public fitted property for all estimators, helper by helper and end to end.")

prop("C10", "Total effects follow the fitted graph and the requested direction",
     "The total effect of one variable on another is estimated by regressing on the cause together with the cause's direct causes in the fitted graph, or by summing over all directed paths the products of path coefficients, and is zero for an effect that cannot exist; the lags and time points requested are the ones used. "
     "A request against the causal order is reported by a warning, and a variable with an undetermined direct cause yields no number.",
     ["inputs", "configurations", "histories"], "every fitted graph, every ordered pair of variables, every lag or time point, every data set",
     "Tests call it for one pair on one graph; using the parents of the wrong variable, a wrong lag offset or the transposed matrix changes only some pairs.",
     ["lingam/base.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/utils/__init__.py"],
     [("adjustment set from the fitted matrix", "estimate_total_effect"), ("path products", "calculate_total_effect, find_all_paths"), ("warning for reversed order", "estimate_total_effect")],
     CONF, CTRUST + "Decides: regression target, predictors, returned coefficient, early exits and warnings of every total-effect query.")

prop("C11", "Bootstrapping refits on resampled data and stores every sample",
     "Each of the requested bootstrap samples refits the model on data resampled with replacement from the rows (or residuals, per time point, per data set) the caller gave, keeping the original length and the columns of a row together, and stores that fit's graph, resampling indices and total effects at that sample's position. "
     "Total effects are computed for every ordered pair that the sample's causal order allows, from the sample's own fit.",
     ["inputs", "configurations"], "every data set, number of samplings and estimator with a bootstrap",
     "Tests check shapes and value ranges for a few samplings; reusing one resample, storing the wrong sample or skipping pairs leaves shapes unchanged.",
     ["lingam/base.py", "lingam/bootstrap.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/resit.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/tools/__init__.py"],
     [("resample, fit, store loop", "bootstrap methods"), ("series rebuilt from resampled residuals", "VARLiNGAM.bootstrap, VARMALiNGAM.bootstrap")],
     CONF, CTRUST + "Decides: what is resampled, what each refit gets, and which values are stored at which index.")

prop("C12", "Bootstrap summaries report exactly what the stored samples contain",
     "Direction counts, graph counts, probabilities, total effects and path summaries equal the frequencies, medians and listings over all stored bootstrap samples of exactly those edges whose size exceeds the caller's minimum effect (in absolute value, sign handled as requested), with from and to variables in the right roles and lags or time points attributed correctly. "
     "Results are ordered by decreasing frequency and cut to the requested number and minimum probability or count only after counting.",
     ["inputs", "configurations"], "every set of stored samples and every combination of thresholds and options",
     "Tests inspect one small result; sign splitting, ties, thresholds and multi-lag attribution are hardly exercised.",
     ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/utils/__init__.py"],
     [("counting over samples", "get_causal_direction_counts, get_directed_acyclic_graph_counts"), ("probabilities and paths", "get_probabilities, get_paths, get_total_causal_effects")],
     CONF, CTRUST + "Decides: the returned dictionaries and arrays of every summary method.")

prop("C13", "Multi-group estimators use every data set, each in its own place",
     "Estimators for several data sets judge each step on all of them (weighted by size or requiring agreement, as documented), use the common causal order for every data set, and report the graph, bootstrap result, total effects and independence values of each data set at that data set's position, computed from that data set only. "
     "No data set is skipped, reused for another, or mixed row-wise with another.",
     ["inputs", "configurations"], "every list of two or more data sets, of different lengths and scales",
     "Tests use two copies of similar data, for which a skipped or repeated data set gives almost the same numbers.",
     ["lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_camuv.py"],
     [("scores summed over data sets with size weights", "MultiGroupDirectLiNGAM._search_causal_order"), ("all data sets must pass the test", "MultiGroupRCD._is_independent, MultiGroupCAMUV._is_independent"), ("one adjacency matrix per data set", "fit loops")],
     CONF, CTRUST + "Decides: for every multi-group computation, which data set each value is computed from and where it is stored.")

prop("C14", "Error-independence p-values test the fitted model's residuals",
     "For every fitted model and data, the independence report contains at each off-diagonal pair the p-value of the independence test between the residuals of exactly those two variables under the fitted graph, symmetric, with zero on the diagonal and no value where the graph leaves a variable's causes undetermined. "
     "Data are checked against the fitted number of variables, and lagged effects are removed before testing where the model has lags.",
     ["inputs", "histories"], "every fitted model, data set and pair of variables",
     "Tests check the shape and the 0–1 range only; residuals of the wrong pair or with the transposed matrix stay in range.",
     ["lingam/base.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/resit.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py"],
     [("pairwise test over residual columns", "get_error_independence_p_values")],
     CONF, CTRUST + "Decides: residual formula, tested pair and matrix position for every model.")

prop("C15", "Independence and fit statistics follow their published formulas",
     "The kernel independence test, the kernel-based correlation, the entropy and mutual-information scores, the sparse regression with data-driven penalty weights and the likelihood scores equal their published formulas for every input, including kernel width, centring, regularisation, degrees of freedom, penalty weighting and scaling back of coefficients.",
     ["inputs"], "all numeric inputs of matching length",
     "Tests compare no statistic with a reference value; a lost square, wrong centring or biased variance still gives plausible p-values and the same graph on easy data.",
     ["lingam/hsic.py", "lingam/utils/__init__.py", "lingam/utils/_f_correlation.py", "lingam/lim.py", "lingam/lina.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py"],
     [("HSIC gamma test", "hsic_test_gamma, hsic_teststat"), ("adaptive lasso", "predict_adaptive_lasso"), ("entropy approximation and residuals", "DirectLiNGAM._entropy, _residual"), ("F-correlation", "f_correlation")],
     CONF, CTRUST + "Decides: the algebraic expression of each statistic (polynomial normal form over library calls).")

prop("C16", "Lagged models keep lags, time points and residuals aligned",
     "In time-series and longitudinal models, every lagged coefficient relates a variable to the value of its cause exactly that many steps earlier, lag matrices are stacked and reported in increasing lag order starting with the instantaneous one, and residuals belong to the time points they were computed for. "
     "Fitting leaves out time points before the first complete history rather than filling them, pruning keeps instantaneous and lagged effects consistent, and user-supplied coefficients replace estimation.",
     ["inputs", "configurations"], "every series, number of lags, time point and estimator setting",
     "Tests use one lag on generated data; off-by-one lag slices, reversed lag blocks and wrong offsets are invisible with a single lag.",
     ["lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
     [("lag slices and offsets", "_calc_residuals, _pruning, _estimate_lagged_effects"), ("structural matrices from reduced-form coefficients", "VARLiNGAM._calc_b, VARMALiNGAM._calc_psi_and_omega"), ("column layout of joined effects", "bootstrap, estimate_total_effect")],
     CONF, CTRUST + "Decides: all index arithmetic on lags and time points in fits, residuals, bootstraps, effects and summaries.")

prop("C17", "Interventions and simulations propagate along the graph only",
     "Effects of interventions on predictions, optimal interventions, and simulated or generated data are computed by propagating values along the given causal graph in causal order: intervened or replaced variables take exactly the given values, their descendants respond through the fitted or supplied models, and everything else keeps its observed or noise-driven value. "
     "Supplied models, noise and data are matched to variables by name and role, unsupported inputs are refused, and repeated simulations from one training are independent of each other.",
     ["inputs", "configurations", "histories"], "every graph, model, intervention, replacement noise or model and data set",
     "Tests run one small graph and check column names; wrong parents, order or noise reuse gives data of the same shape.",
     ["lingam/causal_effect.py", "lingam/causal_based_simulator.py", "lingam/experimental/cdg.py"],
     [("propagation in causal order", "CausalEffect._get_propagated_effects, CausalBasedSimulator._simulate"), ("training of one model per variable", "CausalBasedSimulator._train"), ("generation with noise ratios", "CausalDataGenerator.generate")],
     CONF, CTRUST + "Decides: propagation, training inputs, noise selection and generated columns.")

prop("C18", "Graph utilities answer for the graph they are given",
     "Path search returns exactly the directed paths from one variable to another with the product of their coefficients, root, sink and distance queries and effect removal refer to causes in columns and effects in rows, and the model description handed to structural equation fitting names every edge, hidden common cause and ordinal variable of the given graph once. "
     "Coefficients count as edges by size, so negative ones count as much as positive ones, and undefined entries are treated as hidden common causes.",
     ["inputs"], "every adjacency matrix (signs, undefined entries, any number of variables), variable list and data set",
     "Tests use one small positive graph; negative coefficients, undefined entries and unconnected variables are missing.",
     ["lingam/utils/__init__.py"],
     [("path search", "find_all_paths"), ("roots and sinks", "get_exo_variables, get_sink_variables"), ("distances", "calculate_distance_from_root_nodes"), ("effect removal", "remove_effect"), ("SEM description", "evaluate_model_fit")],
     CONF, CTRUST + "Decides: the value of each utility.")

prop("C19", "Latent-confounder methods report only what their tests support",
     "Methods that allow hidden common causes list an ancestor or parent only if the required non-Gaussianity, correlation and independence tests all support it at the given significance levels, mark exactly the pairs with an unexplained dependence as undefined in both directions, and leave pairs found independent at zero. "
     "Undecided groups of variables stay unordered, and thresholds, maximum set sizes and the choice of test act as documented.",
     ["inputs", "configurations"], "every data set, significance level, test choice and set-size limit",
     "Tests check that a seeded fit finishes; a test negated or applied to the wrong residual changes conclusions only for some data.",
     ["lingam/rcd.py", "lingam/camuv.py", "lingam/bottom_up_parce_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_camuv.py", "lingam/utils/_rcd.py"],
     [("ancestor search", "RCD._extract_ancestors"), ("parents and confounded pairs", "RCD._extract_parents, _extract_vars_sharing_confounders"), ("independence tests with alternatives", "_is_independent"), ("undetermined block", "BottomUpParceLiNGAM._search_causal_order")],
     CONF, CTRUST + "Decides: test conditions, residuals tested, and marks written.")

prop("C20", "Drawn and printed graphs show exactly the given graph",
     "Drawings and printed listings contain an edge for exactly those coefficients whose size exceeds the lower limit, pointing from cause to effect with the label of that coefficient, use the caller's names, and draw hidden common causes, predictions, highlighted paths and detected cycles only where the input has them. "
     "Printed direction and graph counts show each entry's own percentage, names and signs.",
     ["inputs", "configurations"], "every matrix, label list, lower limit and drawing option",
     "Tests only call the functions and look at no output.",
     ["lingam/utils/__init__.py"],
     [("edge and node calls", "make_dot, make_dot_highlight"), ("listings", "print_causal_directions, print_dagc")],
     CONF, CTRUST + "Decides: the sequence of node, edge and print calls with their arguments and conditions.")

prop("C21", "Mixed-data and factor models optimise their documented objective",
     "The estimator for mixed continuous and discrete data and the latent-factor estimators build their loss, acyclicity penalty, gradients, thresholding, orientation choice by score and augmented-Lagrangian updates from the documented formulas, treating continuous and discrete variables according to the caller's declaration and each domain's data in its own block. "
     "Settings such as loss type, penalties, tolerances and thresholds act where documented.",
     ["inputs", "configurations"], "every data set, variable-type declaration, domain split and setting",
     "Tests run one seeded case per model and check attribute presence; a wrong gradient term or penalty still converges somewhere.",
     ["lingam/lim.py", "lingam/lina.py"],
     [("loss and gradients", "LiM._estimate_LiM, LiNA._estimate_LiNA"), ("global orientation search", "LiM.fit"), ("multi-domain blocks", "MDLiNA._estimate_MDLiNA_H, _estimate_MDLiNA_B")],
     CONF, CTRUST + "Decides: objective, gradient and update expressions; not that the optimiser converges (see not_applicable).")

prop("C22", "Tuning and imputation-bootstraps score every candidate fairly",
     "Out-of-sample tuning evaluates every configuration on the same folds, predicts each variable only from its Markov blanket in the graph estimated on the training part, scores held-out predictions only, and selects the sparsest configuration not significantly worse than the best. "
     "Bootstrapping with imputation resamples the rows with missing values kept, gives the same resampled data to imputation, checks what user-supplied components return, and stores each sample's imputed data, graphs and indices together.",
     ["inputs", "configurations"], "every list of configurations, data set, missing-value pattern and user-supplied component",
     "Tests run one configuration list; leakage of test rows, a wrong blanket or an inverted comparison still returns some configuration.",
     ["lingam/tools/__init__.py", "lingam/experimental/oct.py"],
     [("fold loop, scoring and selection", "OutOfSampleCausalTuning.fit"), ("imputation loop", "bootstrap_with_imputation")],
     CONF, CTRUST + "Decides: data given to each fit and prediction, score arithmetic, selection rule, stored results.")

prop("C23", "Nonlinear effect curves adjust for the cause's own parents",
     "Visualised nonlinear effects are regressions of the effect on the cause and on every direct cause of the cause in each given graph, whatever the coefficients' size and the row labels of the data, evaluated over the observed range of the cause; every bootstrap graph contributes. "
     "Graphs that are not matrices or bootstrap results are refused.",
     ["inputs", "configurations"], "every data set, graph or bootstrap result and pair of variables",
     "Tests call it with default data and inspect nothing; adjusting for the wrong variables draws a plausible curve.",
     ["lingam/utils/_visualize_nonlinear_causal_effect.py"],
     [("adjustment set and regression", "_calculate"), ("drawing", "_draw")],
     CONF, CTRUST + "Decides: regression inputs, evaluation grid, aggregation over graphs.")

NA_RUN = "quantifies over sampled data distributions and the numerical behaviour of external estimators; no static argument about this source bounds it"
prop("C24", "Estimators recover the true causal structure in the limit",
     "When the data really follow the assumed model, the estimated causal order and coefficients converge to the true ones as the number of observations grows.",
     ["inputs"], "all data-generating models satisfying the assumptions", "One seeded data set says nothing about convergence.",
     ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/rcd.py"], [("order search", "_search_causal_order")], na="Statistical consistency: " + NA_RUN + ".")
prop("C25", "Independence p-values are calibrated",
     "Under independence the reported p-values are approximately uniform, so significance levels mean what they say.",
     ["inputs"], "all pairs of independent variables", "Needs the distribution of the statistic over repeated samples.",
     ["lingam/hsic.py"], [("gamma approximation", "hsic_test_gamma")], na="Calibration of an approximation over repeated sampling: " + NA_RUN + ". That the formula is the published one is claimed as C15.")
prop("C26", "Order estimates do not depend on units or column order",
     "Rescaling variables by positive factors or permuting columns permutes the estimate accordingly, up to ties and rounding.",
     ["inputs"], "all data sets, scalings and permutations", "Tests never compare two related fits.",
     ["lingam/direct_lingam.py"], [("standardised scores", "DirectLiNGAM._diff_mutual_info")],
     na="An algebraic invariance that holds only up to floating-point ties in argmin/argmax over data-dependent values and through external regressors and ICA; deciding it from source would need a relational proof about library numerics.")
prop("C27", "Optimisers of the mixed-data and factor models converge",
     "For admissible data the optimisation terminates within the iteration limits at a point satisfying the acyclicity tolerance.",
     ["inputs"], "all data sets and settings", "Tests run one seed.",
     ["lingam/lim.py", "lingam/lina.py"], [("augmented Lagrangian loop", "LiM._estimate_LiM")], na="Convergence of a non-convex numerical optimisation: " + NA_RUN + ".")
prop("C28", "Degenerate data give an error or finite estimates",
     "Constant columns, duplicated columns or fewer rows than columns lead to a clear error or to finite numbers, never to silent NaN results.",
     ["inputs"], "all degenerate data sets", "Tests use well-behaved data.",
     ["lingam"], [("regressions and covariance inverses", "fit methods")], na="Whether a division or factorisation degenerates depends on runtime numerical values inside numpy/scikit-learn; no bound on them is available statically.")
