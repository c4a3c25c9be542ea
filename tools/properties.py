"""Writes properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": ["laplax/" + f for f in files],
                     "mechanism": [{"name": n, "where": "laplax/" + w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = list(observe)
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where="laplax/" + c) for a, b, c in state]
    P.append(d)

p("C01", "Flattening a parameter tree and unflattening it is lossless",
  "For every parameter tree (any nesting, leaf ranks, dtypes, empty leaves), flattening gives one vector holding every entry exactly once in traversal order, and unflattening that vector restores the same structure, shapes and values. The partial, 2-D (column-wise) and low-rank-factor variants are the same bijection applied per row or column, and wrapping a function with the conversion equals converting, calling and converting back. Vectors of the wrong length are never silently accepted as another tree.",
  ["inputs", "programs"], "all tree shapes from a grammar up to a leaf bound, all leaf ranks, dtypes, options of the wrappers",
  "Tests flatten three hand-written trees; the guarantee is over all structures and all slice boundaries.",
  ["util/flatten.py", "util/tree.py"],
  [("flatten/unflatten index arithmetic", "util/flatten.py:create_pytree_flattener"), ("partial flatten", "util/flatten.py:create_partial_pytree_flattener"), ("function wrapping", "util/flatten.py:wrap_function"), ("unravel", "util/flatten.py:unravel_array_into_pytree")])
p("C02", "Matrix-free operators densify to exactly the matrix they apply",
  "Turning a linear operator given only as a function into a dense matrix, or extracting its diagonal, yields exactly the entries of the operator, for integer and tree-shaped domains, for every batching of the basis vectors, traced or not. Basis vectors enumerate every coordinate of the domain once, in flattening order.",
  ["inputs", "configurations"], "all operator sizes and tree layouts up to the bound, every batch size, jit flag and precision",
  "Tests use one or two symmetric matrices with the default batch size; off-by-one batches, transposes and layout permutations need asymmetric matrices at every size.",
  ["util/mv.py", "util/tree.py"],
  [("to_dense", "util/mv.py:to_dense"), ("diagonal", "util/mv.py:diagonal"), ("basis vectors", "util/tree.py:basis_vector_from_index")])
p("C03", "Tree arithmetic equals flat-vector arithmetic",
  "Every tree-valued arithmetic, comparison, statistic and random-draw helper returns what the corresponding operation on the flattened vectors returns, with structure preserved, for all tree shapes. Random trees are reproducible from their key, have the requested structure, and different leaves are independent draws.",
  ["inputs"], "all operand trees of the grammar, scalars, all statistics and axes",
  "Tests sample a single tree per helper.",
  ["util/tree.py"], [("tree maps", "util/tree.py")])
p("C04", "Streaming a dataset in batches never changes the result",
  "For every way of cutting a finite dataset into non-empty consecutive batches and every iterable that delivers them, batch-wise sums, sample means and concatenations, and streamed linear operators (applied, densified, diagonal, re-wrapped) equal the single-batch result. Batches are visited in order, once each per pass; empty loaders are rejected with a value error; an exception in one pass leaves later passes exact.",
  ["inputs", "histories", "fault_sequences"], "all ordered partitions of N samples, all loader kinds, all reductions, all operation histories on a streamed operator to a depth, an exception at every batch",
  "Tests use equal-size batches of one dataset; uneven last batches, wrap histories and faults are not reached.",
  ["util/loader.py", "util/mv.py", "util/flatten.py"],
  [("reductions", "util/loader.py:reduce_online_mean"), ("process_batches", "util/loader.py:process_batches"), ("streamed operator", "util/loader.py:DataLoaderMV"), ("operator wrapping", "util/loader.py:_wrap_function")])
p("C05", "The Gauss-Newton operator is the exact scaled sum over samples of J'HJ",
  "For every model, supported loss, parameters and data, the Gauss-Newton matrix-vector product equals the (scaled) sum over samples of the Jacobian-transpose times loss-Hessian times Jacobian, with the scaling being the ratio of total to used samples and the user factor exactly as documented. It is linear, symmetric, and positive semi-definite for convex losses, does not depend on whether the data are vectorised, streamed or given in one batch, and exactly one source of the loss Hessian must be supplied.",
  ["inputs", "configurations"], "product of models x losses x batch sizes x scaling options x vectorisation x output rank",
  "Tests compare a few losses on one dataset size, where a wrong scale or axis can cancel.",
  ["curv/ggn.py"], [("ggn mv", "curv/ggn.py:create_ggn_mv_without_data"), ("scaling", "curv/ggn.py:create_ggn_mv"), ("loss hessian dispatch", "curv/ggn.py:create_loss_hessian_mv")])
p("C06", "Loss-Hessian and full-Hessian products are exact second derivatives",
  "The loss-Hessian product equals the second derivative of the stated loss with respect to the model output, for every supported loss and every output and target; the full Hessian product equals the second derivative of the loss over data with respect to parameters. For models linear in their parameters the full Hessian equals the Gauss-Newton matrix.",
  ["inputs", "configurations"], "product of losses, output sizes, logits incl. extreme ones, models, batch sizes",
  "Tests check a small set of random outputs with a tolerance; saturated logits, single-class outputs and bigger trees are not reached.",
  ["curv/hessian.py", "curv/ggn.py"], [("hvp", "curv/hessian.py:hvp"), ("hessian mv", "curv/hessian.py:create_hessian_mv"), ("cross entropy", "curv/ggn.py:_cross_entropy_hessian_mv"), ("binary CE", "curv/ggn.py:_binary_cross_entropy_hessian_mv")])
p("C07", "Every posterior is the inverse of scaled curvature plus prior precision",
  "For each curvature representation (full, diagonal, Lanczos low-rank, LOBPCG low-rank), the posterior covariance product equals the inverse of (noise-scaled curvature plus prior precision, divided by the loss scaling) for every positive prior precision, noise and loss scaling, and the scale factor times its transpose equals that covariance. Representations agree wherever they represent the same matrix, in flat as well as in tree coordinates, and posterior samples have the parameters' structure.",
  ["inputs", "configurations"], "all curvature kinds x spectra (incl. rank deficient, repeated) x layouts x precision/noise/scaling grids",
  "Tests use prior arguments with unit loss scaling and one spectrum, where missing factors cancel.",
  ["curv/cov.py", "curv/full.py", "curv/diagonal.py", "curv/low_rank.py"],
  [("precision", "curv/full.py:create_full_curvature / full_prec_to_scale"), ("diagonal", "curv/diagonal.py"), ("low rank", "curv/low_rank.py"), ("assembly", "curv/cov.py:create_posterior_fn")])
p("C08", "Posterior and predictive results never depend on earlier calls",
  "A curvature estimate, posterior function or predictive function may be called any number of times with any prior arguments and inputs in any order, and each call returns what a freshly built object would return for the same arguments. The caller's arrays, parameter trees, dictionaries, and lists are never modified.",
  ["histories", "inputs"], "all operation sequences up to a depth over a menu of posterior and predictive calls with different arguments, per curvature kind and pushforward",
  "Tests call each object once or twice with one argument.",
  ["curv/cov.py", "curv/utils.py", "eval/pushforward.py", "api.py"],
  [("closures over curvature estimate", "curv/cov.py:create_posterior_fn"), ("posterior state", "curv/cov.py:Posterior"), ("predictive closures", "eval/pushforward.py:set_lin_pushforward")])
p("C09", "Lanczos returns true eigenpairs of the operator it is given",
  "For every symmetric operator and starting vector, the Lanczos decomposition has orthonormal columns and reproduces the operator on the Krylov space; when the requested rank reaches the Krylov dimension the low-rank result reconstructs the operator on that space exactly and reports no spurious eigenvalue, including after early breakdown. Returned dtypes and reproducibility from key or start vector are as requested, and jit-compatible and non-jittable operators give the same result.",
  ["inputs", "configurations"], "all matrices of a spectrum family (incl. zero, repeated, rank-deficient, negative) x sizes x ranks x start vectors x dtype options",
  "Tests run one random full-rank matrix; breakdown needs particular spectra and start vectors.",
  ["curv/lanczos.py"], [("iterations", "curv/lanczos.py:lanczos_iterations"), ("low rank", "curv/lanczos.py:lanczos_lowrank")])
p("C10", "LOBPCG returns the leading eigenpairs with orthonormal vectors",
  "For every non-zero symmetric positive semi-definite operator in the size range the method accepts, the returned vectors are orthonormal, the returned values are their Rayleigh quotients in descending order and never outside the spectrum, and they are exactly the leading eigenpairs when the operator's rank does not exceed the rank used. If the requested rank is too large for the operator's size it is reduced to the documented limit rather than failing; jit-compatible and non-jittable operators give the same result.",
  ["inputs", "configurations"], "sizes x ranks x spectra x operator kinds x iteration bounds",
  "Tests use one size and rank; the boundary between accepted and rejected sizes is not reached.",
  ["curv/lobpcg.py"], [("wrapper", "curv/lobpcg.py:lobpcg_lowrank"), ("non-jit variant", "curv/lobpcg.py:lobpcg_standard")])
p("C11", "Low-rank solvers leave the global floating-point mode as found",
  "Whatever precision mode the program runs in, a low-rank decomposition that temporarily computes in another precision leaves that mode exactly as it found it, after success, after any failure of the operator at any call, when nested, and when several threads decompose at once. No other thread ever observes a precision mode it did not set.",
  ["schedules", "fault_sequences", "configurations"], "an exception at every operator call, every option of the temporary precision, nesting, every interleaving of two threads at operator calls",
  "Tests are single-threaded, never raise inside the operator and do not check the mode afterwards.",
  ["curv/lanczos.py", "curv/lobpcg.py"], [("x64 toggle", "curv/lanczos.py:lanczos_lowrank"), ("x64 toggle", "curv/lobpcg.py:lobpcg_lowrank")],
  state=[("x64 mode", "process-wide or thread-local JAX precision switch", "curv/lanczos.py")])
p("C12", "Registering a curvature method makes it usable everywhere, all or nothing",
  "A newly registered curvature method uses exactly the functions supplied and, where one is omitted, those of the chosen default method; a registration lacking both is rejected with an error and leaves every existing method as it was. Registered methods work in every entry point that takes a curvature name, and other methods are unaffected by any sequence of registrations.",
  ["histories", "configurations"], "all subsets of supplied functions x all defaults x all sequences of registrations up to a depth",
  "Tests register one method once, fully or with one default.",
  ["register.py", "curv/cov.py", "curv/utils.py", "api.py"], [("registration", "register.py:register_curvature_method"), ("dispatch tables", "curv/cov.py")])
p("C13", "Prior-precision grid search returns the best candidate it was allowed to see",
  "Over any sequence of objective values, including not-a-number, infinities and failures, the search evaluates candidates in the given order and at most the allowed number of them (at least one), stops early exactly when the objective has increased from one candidate to the next the configured number of times in a row, and returns a candidate with the smallest objective seen, where not-a-number and a raised ValueError count as infinitely bad. The default grid is log-spaced with the stated number of points and both end points included.",
  ["histories", "fault_sequences", "inputs"], "every objective sequence over a value alphabet (ties, rises, falls, nan, +-inf, exceptions) up to a length x patience x iteration limits",
  "Tests run one smooth objective.",
  ["eval/calibrate.py"], [("search loop", "eval/calibrate.py:grid_search"), ("grid", "eval/calibrate.py:optimize_prior_prec")])
p("C14", "The marginal log-likelihood is the exact Laplace evidence for each curvature",
  "For each curvature representation the marginal log-likelihood equals the log joint (minus the summed loss over twice the noise scale, plus the log Gaussian prior) at the map estimate, plus P/2 log 2 pi, minus half the log-determinant of the posterior precision, computed with dense linear algebra. Representations describing the same matrix yield the same value for every prior precision and noise level.",
  ["inputs", "configurations"], "curvature kinds x spectra x ranks x precisions x losses x data",
  "Tests check that full, diagonal and low-rank values agree loosely on one model.",
  ["eval/likelihood.py"], [("evidence", "eval/likelihood.py:marginal_log_likelihood"), ("log-determinants", "eval/likelihood.py:low_rank_marginal_log_likelihood")])
p("C15", "Linearised predictions are the Gaussian N(f(x), J Sigma J')",
  "For every model, input, posterior and prior arguments, the linearised predictive mean is the model output at the map estimate, the covariance (a matrix over the flattened output) is Jacobian times posterior covariance times Jacobian transpose, and variance, standard deviation and samples are those of the same Gaussian. This holds for every selection and every admissible order of the requested outputs.",
  ["inputs", "configurations"], "models x outputs of rank 0-2 x curvature kinds x all ordered selections of outputs x prior arguments",
  "Tests check a toy problem in one order of outputs.",
  ["eval/pushforward.py"], [("linear pushforward", "eval/pushforward.py:set_lin_pushforward"), ("variance/std reuse", "eval/pushforward.py:lin_pred_var")])
p("C16", "The induced Gaussian-process kernel is J(x) Sigma J(x')'",
  "The kernel returned for a posterior equals Jacobian at the first input times posterior covariance times transposed Jacobian at the second, as an operator or dense, for all pairs of inputs, with or without output layout. It is symmetric under exchange of inputs and agrees on the diagonal with the linearised predictive covariance.",
  ["inputs", "configurations"], "models x input pairs x curvature kinds x dense/operator x layouts",
  "Tests check one model without exchanging inputs or using the dense option for larger outputs.",
  ["eval/pushforward.py"], [("kernel", "eval/pushforward.py:set_posterior_gp_kernel")])
p("C17", "Sampled predictions are statistics of the model at posterior samples",
  "Monte-Carlo predictions evaluate the model at the drawn parameter samples: mean, variance, covariance and standard deviation are the population statistics of exactly that ensemble and the returned samples are its first members, whatever subset and order of outputs is requested; class probabilities average over the whole ensemble. The prediction reported as the map is the model at the map estimate.",
  ["inputs", "configurations"], "models x sample counts x all ordered selections of outputs x returned-sample counts",
  "Tests check shapes and a loose tolerance; estimator conventions that depend on the output order are not reached.",
  ["eval/pushforward.py"], [("nonlinear pushforward", "eval/pushforward.py:set_nonlin_pushforward")])
p("C18", "Posterior weight samples are map plus scale times noise, reproducible by index",
  "Sample i equals the map estimate plus the scale operator applied to a standard-normal tree drawn from the i-th sub-key, for every curvature kind; precomputed and on-the-fly sampling return identical samples. The same key and index always give the same sample and different indices give different draws.",
  ["inputs", "configurations", "histories"], "curvature kinds x keys x sample counts x precompute options x index access patterns",
  "Tests only check mean and shapes with one mode.",
  ["eval/pushforward.py", "util/ops.py", "util/tree.py"], [("weight samples", "eval/pushforward.py:set_get_weight_sample"), ("lazy/precomputed lists", "util/ops.py:precompute_list")])
p("C19", "Predictive probabilities follow their formulas and are valid distributions",
  "The mean-field (orders 0 to 2), Laplace-bridge and Monte-Carlo predictive transforms equal their published closed forms on every logit mean and covariance (the bridge: positive variances, at least two classes) and always give values between zero and one, which sum to one for the transforms that normalise (order-0 mean-field, bridge, Monte Carlo). The class-probability outputs of both pushforwards apply the transform to exactly the predictive mean, variance, covariance or samples of that pushforward.",
  ["inputs", "configurations"], "logit means (incl. ties and extremes) x covariances (zero, diagonal, full) x class counts x pushforward kinds x transforms",
  "Tests check one example per transform for two or three classes.",
  ["eval/predictives.py", "eval/pushforward.py"], [("transforms", "eval/predictives.py"), ("application", "eval/pushforward.py:lin_special_pred_act")])
p("C20", "Evaluation metrics equal their definitions",
  "Every regression and classification metric equals its definition (accuracy with top-k, Brier score, negative log-likelihood, cross-entropy, chi-squared, root-mean-square error, continuous ranked probability score) on all predictions and targets, one-hot or index-coded where both are allowed.",
  ["inputs"], "all small predictions/targets over a value alphabet incl. ties, zeros and ones, all class counts, all k",
  "Tests check a handful of examples.",
  ["eval/metrics.py"], [("metrics", "eval/metrics.py")])
p("C21", "Calibration error bins every prediction exactly once",
  "For every non-empty set of confidences and outcomes and every number of bins, each prediction falls into exactly one of the equal-width bins (closed on the left, the last one on both sides), bin accuracies and confidences are the plain averages of its members, and expected and maximum calibration errors are the weighted average and the maximum of their gaps. Results do not depend on the order of predictions nor on whether outcomes are booleans or numbers.",
  ["inputs"], "all sequences of (confidence, outcome) over a grid incl. bin edges, 0 and 1, up to a length x bin counts x outcome types",
  "Tests use one random draw with float outcomes, and bin edges have measure zero in it.",
  ["eval/metrics.py"], [("binning", "eval/metrics.py:calculate_bin_metrics"), ("ece/mce", "eval/metrics.py:calibration_error")])
p("C22", "Metrics are the same over datasets and streams; caller inputs are untouched",
  "Evaluating a prediction function with metrics on an in-memory dataset equals evaluating it on any batch stream of the same data, sample by sample, and applies every reduction to the per-sample values exactly. No call changes the caller's metric lists, dictionaries or the library's default metric tables, so repeated evaluation gives the same result.",
  ["inputs", "histories", "configurations"], "all partitions of small datasets x metric containers x reductions x repetition histories",
  "Tests evaluate each path once, with one container.",
  ["eval/utils.py", "eval/metrics.py"], [("dataset", "eval/utils.py:evaluate_metrics_on_dataset"), ("generator", "eval/utils.py:evaluate_metrics_on_generator")])
p("C23", "Result pipelines compute each requested field from the right inputs",
  "When a chain of result functions is applied, each named function runs once in the given order on the accumulated results, fields are delivered under the requested names, and metric argument mapping passes exactly the named predictions. Transferring entries between names copies the value, a missing entry raises an error, and lists of names, pairs of names and dictionaries of names are all handled alike.",
  ["programs", "configurations"], "all pipelines up to a length over functions that read and write named fields, all mapping forms (list, tuple, dict, string)",
  "Tests use one mapping.",
  ["eval/utils.py"], [("apply_fns", "eval/utils.py:apply_fns"), ("transfer", "eval/utils.py:transfer_entry"), ("finalize", "eval/utils.py:finalize_fns")])
p("C24", "The high-level curvature and Laplace entry points equal the low-level ones",
  "Building a curvature product or posterior through the high-level interface gives the same operator and posterior as the low-level functions with the documented scaling, for tuple, dict, and streamed data, with or without batch axis, every loss and curvature name (string or enum, registered ones included). Invalid combinations are rejected with an error naming the problem.",
  ["inputs", "configurations"], "data formats x batch axis x losses x curvature kinds x sample scaling arguments",
  "Tests run a default configuration per curvature.",
  ["api.py"], [("GGN", "api.py:GGN"), ("laplace", "api.py:laplace"), ("data wrapping", "api.py:_maybe_wrap_loader_or_batch")])
p("C25", "High-level calibration returns the best prior precision for each objective",
  "For every supported objective, curvature and prediction type the calibration entry point returns the grid point minimising the stated objective as recomputed from its definition, together with a predictive builder that matches it. Options given as strings or enums are equivalent, every option of the grid search is honoured, and unsupported combinations are rejected.",
  ["configurations", "inputs"], "objectives x curvature kinds x predictive types x pushforward types x data formats",
  "Tests run one combination without recomputing the objective.",
  ["api.py", "eval/calibrate.py", "eval/likelihood.py"], [("calibration", "api.py:calibration")])
p("C26", "High-level evaluation covers every sample once for every option combination",
  "For every supported combination of metrics, prediction type, pushforward and data source (arrays, dicts, re-iterable and one-shot streams), evaluation returns for each requested metric one value computed from every sample exactly once, equal to recomputation from the predictive distribution. The user's reduction is honoured on every data source and the returned prediction function agrees with the evaluated one.",
  ["configurations", "inputs"], "metric sets x predictive types x pushforward types x data sources x reductions",
  "Tests run a few combinations on one dataset.",
  ["api.py", "eval/utils.py"], [("evaluation", "api.py:evaluation"), ("pushforward setup", "api.py:_setup_pushforward"), ("metric resolution", "api.py:_resolve_metrics")])
p("C27", "Derivatives with respect to the prior are the derivatives of the values",
  "Prior arguments can be optimised by gradients: for every curvature kind (rank-deficient and zero modes included), model and prior, the first and second derivatives of posterior products, weight samples, the evidence, predictive means, covariances, standard deviations and class probabilities, the kernel and every differentiable calibration objective with respect to prior precision and noise are those of the computed values, in forward and reverse mode, jitted and vectorised. A gradient-based calibration method registered by the user sees these derivatives and descends to where they lead.",
  ["inputs", "configurations"], "quantities x curvature kinds x models x differentiation modes x prior points; objectives x predictives x pushforwards through calibration()",
  "Tests compare values; a stopped gradient, a host conversion or a clipped branch leaves every value intact.",
  ["curv/cov.py", "curv/full.py", "curv/diagonal.py", "curv/low_rank.py", "eval/pushforward.py", "eval/likelihood.py", "eval/calibrate.py", "api.py", "register.py"],
  [("posterior", "curv/cov.py:set_posterior_fn"), ("evidence", "eval/likelihood.py:marginal_log_likelihood"), ("predictions", "eval/pushforward.py:set_lin_pushforward"), ("registered calibration", "register.py:register_calibration_method")])
p("C28", "Tracing, vectorising or nesting a computation never changes its value",
  "Every public computation on arrays (posterior products, weight samples, predictions, kernel, evidence, calibration objectives, curvature products and estimates, metrics, calibration bins, predictive transforms, flattening, tree helpers, batch reductions) gives the same values, shapes and dtypes when called directly, under jit, vmap, scan, map, loops, branches, rematerialisation or with jit disabled, for every choice of which arguments are mapped, shared or compile-time constants.",
  ["programs", "configurations", "inputs"], "programs x assignments of roles to arguments x transformations",
  "Tests call functions directly with one argument set; Python branching on values, host conversions or wrong axis assumptions only show when particular arguments are mapped.",
  ["curv/cov.py", "curv/ggn.py", "curv/hessian.py", "curv/low_rank.py", "eval/pushforward.py", "eval/likelihood.py", "eval/metrics.py", "eval/predictives.py", "util/flatten.py", "util/tree.py", "util/loader.py", "util/mv.py"],
  [("posterior closures", "curv/cov.py:set_posterior_fn"), ("pushforward", "eval/pushforward.py:set_lin_pushforward"), ("metrics", "eval/metrics.py"), ("tree helpers", "util/tree.py")])
p("C29", "Results do not depend on how parameters, samples and classes are arranged",
  "Reordering or replicating the dataset (with matching sample counts), relabelling the classes or outputs, or storing the same parameters in another tree (renamed, nested, split, transposed, one vector, or orthogonally mixed under the isotropic prior) leaves the posterior covariance, predictions, kernel, evidence, calibrated prior precision and evaluation metrics of the whole pipeline unchanged up to the same rearrangement.",
  ["inputs", "configurations"], "all permutations of samples and classes, a list of parameter layouts, replications x curvature kinds x tasks, end to end through the high-level functions",
  "Tests use one arrangement, where a mix-up between insertion order and sorted order, rows and columns, or first and last class is invisible.",
  ["api.py", "curv/ggn.py", "curv/cov.py", "eval/pushforward.py", "eval/predictives.py", "eval/likelihood.py", "util/flatten.py"],
  [("laplace", "api.py:laplace"), ("calibration", "api.py:calibration"), ("evaluation", "api.py:evaluation"), ("flattening", "util/flatten.py:create_pytree_flattener")])
p("C30", "Errors in user code surface unchanged and leave everything usable",
  "When code supplied by the user (model, loss, operator, loss Hessian, data loader, transform, reduction, metric, result function, predictive, objective, registered curvature or calibration function) raises at any of its calls, that very exception reaches the caller and is neither swallowed nor replaced; the only exception is a grid search, which skips a candidate whose objective raises ValueError. Afterwards the same operators, streams, posteriors, predictives, metric lists and registries, the precision mode and the caller's data are as before, and repeating this or another operation on them gives what it gives on fresh objects.",
  ["crash_points", "histories"], "every public operation that calls user code x every position of such a call x kind of exception x the operation that follows",
  "Tests never make user code fail, let alone at the n-th batch, and never go on afterwards.",
  ["util/loader.py", "api.py", "register.py", "eval/utils.py", "eval/calibrate.py", "eval/pushforward.py", "curv/cov.py", "curv/lanczos.py", "curv/lobpcg.py"],
  [("batches", "util/loader.py:process_batches"), ("grid search", "eval/calibrate.py:grid_search"), ("precision switch", "curv/lanczos.py:lanczos_lowrank"), ("metrics", "eval/utils.py:apply_fns")])
p("C31", "Threads that share objects each get what they would have got alone",
  "Two threads may use the same model, data, re-iterable data stream, operator, posterior function, result-function and metric lists and registered methods at the same time, with their own arguments (vectors, prior, inputs, keys). Whatever the interleaving of their calls of user code, each gets the result it would have got alone, including while the other runs an eigensolver in another floating-point precision, and nothing shared is changed.",
  ["schedules"], "pairs of public operations on shared objects x all schedules with control changing hands at calls of user code, up to a number of preemptions",
  "Tests are single-threaded; state kept on an object or in a module between two calls of user code is invisible there.",
  ["util/loader.py", "eval/utils.py", "eval/pushforward.py", "curv/cov.py", "curv/lanczos.py", "curv/lobpcg.py", "api.py"],
  [("streams", "util/loader.py:DataLoaderMV"), ("metrics", "eval/utils.py:apply_fns"), ("precision switch", "curv/lanczos.py:lanczos_lowrank")])
p("C32", "How numbers are represented does not change what is computed",
  "Every public operation gives the same result for NumPy and JAX arrays, for whole-number data in any integer type and in floating point, for scalars given as Python, NumPy or JAX numbers (integers included), and for raw and typed random keys. In JAX's default single-precision mode every operation works, returns single-precision results and agrees with the double-precision value to single-precision accuracy, and the precision mode stays as it is.",
  ["inputs", "configurations"], "public operations x representations of their arguments; the configuration spaces of other properties repeated in single precision",
  "Tests use one representation each and compare single-precision results with single-precision ones.",
  ["api.py", "curv/ggn.py", "curv/cov.py", "curv/full.py", "curv/diagonal.py", "curv/low_rank.py", "curv/lanczos.py", "eval/pushforward.py", "eval/likelihood.py", "eval/metrics.py", "util/loader.py"],
  [("posterior", "curv/cov.py:set_posterior_fn"), ("keys", "eval/pushforward.py:set_get_weight_sample"), ("single precision", "curv/lanczos.py:lanczos_lowrank")])
if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(d) + "\n" for d in P))
    for d in P: assert len(d["title"]) <= 80, d["id"]
