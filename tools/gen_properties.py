"""Writes /verif/properties.jsonl (the source of the property list)."""

import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=" ".join(statement.split()),
            quantifier=dict(over=over, text=" ".join(quant.split())),
            why_tests_cant=" ".join(why.split()),
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe or [],
                hook_needed=None,
            ),
        )
    )


S = "src/bmi/samplers/"
E = "src/bmi/estimators/"
B = "src/bmi/benchmark/"

prop(
    "P01",
    "Gaussian ground-truth mutual information is exact",
    """For every mean, positive-definite covariance and split of the coordinates, the ground-truth
    mutual information of every jointly Gaussian distribution (general, bivariate, and the Gaussian
    component of mixture models) equals 0.5*log(det Sxx * det Syy / det S), is never negative, NaN or
    infinite, and is zero exactly when the cross-covariance vanishes.  It does not depend on the mean,
    is symmetric in X and Y, does not change under invertible linear maps of X alone or Y alone
    (in particular under any rescaling of the units, at any scale and dimension representable in
    double precision), and grows when coordinates are added to X or Y.""",
    ["inputs"],
    "all dimensions, covariance matrices (any scale, conditioning up to 1e6), means and splits",
    """Unit tests use a few 2x2 to 6x6 unit-variance matrices; under- and overflow of determinants at
    other scales/dimensions, mean dependence and block mix-ups at unequal dims are not reached.""",
    [S + "_splitmultinormal.py", S + "_tfp/_normal.py"],
    [("entropy of a multivariate normal", S + "_splitmultinormal.py: _Multinormal.entropy"),
     ("h(X)+h(Y)-h(X,Y)", S + "_splitmultinormal.py: SplitMultinormal.mutual_information"),
     ("closed form for a correlation", S + "_splitmultinormal.py: BivariateNormalSampler")],
    ["mutual_information()", "analytic_mi"],
)

prop(
    "P02",
    "Student-t ground-truth mutual information is exact",
    """For every degrees of freedom (any positive real, including infinity, which means Gaussian),
    dispersion, mean and split, the ground-truth mutual information of a multivariate Student-t pair
    equals h(X)+h(Y)-h(X,Y) with the differential entropies of the Student-t marginals and joint;
    it is finite and equals the Gaussian term plus a non-negative correction which depends only on the
    dimensions and degrees of freedom and vanishes as the degrees of freedom grow.  The reported
    covariance is df/(df-2) times the dispersion (the dispersion itself for infinite df) and is
    refused when df <= 2.""",
    ["inputs"],
    "all dims up to the hundreds, df in (0, 1e6] and inf, all positive-definite dispersions and means",
    """Tests compare a few small dims and df <= ~30; the gamma-function overflow for large df or dims,
    the infinite-df case and fractional df are never executed.""",
    [S + "_split_student_t.py", S + "_tfp/_student.py"],
    [("Student-t differential entropy", S + "_split_student_t.py: _differential_entropy"),
     ("sum of Gaussian part and correction", S + "_split_student_t.py: SplitStudentT.mutual_information")],
    ["mutual_information()", "mi_normal()", "mi_correction()", "covariance()"],
)

prop(
    "P03",
    "Closed-form MI of the remaining samplers equals the true MI of their law",
    """For every admissible parameter, the mutual information reported by the additive-uniform-noise,
    discrete-uniform-mixture (univariate and multivariate) and zero-inflated-Poissonization samplers
    equals the mutual information of the distribution they document, as obtained by independent
    numerical integration (to the documented approximation, 1e-3 or better).
    The mutual information of a concatenation of independent samplers is the sum of the parts'.""",
    ["inputs"],
    "all noise widths, category counts (and lists of them), inflation probabilities, truncations, and lists of samplers",
    """Tests evaluate three or four hand-picked parameters, and compare to a nearest-neighbour estimate
    with a tolerance of 0.05, which cannot tell a wrong formula from a right one.""",
    [S + "_additive_uniform.py", S + "_discrete_continuous.py", S + "_independent_coordinates.py"],
    [("closed form, two regimes", S + "_additive_uniform.py: mutual_information_function"),
     ("closed form", S + "_discrete_continuous.py: mutual_information"),
     ("additivity", S + "_independent_coordinates.py: mutual_information")],
    ["mutual_information()"],
)

prop(
    "P04",
    "Sampling contract: shapes, pairing, reproducibility, no hidden state",
    """Every sampler and every benchmark task returns, for every sample size n >= 1, paired arrays of
    shapes (n, dim_x) and (n, dim_y) with finite entries.  The result is a function of the
    distribution, n and the seed alone: the same seed (a Python or NumPy integer, or a JAX key for samplers) gives
    the same sample whatever was sampled or asked before and whichever equal instance is used, and
    different seeds give different samples.""",
    ["inputs", "histories"],
    "all samplers, combinators of samplers and tasks; all n >= 1; all seeds; all interleavings of calls on shared instances",
    """Tests sample each object once or twice with n of a few tens and one seed; n=1, key-typed seeds,
    NumPy integers and interleaved calls are not covered for most samplers.""",
    [S + "base.py", S + "_splitmultinormal.py", S + "_split_student_t.py", S + "_additive_uniform.py",
     S + "_discrete_continuous.py", S + "_independent_coordinates.py", S + "_transformed.py",
     S + "_tfp/_wrapper.py", S + "_tfp/_core.py", B + "task.py"],
    [("seed normalisation", S + "base.py: cast_to_rng"),
     ("split of the joint sample", S + "_splitmultinormal.py: sample")],
    ["sample(n, seed)"],
)

prop(
    "P05",
    "Samples follow the declared law",
    """Samples of every sampler follow the distribution its parameters declare: location, covariance
    (dispersion for Student-t), tail/radial law, uniform, exponential and Poisson marginals and
    conditionals, mixture proportions and component laws, and independence of the concatenated parts
    and of distinct sample points.  X and Y keep the declared order and the declared cross-dependence,
    with either sign.""",
    ["inputs"],
    "all parameter values of every sampler; decided on large samples with thresholds beyond six standard errors",
    """Tests check means and covariances of one or two distributions; wrong degrees of freedom, swapped
    blocks, sign errors or dependence between concatenated parts would pass.""",
    [S + "_splitmultinormal.py", S + "_split_student_t.py", S + "_additive_uniform.py",
     S + "_discrete_continuous.py", S + "_independent_coordinates.py", S + "_tfp/_core.py"],
    [("joint sampling then split", S + "_splitmultinormal.py: sample"),
     ("SciPy sampling", S + "_split_student_t.py: sample"),
     ("key splitting", S + "_independent_coordinates.py: sample")],
    ["sample(n, seed)"],
)

prop(
    "P06",
    "Transformed samplers push the base sample forward row by row",
    """For every base sampler, transforms f and g, sample size and seed, the transformed sampler returns
    exactly the rows f(x_i), g(y_i) of the base sample for the same seed, with the declared dimensions
    (grown only by the declared additional dimensions), whether the transforms are given per-point or
    already vectorised, with identity as the default, and also when transformed samplers are nested.
    It reports the mutual information of its base distribution, and refuses to decrease dimensionality.""",
    ["inputs", "programs"],
    "all chains of transforms over all base samplers, dims, sizes and seeds",
    """Tests use one Gaussian base and two transforms; nesting, unequal dims, one-sided transforms and
    embedding dims are exercised at single points.""",
    [S + "_transformed.py"],
    [("vmap of the transforms", S + "_transformed.py: TransformedSampler.__init__/transform"),
     ("delegation of MI", S + "_transformed.py: mutual_information")],
    ["sample(n, seed)", "transform(x, y)", "mutual_information()"],
)

prop(
    "P07",
    "Covariance parametrisations produce the structure they document",
    """For every admissible parameter set, the generated correlation and covariance matrices have exactly
    the documented entries, are symmetric and (for the latent-variable models) positive semi-definite;
    the latent-variable mixing matrix A satisfies covariance = A A^T, its latent count and labels agree
    with its shape and with which variables each latent factor influences, and correlation is the
    normalised covariance with unit diagonal.  The documented closed-form correlation strengths of the
    dense and sparse schemes equal the corresponding matrix entries, and omitted Y-side weights default
    to the X-side ones.""",
    ["inputs"],
    "all dims, numbers of interacting pairs (0..min dim) and weights (including zero and unequal X/Y weights)",
    """Tests cover a handful of square settings; unequal dims, zero interactions, different X and Y
    weights and the mixing/labels correspondence are not enumerated.""",
    [S + "_matrix_utils.py"],
    [("covariance assembled entrywise", S + "_matrix_utils.py: GaussianLVMParametrization.covariance"),
     ("mixing rows", S + "_matrix_utils.py: _mixing_x/_mixing_y"),
     ("block filling", S + "_matrix_utils.py: parametrised_correlation_matrix, canonical_correlation")],
)

prop(
    "P08",
    "Mixture-model densities and pointwise MI are exact",
    """For every fine distribution (Gaussian, Student-t, product, and arbitrary nestings of mixtures and
    coordinate-wise diffeomorphisms), the joint and marginal log-densities equal the closed-form
    densities of that construction and the pointwise mutual information is log p(x,y) - log p(x) - log p(y)
    at every point, one value per row.  Marginals of mixtures are mixtures of the marginals with the
    same proportions, pointwise mutual information is invariant under transforming X and Y by
    diffeomorphisms, and product distributions have zero pointwise mutual information.""",
    ["inputs", "programs"],
    "all construction trees of distributions, parameters and evaluation points",
    """Tests evaluate a few fixed mixtures against Monte Carlo means; no test compares the densities of
    nested constructions to an independent reference pointwise.""",
    [S + "_tfp/_core.py", S + "_tfp/_normal.py", S + "_tfp/_student.py", S + "_tfp/_product.py"],
    [("PMI", S + "_tfp/_core.py: JointDistribution.pmi"),
     ("mixture", S + "_tfp/_core.py: mixture"),
     ("transform", S + "_tfp/_core.py: transform")],
    ["pmi(x, y)", "dist_joint/dist_x/dist_y.log_prob"],
)

prop(
    "P09",
    "Monte Carlo ground truth of mixture models is consistent",
    """For every fine distribution, key and sample size, the pointwise-MI profile has one entry per
    sampled point and the Monte Carlo estimate and its standard error are the mean of that profile and
    its standard deviation over sqrt(n).  A mixture-model sampler reports the provided mutual information
    if one is given, otherwise the Monte Carlo estimate for its configured seed and sample size,
    computed once and independent of intervening calls; the estimate agrees with the analytic value when known
    within its standard error (six sigma), and the profile of a normal distribution has the law given by its
    canonical correlations.""",
    ["inputs", "histories"],
    "all distributions, keys, sample sizes and call orders",
    """Tests check agreement at one or two distributions with loose tolerance and never check the
    standard error, the caching or the role of seed/sample size.""",
    [S + "_tfp/_core.py", S + "_tfp/_wrapper.py"],
    [("Monte Carlo estimate", S + "_tfp/_core.py: monte_carlo_mi_estimate, pmi_profile"),
     ("cached MI", S + "_tfp/_wrapper.py: BMMSampler.mutual_information")],
)

prop(
    "P10",
    "Benchmark tasks describe themselves truthfully",
    """Every benchmark task and every task built by the public constructors reports the dimensions,
    mutual information and parameters of the distribution it samples from, an identifier that contains
    (to its printed precision) every parameter of its constructor and is the key of the catalogue, and the given or documented default name.
    Task identifiers in the catalogue are unique, saved metadata reads back equal to the live one, deriving a
    transformed task leaves the base task unchanged, and
    derived tasks keep the base task's parameters and prefix its identifier.""",
    ["inputs", "programs"],
    "all catalogue tasks, all constructors over their parameter ranges, and chains of task transforms",
    """Tests build each constructor once at one parameter value and look at few fields.""",
    [B + "task.py", B + "task_list.py", B + "tasks/multinormal.py", B + "tasks/student.py",
     B + "tasks/mixtures.py", B + "tasks/spiral.py", B + "tasks/additive_noise.py",
     B + "tasks/bimodal_gaussians.py", B + "tasks/bivariate_normal.py", B + "__init__.py"],
    [("metadata assembled from the sampler", B + "task.py: Task.metadata"),
     ("constructors", B + "tasks/"),
     ("catalogue", B + "task_list.py")],
)

prop(
    "P11",
    "Saved samples read back as the same sample",
    """For every pair of arrays with equal row counts (any dimensions from 1, including more than ten
    columns, any finite magnitudes, integer or float), saving and reading back a sample returns X and Y
    with the same shapes, the same column order and the same values (to within rounding of the last
    digit), and the header-only reader reports the same dimensions.  Saving a task's sample stores
    exactly the sample for that size and seed.  Mismatched or non-2D arrays are rejected.""",
    ["inputs"],
    "all dims, row counts, magnitudes and dtypes",
    """The tests round-trip one or two small arrays; column order beyond ten columns, extreme
    magnitudes and single rows are not covered.""",
    ["src/bmi/utils.py", B + "task.py"],
    [("named CSV columns", "src/bmi/utils.py: save_sample/read_sample/read_sample_dims")],
)

prop(
    "P12",
    "Running an estimator always yields a faithful result record",
    """For every estimator (well-behaved or raising any ordinary exception), identifiers, seed and
    caller-provided information, running it on a stored sample hands it exactly the stored X and Y and
    returns a record with the estimator's estimate, the self-reported time if any and otherwise the
    measured time, the number of samples and merged additional information; on failure the record has success false, NaN
    estimate and time, and the error text (with the output of a failed subprocess) while no ordinary exception escapes.
    The caller's objects and the stored sample are not modified and successive runs do not influence
    each other.""",
    ["inputs", "fault_sequences", "histories"],
    "all estimator outcomes (values, reported times, information, exceptions) and sequences of runs",
    """Tests run one succeeding and one failing estimator with empty caller information.""",
    [B + "result.py", "src/bmi/interface.py"],
    [("try/except around the estimator", B + "result.py: run_estimator"),
     ("timer", B + "utils/timer.py")],
)

prop(
    "P13",
    "Serialised records read back as plain data with the same content",
    """For every result record or task metadata whose free-form information is built from dicts, lists,
    tuples, strings, numbers (Python or NumPy scalars, including NaN and infinities), booleans, None,
    NumPy arrays, paths and enum members, the written YAML is readable by a safe loader and gives back equal content with those
    converted to plain strings, numbers and lists.  Optional fields such as a missing seed are preserved.""",
    ["inputs"],
    "all nested information structures",
    """Tests dump a few flat dictionaries.""",
    [B + "utils/dict_dumper.py", B + "result.py", B + "task.py"],
    [("representers", B + "utils/dict_dumper.py: DictDumper.represent_data"),
     ("dump", B + "result.py: RunResult.dump; task.py: save_metadata")],
)

prop(
    "P14",
    "KSG estimates equal the published first KSG formula",
    """For every data set, list of neighborhood sizes, metrics, chunk size, number of jobs and
    standardisation flag, both KSG implementations return psi(k) + psi(n) - mean(psi(n_x+1) + psi(n_y+1)),
    where n_x, n_y count the other points strictly closer than the k-th neighbour in the maximum of the
    two metrics, clipped below at zero, per neighborhood, and their estimate is the mean over the
    neighborhoods.  The estimate is finite also with repeated points, and unchanged by chunking,
    parallelism, and (up to rounding) by reordering the points, swapping X and Y with their metrics, or by
    rescaling or shifting coordinates when standardising; too few points or an unfitted
    estimator is an error.""",
    ["inputs", "configurations"],
    "all data sets (ties, duplicates, constant columns, clusters), dims, k lists, metric pairs, chunk sizes",
    """Tests compare to analytic MI with wide tolerance and compare the two implementations on one
    Gaussian; ties, duplicates, chunk boundaries and unequal metrics are not reached.""",
    [E + "ksg.py", "src/bmi/utils.py"],
    [("vectorised neighbour counting", E + "ksg.py: KSGEnsembleFirstEstimator.fit"),
     ("reference loop", E + "ksg.py: KSGEnsembleFirstEstimatorSlow.fit")],
)

prop(
    "P15",
    "Histogram estimate is the plug-in MI of the binned data",
    """For every data set and bin counts, the histogram estimate equals the plug-in mutual information of
    the data discretised into the requested number of equal-width bins per X and per Y coordinate over
    the data range; it lies between 0 and the logarithm of the smaller number of occupied X or Y cells, is
    symmetric under swapping X and Y with their bin counts, and invariant to the order of points and to
    positive rescaling and shifts of the coordinates.""",
    ["inputs"],
    "all data sets including ties on bin edges, outliers and constant columns; all dims and bin counts",
    """Tests use one or two Gaussians with default bins.""",
    [E + "_histogram.py"],
    [("flattened multidimensional histogram", E + "_histogram.py: HistogramEstimator.estimate")],
)

prop(
    "P16",
    "KDE estimate is the resubstitution combination of kernel entropies",
    """For every data set, kernels, bandwidths (numeric or rule based) for X, Y and the joint, and
    standardisation flag, the reported differential entropies are minus the mean log of the kernel density
    estimate at the sample points, the mutual information is h(X)+h(Y)-h(X,Y) of those, and the estimate
    equals that mutual information.  Kernels and bandwidths omitted for a marginal default to the joint
    ones, and swapping X and Y together with their settings leaves the mutual information unchanged.""",
    ["inputs", "configurations"],
    "all data sets, dims, six kernels, bandwidth settings",
    """Tests check a Gaussian entropy with wide tolerance and a single kernel setting.""",
    [E + "_kde.py"],
    [("resubstitution entropy", E + "_kde.py: _differential_entropy, estimate_entropies")],
)

prop(
    "P17",
    "CCA estimate is the Gaussian MI of the sample canonical correlations",
    """For every data set with more points than dimensions, the CCA estimate equals
    -0.5 * sum log(1 - r_i^2) over the min(dim_x, dim_y) sample canonical correlations r_i, hence also the Gaussian
    mutual information formula at the sample covariance when the iteration converges.  It is symmetric in X
    and Y, invariant to reordering points and to shifting or rescaling coordinates, and non-negative.""",
    ["inputs"],
    "all full-rank data sets and dims with well separated canonical correlations",
    """No unit test of the package compares the CCA estimator to the sample canonical correlations.""",
    [E + "correlation.py"],
    [("canonical directions then 1D Gaussian MI", E + "correlation.py: CCAMutualInformationEstimator.estimate")],
)

prop(
    "P18",
    "Estimators are pure functions of data and configuration",
    """For every estimator and data set, estimating does not modify the caller's arrays, gives the same result when repeated,
    after estimating other data in between and on a freshly built equal estimator, does not depend on the
    container (list or array, memory layout), and the estimate with information carries the same value as the plain estimate.
    The reported parameters reflect the configuration given, with documented defaults filled in, and
    samples of different lengths are rejected.""",
    ["inputs", "histories", "configurations"],
    "all estimators (nearest-neighbour, histogram, KDE, CCA, neural, function wrapper), data and call histories",
    """Tests call each estimator once per instance on fresh float arrays.""",
    [E + "ksg.py", E + "_histogram.py", E + "_kde.py", E + "correlation.py", E + "function_wrapper.py",
     E + "neural/_estimators.py", E + "neural/_mine_estimator.py", "src/bmi/utils.py", "src/bmi/interface.py"],
    [("copying product space", "src/bmi/utils.py: ProductSpace"),
     ("seed-derived keys per call", E + "neural/_estimators.py: estimate_with_info")],
)

prop(
    "P19",
    "Neural variational objectives equal their definitions in both backends",
    """For every critic and batch of at least two paired points, the InfoNCE, Donsker-Varadhan and NWJ
    objectives equal their published definitions on the full score matrix (diagonal as paired terms,
    and off-diagonal mean for the negative term of the latter two), computed stably for large scores,
    and the linear-memory and quadratic-memory implementations agree in value and in gradient.  InfoNCE
    never exceeds log(batch size), all are invariant to jointly permuting the pairs, Donsker-Varadhan and
    InfoNCE are invariant to adding a constant to the critic, and NWJ never exceeds Donsker-Varadhan.""",
    ["inputs"],
    "all score matrices (any magnitude and sign), batch sizes and dims",
    """Tests compare backends on a couple of random batches with one critic.""",
    [E + "neural/_backend_linear_memory.py", E + "neural/_backend_quadratic_memory.py"],
    [("scan with masked diagonal", E + "neural/_backend_linear_memory.py: logmeanexp_nodiag"),
     ("full score matrix", E + "neural/_backend_quadratic_memory.py")],
)

prop(
    "P20",
    "Neural training follows the documented protocol",
    """For every data set and configuration, the neural estimators standardise (if asked) before splitting, train on mini-batches of the
    requested size drawn at random (afresh in every step, without replacement) from the training part only and evaluate the objective on
    the held-out part only, never breaking the (x, y) pairing; training and test parts are disjoint,
    drawn at random, cover the data and have the requested proportion (or both are the whole data when no split is
    asked).  The reported estimate is the best test evaluation, evaluations happen every requested
    number of steps up to the maximal number of steps, training stops early after two successive
    evaluations without improvement, and a batch larger than the training part yields NaN with a flag.""",
    ["inputs", "histories", "configurations"],
    "all data sets, split fractions, batch sizes, step limits, test intervals, seeds and critics",
    """Tests check final estimates on easy Gaussians; a leak of test points, broken pairing or a wrong
    stopping rule does not move them beyond tolerance.""",
    [E + "neural/_estimators.py", E + "neural/_basic_training.py", E + "neural/_mine_estimator.py"],
    [("split", E + "neural/_estimators.py: train_test_split"),
     ("mini-batch", E + "neural/_basic_training.py: get_batch, basic_training"),
     ("early stopping", E + "neural/_training_log.py")],
)

prop(
    "P21",
    "Training log reports history, best value and diagnostics correctly",
    """For every sequence of logged training and test values (including NaN-free plateaus, decreases and
    ties), the final value is the maximal test value (NaN if none), early stopping triggers exactly when
    enabled and at least two consecutive test values failed to exceed the best one, and the reported step
    count and histories are exactly what was logged.  For non-negative training values, the final diagnostics follow their documented
    definitions: smoothed training value dropped by more than 5% from its maximum, or still increased by
    more than 5% relative to one smoothing window earlier, or training too short, or early stopping
    enabled but not triggered.""",
    ["histories"],
    "all histories and configurations of the log",
    """Tests feed two or three monotone histories.""",
    [E + "neural/_training_log.py"],
    [("best-so-far counter", E + "neural/_training_log.py: log_test_mi, early_stop"),
     ("diagnostics", E + "neural/_training_log.py: detect_warnings")],
)

prop(
    "P22",
    "MINE value and smoothed gradient follow the published equations",
    """For every critic, batch and smoothing parameter in (0, 1), the MINE value is
    mean T(paired) - log mean exp T(unpaired); the gradient used is the one of the paired mean minus the
    batch gradient of the mean exponential divided by an exponentially smoothed denominator in which the
    current batch has weight alpha (values closer to 1 smooth less) and the previous, initially zero, denominator 1 - alpha.
    Paired batches keep the pairing, unpaired Y are drawn from the same pool without replacement.""",
    ["inputs", "histories"],
    "all critics (linear in parameters), batches, alphas and sequences of steps",
    """Tests compare final MINE estimates on Gaussians, insensitive to the smoothing convention.""",
    [E + "neural/_mine_estimator.py"],
    [("smoothed denominator", E + "neural/_mine_estimator.py: _mine_value_neg_grad_log_denom"),
     ("paired/unpaired sampling", E + "neural/_mine_estimator.py: _sample_paired_unpaired")],
)

prop(
    "P23",
    "External estimators pass the data and settings and surface the answer",
    """For every external (R or Julia) estimator configuration and sample, the launched command names the
    existing bundled script, an absolute path to a file holding exactly the sample, the X and Y dimensions
    in this order and each configured hyper-parameter under an option the script declares, with the
    configured value.  The program's numeric output becomes the estimate, non-numeric output or a failing
    program is reported as an error (a failed record with the program output when run through the benchmark),
    and no temporary file is left behind.""",
    ["inputs", "configurations", "fault_sequences"],
    "all estimator classes, hyper-parameters, samples, relative/absolute paths and program outcomes",
    """R and Julia are absent, so the tests of this code are skipped or only build commands once.""",
    [E + "external/external_estimator.py", E + "external/r_estimators.py", E + "external/julia_estimators.py",
     "external/mi_estimator.jl", "external/rmi.R"],
    [("command assembly", E + "external/r_estimators.py, julia_estimators.py"),
     ("subprocess and parse", E + "external/external_estimator.py")],
)

prop(
    "P24",
    "Data-handling helpers keep, standardise, chunk and perturb data as documented",
    """For every pair of samples, the product-space container keeps the points in order and paired under
    every index or slice, reports their number and dimensions, never modifies or aliases the caller's
    arrays, and when asked standardises every coordinate to mean zero and unit variance (constant
    coordinates become zero) by a positive affine map.  Chunking n items covers 0..n-1 exactly once, in order, in slices of the
    requested size except a shorter last one; added noise has the requested scale, keeps the shape and
    is a function of the seed alone.""",
    ["inputs"],
    "all data, index expressions, chunk sizes, noise scales and seeds",
    """Tests check two small examples.""",
    ["src/bmi/utils.py"],
    [("standardisation", "src/bmi/utils.py: ProductSpace"), ("chunks", "src/bmi/utils.py: chunker"),
     ("noise", "src/bmi/utils.py: add_noise")],
)

prop(
    "P25",
    "Inconsistent configurations are rejected when built",
    """Every sampler, distribution, parametrisation, transform and estimator refuses, with an error at
    construction (chunk sizes and kernel bandwidths: at first use), parameters outside its documented domain: non-positive dimensions, shape mismatches,
    non-symmetric or not positive-definite matrices, correlations or probabilities outside their range,
    non-positive scales, noise widths, degrees of freedom, counts, bins, neighborhoods, batch sizes or
    step numbers, unknown metrics, kernels or backends, mixtures of components of different dimensions or with a wrong
    number of proportions, and invalid rotation indices.  The nearest admissible parameters are accepted.""",
    ["inputs", "configurations"],
    "all single-fault perturbations of valid configurations, and their valid counterparts",
    """Tests check a few invalid examples per class.""",
    [S + "base.py", S + "_splitmultinormal.py", S + "_split_student_t.py", S + "_matrix_utils.py",
     S + "_tfp/_core.py", E + "ksg.py", E + "_histogram.py", "src/bmi/transforms/_rotate.py"],
    [("validation", S + "_splitmultinormal.py: _can_be_covariance, _validate_shapes"),
     ("pydantic models", E + "ksg.py: KSGEnsembleParameters")],
)

prop(
    "P26",
    "Rescaled, uniformised and gaussianised tasks have the promised marginals",
    """For every base task, sample size and seed, the rescaled task returns each coordinate of the base
    sample affinely mapped to mean zero and unit variance, the uniformised one maps each coordinate
    monotonically onto [0, 1] by its empirical quantiles, and the gaussianised one by the
    standard-normal quantile function of these.  They act on each coordinate separately, keep the order of points,
    are reproducible, leave the base sample alone and report the base task's mutual information.""",
    ["inputs"],
    "all base tasks, dims, sample sizes, numbers of quantiles and seeds",
    """Tests check a single Gaussian base task.""",
    [B + "tasks/scaling.py"],
    [("scikit-learn transforms over whole samples", B + "tasks/scaling.py")],
)

prop(
    "P27",
    "Gaussian-mixture estimator: posterior draws become the right distributions",
    """For every set of mixture parameters the Gaussian-mixture estimator turns a posterior draw into the
    joint distribution with exactly those proportions, means and covariances, split at the X dimension.  Its prior uses the
    configured number of components and concentration (1/K by default), the requested numbers of warm-up and posterior samples are drawn,
    posterior mutual informations are Monte Carlo values, each with random points of its own, of distinct draws picked at random, the estimate is their mean,
    and the results of a fresh estimator are a function of the key, data and configuration.""",
    ["inputs", "configurations"],
    "all mixture parameters, dims, numbers of components, concentrations and thinning sizes",
    """One slow test checks an estimate loosely; the role of each parameter is not observed.""",
    [E + "external/gmm.py"],
    [("draw to distribution", E + "external/gmm.py: sample_into_bmm_distribution"),
     ("prior", E + "external/gmm.py: model"), ("posterior MI", E + "external/gmm.py: GMMEstimator")],
)

prop(
    "P28",
    "Benchmark tables aggregate exactly the recorded results",
    """For every collection of stored results, reading them back restores every record (including
    parameters and information containing quotes, None, NaN, lists and nested dictionaries), and the summary tables
    show, for the requested (default: largest) number of samples only, the mean estimate over seeds for each estimator
    and task, the true value of every task, and the fraction of runs counted as converged (estimate above 10% of the
    best of the same estimator, task and sample size); with the converged-only option the other runs are excluded.""",
    ["inputs"],
    "all result collections: numbers of tasks, estimators, seeds and sample sizes, missing and NaN runs",
    """The workflow helpers have no tests at all.""",
    ["workflows/benchmark/_utils.py", "workflows/benchmark/_common_benchmark_rules.smk"],
    [("CSV with repr dictionaries", "workflows/benchmark/_utils.py: read_results"),
     ("aggregation", "workflows/benchmark/_utils.py: create_benchmark_table, create_convergence_table")],
)

prop(
    "P29",
    "Fixed-size subplot layout has the requested geometry",
    """For every combination of axes sizes (scalar or per row/column), counts, margins and spacings, the
    figure has the sum of its parts as its size and each axes exactly the requested width and height in
    inches, at the position given by margins and spacings, with the first row on top, arranged in an
    array of the requested shape (squeezed only if asked).""",
    ["inputs"],
    "all sizes, grids, margins and spacings",
    """The plotting helper has no tests.""",
    ["src/bmi/plot_utils/subplots_from_axsize.py"],
    [("fixed-size divider", "src/bmi/plot_utils/subplots_from_axsize.py: subplots_from_axsize")],
)

prop(
    "P30",
    "Marginal and spatial transforms are the documented diffeomorphisms",
    """Over their domain, the half-cube, normal-CDF, inverse hyperbolic sine, power and wiggly maps equal
    their documented formulas, act coordinate-wise and are strictly increasing, the spiral map preserves
    norms (times the given initial map), rotates by the documented angle growing with the squared norm
    and is invertible, the task rotations are rotations, generators and skew parts are skew-symmetric with the documented
    entries, and the Swiss roll is the documented injective curve.  Inverting a strictly increasing
    function returns its inverse to the requested accuracy on its bracket.""",
    ["inputs"],
    "all points within float32 resolution, all dims, speeds, generators and initial maps",
    """Tests look at a few points of the spiral and generators.""",
    ["src/bmi/transforms/simple.py", "src/bmi/transforms/_rotate.py", "src/bmi/transforms/_invert_cdf.py",
     B + "tasks/wiggly.py", B + "tasks/rotate.py", B + "tasks/spiral.py", B + "tasks/power.py",
     B + "tasks/half_cube.py", B + "tasks/normal_cdf.py", B + "tasks/asinh.py", B + "tasks/embeddings.py"],
    [("closed forms", "src/bmi/transforms/simple.py"), ("matrix exponential", "src/bmi/transforms/_rotate.py"),
     ("bisection", "src/bmi/transforms/_invert_cdf.py")],
)

prop(
    "P31",
    "Advertised mutual information matches the mutual information of the samples",
    """For every catalogue task of moderate dimension and mutual information, and every task built by the public constructors over their
    parameter ranges, the mutual information of a large drawn sample, measured by an independent
    estimator suited to the family, agrees with the advertised ground truth within the estimator's
    accuracy.""",
    ["inputs", "programs"],
    "all catalogue tasks and constructor parameters with moderate dimension and MI",
    """Tests compare a few samplers with the package's own estimators.""",
    [B + "task_list.py", B + "tasks/mixtures.py", B + "tasks/multinormal.py", B + "tasks/student.py",
     B + "tasks/bimodal_gaussians.py", "workflows/projects/Mixtures/example_distributions.py"],
    [("sampler/MI pairing", B + "tasks/"),
     ("example distributions", "workflows/projects/Mixtures/example_distributions.py")],
)

prop(
    "P32",
    "Tasks generated for a desired mutual information attain it",
    """The search utilities which produce tasks of a desired mutual information return, for every attainable target, dimension and
    structure, a task whose ground-truth mutual information equals the target up to the search
    tolerance with the requested structure and recorded parameters, and the underlying search returns a
    solution of f(x) = target inside its bracket for every increasing f (also when f rejects part of the
    bracket), or nothing.""",
    ["inputs"],
    "all increasing functions, brackets, targets, dims and structures",
    """The workflow helpers have no tests.""",
    ["workflows/projects/Beyond_Normal/_high_mi_utils.py", "workflows/projects/Beyond_Normal/_sparsity_utils.py"],
    [("bisection", "workflows/projects/Beyond_Normal/_high_mi_utils.py: binsearch"),
     ("task generators", "workflows/projects/Beyond_Normal/_high_mi_utils.py, _sparsity_utils.py")],
)

prop(
    "P33",
    "Critics are the documented networks; estimators expose those they trained",
    """For every pair of input dimensions, tuple of hidden layer sizes and key, the critic is the fully
    connected ReLU network of the concatenated point [x, y] with one real output, the documented layer shapes and
    a linear last layer; it is a function of its key and its layers do not share their initial values.
    The critic exposed by a neural estimator is None before training and afterwards has the configured
    architecture and attains, on the test set, the value of the objective recorded at the last evaluation.""",
    ["inputs", "histories"],
    "all architectures, keys, parameter values, points and training runs",
    """Tests evaluate a critic once, and look at no critic after training.""",
    ["src/bmi/estimators/neural/_critics.py", "src/bmi/estimators/neural/_estimators.py",
     "src/bmi/estimators/neural/_mine_estimator.py"],
    [("network", "src/bmi/estimators/neural/_critics.py: MLP"),
     ("exposed critic", "src/bmi/estimators/neural/_estimators.py, _mine_estimator.py: trained_critic")],
)

prop(
    "P34",
    "Figures and heat maps show exactly the recorded results",
    """For every collection of run results, reading the result table restores every recorded field and
    dictionary (all Python values), and the curves, heat maps and annotations of the figure utilities
    show the documented aggregates: means and standard deviations over seeds, failed neural runs
    (negative or below a tenth of the best seed) counted and left out, the smallest sample size from
    which the ratio to the truth stays within 1.5, and the true value, each at its task and estimator
    in the requested order.  Rescaled task lists keep identifier, name and mutual information.""",
    ["inputs"],
    "all collections of results, estimators, tasks, sample sizes, seeds and missing runs",
    """The workflow helpers have no tests.""",
    ["workflows/projects/Beyond_Normal/_common_figure_utils.py"],
    [("reading", "workflows/projects/Beyond_Normal/_common_figure_utils.py: read_results"),
     ("aggregation", "workflows/projects/Beyond_Normal/_common_figure_utils.py: preprocess_benchmark_results, n_samples_needed, make_benchmark_table"),
     ("figures", "workflows/projects/Beyond_Normal/_common_figure_utils.py: plot_mi, plot_benchmark_*")],
)

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            n = sum(p["statement"].count(c) for c in (". ",)) + 1
            assert n <= 3, (p["id"], n)
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
