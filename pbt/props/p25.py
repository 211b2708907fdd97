"""P25: inconsistent configurations are rejected when built."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Violation, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): admissible configurations of every public class, each "
    "paired with generated single-parameter violations of its documented domain and with its "
    "nearest admissible neighbours"
)
LEVEL_NOTE = (
    "Matrices of 2..6 dimensions at scales 1e-6..1e6, with clear asymmetry (at least 1% of the "
    "largest entry) or indefiniteness (smallest eigenvalue at most -2% of the largest); scalar "
    "parameters at, just inside and far outside the boundary of their domain."
)
ASSUMPTIONS = [
    "The chunk size of the KSG estimator and the numeric bandwidths of the kernel estimator are "
    "documented without a domain and are validated by the first use: for these only a refusal "
    "before an estimate is returned is required.",
]

REFUSALS = (ValueError, AssertionError, TypeError, IndexError)


# --- matrices -----------------------------------------------------------------------------

MATRIX_CLASSES = ["SplitMultinormal", "SplitStudentT", "MultivariateNormalDistribution", "MultivariateStudentDistribution"]
MATRIX_BREAKS = [
    None, None, "boundary", "asymmetric", "asymmetric_last", "swap_block", "indefinite", "negative_variance",
    "negated", "not_square", "too_small", "too_large", "mean_short", "mean_long", "mean_matrix",
    "dim_x_plus", "dim_y_minus", "zero_x", "zero_y", "negative_x", "vector", "nan", "df",
]  # fmt: skip


@st.composite
def _matrices(draw):
    cls = draw(st.sampled_from(MATRIX_CLASSES))
    breaks = [b for b in MATRIX_BREAKS if b != "df" or "Student" in cls]
    wide = cls.startswith("Split")
    return dict(
        cls=cls,
        dx=draw(st.integers(1, 3)),
        dy=draw(st.integers(1, 3)),
        log_scale=draw(st.integers(-6, 6) if wide else st.integers(-2, 2)),
        df=draw(st.sampled_from([1, 2.5, 7, 100])),
        bad_df=draw(st.sampled_from([0, 0.0, -1, -1e-9, -math.inf])),
        mean=draw(st.booleans()),
        lists=draw(st.booleans()),
        flaw=draw(st.sampled_from(breaks)),
        size=draw(gen.flt(0.01, 1.0)),
        seed=draw(gen.seeds()),
    )


def _spd(c, lowest=0.3):
    rng = gen.rng_of(c)
    n = c["dx"] + c["dy"]
    q = gen.orthogonal(rng, n)
    s = q @ np.diag(rng.uniform(lowest, 1.5, size=n)) @ q.T
    return 0.5 * (s + s.T), rng


def _matrix_config(c):
    """(keyword arguments, description or None when admissible)"""
    flaw = c["flaw"]
    s, rng = _spd(c)
    n = len(s)
    dx, dy, df = c["dx"], c["dy"], c["df"]
    mean = rng.normal(size=n) if c["mean"] else None
    big = np.max(np.abs(s))
    if flaw == "boundary":
        lowest = 0.01
        q = gen.orthogonal(rng, n)
        s = q @ np.diag([lowest] + [1.0] * (n - 1)) @ q.T
        s = 0.5 * (s + s.T)
        df = 1e-3 if c["cls"] == "SplitStudentT" else 0.5
    elif flaw in ("asymmetric", "asymmetric_last"):
        i, j = rng.permutation(n)[:2] if flaw == "asymmetric" else (n - 1, n - 2)
        s[i, j] += rng.choice([-1, 1]) * c["size"] * big
    elif flaw == "swap_block":  # a cross-covariance with the wrong sign on one side only
        s[:dx, dx:] = 0.0
        s[0, dx] = 0.3 * c["size"] + 0.01
        s[dx:, :dx] = -s[:dx, dx:].T
    elif flaw == "indefinite":
        q = gen.orthogonal(rng, n)
        s = q @ np.diag([-0.02 - c["size"]] + [1.0] * (n - 1)) @ q.T
        s = 0.5 * (s + s.T)
    elif flaw == "negative_variance":
        # an even number of negative eigenvalues: the determinant stays positive
        q = gen.orthogonal(rng, n)
        s = q @ np.diag([-1.0, -0.5] + [1.0] * (n - 2)) @ q.T
        s = 0.5 * (s + s.T)
    elif flaw == "negated":
        s = -s
    elif flaw == "not_square":
        s = s[:, :-1] if c["size"] < 0.5 else s[:-1]
    elif flaw == "too_small":
        s = s[:-1, :-1]
    elif flaw == "too_large":
        s = np.eye(n + 1)
    elif flaw == "mean_short":
        mean = np.zeros(n - 1)
    elif flaw == "mean_long":
        mean = np.zeros(n + 1)
    elif flaw == "mean_matrix":
        mean = np.zeros((1, n)) if c["size"] < 0.5 else np.zeros((n, 1))
    elif flaw == "dim_x_plus":
        dx += 1
    elif flaw == "dim_y_minus":
        dy -= 1
    elif flaw == "zero_x":
        dx, dy = 0, n
    elif flaw == "zero_y":
        dx, dy = n, 0
    elif flaw == "negative_x":
        dx, dy = -1, n + 1
    elif flaw == "vector":
        s = np.diag(s).copy()
    elif flaw == "nan":
        s[0, -1] = s[-1, 0] = np.nan
    elif flaw == "df":
        df = c["bad_df"]
    if flaw != "boundary":
        s = s * 10.0 ** c["log_scale"]
    kw = dict(dim_x=dx, dim_y=dy)
    kw["dispersion" if "Student" in c["cls"] else "covariance"] = s.tolist() if c["lists"] else s
    if "Student" in c["cls"]:
        kw["df"] = df
    if mean is not None:
        kw["mean"] = mean.tolist() if c["lists"] else mean
    return kw, None if flaw in (None, "boundary") else flaw


def _build_matrix_class(cls, kw):
    from bmi.samplers import SplitMultinormal, SplitStudentT, bmm

    if cls.startswith("Split"):
        return dict(SplitMultinormal=SplitMultinormal, SplitStudentT=SplitStudentT)[cls](**kw)
    kw = {k: np.asarray(v) if isinstance(v, list) else v for k, v in kw.items()}
    return getattr(bmm, cls)(**kw)


def refused(build, what, **info):
    try:
        obj = build()
    except REFUSALS:
        return
    raise Violation(f"{what} was accepted", got=repr(obj)[:120], **info)


@facet(
    FACETS,
    rule="a flaw, or the nearest admissible matrix",
    strategy=_matrices,
    examples=lambda: [
        dict(cls=cls, dx=2, dy=1, log_scale=0, df=3, bad_df=0, mean=False, lists=False, flaw=f, size=0.2, seed=5)
        for cls in MATRIX_CLASSES
        for f in MATRIX_BREAKS[1:]
        if f != "df" or "Student" in cls
    ],
    quick=150,
    thorough=6000,
    shards=4,
)
def matrices_and_shapes(c):
    kw, flaw = _matrix_config(c)
    if flaw is None:
        obj = _build_matrix_class(c["cls"], kw)
        require((obj.dim_x, obj.dim_y) == (c["dx"], c["dy"]), "dimensions")
        mi = obj.mutual_information() if hasattr(obj, "mutual_information") else obj.analytic_mi
        require(math.isfinite(float(mi)) and mi >= 0, "mutual information", got=mi)
        return c["flaw"]
    refused(lambda: _build_matrix_class(c["cls"], kw), f"{c['cls']} with flaw {flaw}", kw=kw)
    return flaw


# --- everything with scalar parameters ------------------------------------------------------
# name -> (builder path, base parameters, {parameter: (bad values, admissible values)})

INF = math.inf
COUNT = ([0, -1, -7], [1, 2])
RATE = ([0.0, -0.1, -INF], [1e-6, 10.0])
SPLIT = ([0.0, 1.0, 1.5, -0.2], [0.01, 0.99, None])

_NEURAL = dict(
    base=dict(verbose=False),
    params=dict(
        batch_size=COUNT, max_n_steps=COUNT, test_every_n_steps=COUNT, learning_rate=RATE,
        train_test_split=SPLIT, _train_backend=(["cubic", "", "Linear", None], ["linear", "quadratic"]),
    ),
)  # fmt: skip
_KSG = dict(
    base={},
    params=dict(
        neighborhoods=([[], [0], [5, 0], [-1], [3, -2, 5], [1, 0, 2]], [[1], [1, 2], [7, 3]]),
        metric_x=(["minkowski", "cosine", "l2", "Euclidean"], ["euclidean", "manhattan", "chebyshev"]),
        metric_y=(["minkowski", "cosine", "l1"], ["manhattan", None]),
    ),
)
_KERNELS = (["box", "Gaussian", "normal"], ["gaussian", "tophat", "epanechnikov", "exponential", "linear", "cosine"])
_RULES = (["scotts", "Silverman", "auto"], ["scott", "silverman", 0.3])
_MIXTURE_DIMS = [[1, 1], [1, 2], [2, 1], [2, 2]]

SCALARS = {
    "samplers.BivariateNormalSampler": dict(
        base=dict(correlation=0.5),
        params=dict(
            correlation=([1.0, -1.0, 1.0001, -1.5, 3, math.nan], [0.9999, -0.9999, 0.0]),
            std_x=([0.0, -1e-9, -2.0], [1e-2, 1e2]),
            std_y=([0.0, -1e-9, -2.0], [1e-2, 1e2]),
        ),
    ),
    "samplers.AdditiveUniformSampler": dict(
        base=dict(epsilon=0.3), params=dict(epsilon=([0.0, 0, -1e-9, -0.5], [1e-6, 100.0, 0.5]))
    ),
    "samplers.DiscreteUniformMixtureSampler": dict(base={}, params=dict(n_discrete=COUNT)),
    "samplers.MultivariateDiscreteUniformMixtureSampler": dict(
        base=dict(ns_discrete=[2, 3]),
        params=dict(ns_discrete=([[], [0], [3, 0], [2, -1, 4]], [[1], [1, 1], [5, 2, 1]])),
    ),
    "samplers.ZeroInflatedPoissonizationSampler": dict(
        base={}, params=dict(p=([1.0, 1, -1e-9, -0.5, 1.5], [0.0, 0, 0.999999]))
    ),
    "samplers.GaussianLVMParametrization": dict(
        base=dict(dim_x=3, dim_y=2, n_interacting=1, alpha=0.5, lambd=1.0),
        params=dict(
            n_interacting=([-1, 3, 4, 100], [0, 2]),
            dim_x=([0, -1], [1, 5]),
            dim_y=([0, -2], [1, 5]),
        ),
    ),
    "samplers.SparseLVMParametrization": dict(
        base=dict(dim_x=2, dim_y=3, n_interacting=1),
        params=dict(n_interacting=([-1, 3, 9], [0, 2]), dim_x=([0, -1], [1]), dim_y=([0, -1], [1])),
    ),
    "samplers.DenseLVMParametrization": dict(
        base=dict(dim_x=2, dim_y=3, alpha=0.5, epsilon=1.0),
        params=dict(dim_x=([0, -1], [1]), dim_y=([0, -3], [1])),
    ),
    "samplers.parametrised_correlation_matrix": dict(
        base=dict(dim_x=3, dim_y=2, k=1),
        params=dict(
            k=([0, -1, 3, 4], [1, 2]),
            dim_x=([0, -1], [1, 7]),
            dim_y=([0, -1], [1, 7]),
            correlation=([1.01, -1.01, 2, math.inf], [1.0, -1.0, 0.0]),
            correlation_x=([1.01, -1.01, -2], [1.0, -1.0, 0.0]),
            correlation_y=([1.01, -1.01, 2], [1.0, -1.0, 0.0]),
        ),
    ),
    "independent": dict(base=dict(n=2), params=dict(n=([0], [1, 3]))),
    "transformed": dict(base={}, params=dict(add_dim_x=([-1, -2], [0, 1]), add_dim_y=([-1, -5], [0, 2]))),
    "bmm_sampler": dict(
        base={}, params=dict(mi_estimate_sample=([0, -1, -1000], [1, 2]))
    ),
    "bmm_mixture": dict(
        base=dict(dims=[[1, 2], [1, 2]], proportions=[0.5, 0.5]),
        params=dict(
            dims=(
                [[a, b] for a in _MIXTURE_DIMS for b in _MIXTURE_DIMS if a != b],
                [[a, a] for a in _MIXTURE_DIMS],
            ),
            proportions=([[1.0], [0.3, 0.3, 0.4], [0.25] * 4], [[0.1, 0.9], [0.5, 0.5]]),
        ),
    ),
    "bmm_product": dict(base={}, params=dict(shape_x=([[], [1, 2]], [[1], [3]]), shape_y=([[], [2, 2]], [[1], [2]]))),
    "bmm_sample": dict(base={}, params=dict(n_points=([0, -1], [1, 3]))),
    "transforms.so_generator": dict(
        base=dict(n=4, i=0, j=1),
        params=dict(n=([1, 0, -3], [2, 5]), i=([1, 2, -1, 7], [0]), j=([0, 4, 5, -1], [1, 3])),
    ),
    "spiral": dict(
        base=dict(shape=[3, 3], initial=None),
        params=dict(shape=([[3], [2, 3], [3, 2], [2, 2, 2]], [[2, 2], [4, 4]]), initial=([[2, 2], [3], [3, 2], [4, 4]], [[3, 3], None])),
    ),
    "utils.chunker": dict(base=dict(n_items=5, chunk_size=2), params=dict(n_items=COUNT, chunk_size=COUNT)),
    "estimators.KSGEnsembleFirstEstimator": _KSG,
    "estimators.KSGEnsembleFirstEstimatorSlow": _KSG,
    "used ksg": dict(base={}, params=dict(chunk_size=COUNT)),
    "estimators.HistogramEstimator": dict(base={}, params=dict(n_bins_x=COUNT, n_bins_y=(COUNT[0], [1, 3, None]))),
    "estimators.KDEMutualInformationEstimator": dict(
        base={},
        params=dict(
            kernel_xy=_KERNELS, kernel_x=_KERNELS, kernel_y=_KERNELS,
            bandwidth_xy=_RULES, bandwidth_x=_RULES, bandwidth_y=_RULES,
        ),
    ),
    "used kde": dict(
        base={},
        params=dict(bandwidth_xy=([0.0, -1.0], [0.5]), bandwidth_x=([0.0, -0.1], [0.5]), bandwidth_y=([0.0, -3.0], [0.5])),
    ),
    "estimators.InfoNCEEstimator": _NEURAL,
    "estimators.NWJEstimator": _NEURAL,
    "estimators.DonskerVaradhanEstimator": _NEURAL,
    "estimators.MINEEstimator": dict(
        base=dict(verbose=False),
        params={
            **{k: v for k, v in _NEURAL["params"].items() if k != "_train_backend"},
            "smoothing_alpha": ([0.0, 1.0, -0.5, 1.5], [0.001, 0.999]),
        },
    ),
    "gmm.GMMEstimator": dict(
        base={},
        params=dict(
            n_components=COUNT, mcmc_num_samples=COUNT, mi_estimate_num_samples=COUNT, n_thinned_samples=(COUNT[0], [1, None]),
            mcmc_num_warmup=([-1, -10], [0, 1]), alpha=([0.0, -0.5], [1e-3, None]),
        ),
    ),
    "r.RKSGEstimator": dict(base={}, params=dict(variant=([0, 3, -1], [1, 2]), neighbors=COUNT)),
    "r.RLNNEstimator": dict(base={}, params=dict(k=COUNT, truncation=COUNT)),
    "r.RBNSLEstimator": dict(base={}, params=dict(proc=([-1, -10], [0, 1, 2, 10]))),
    "julia.JuliaKSGEstimator": dict(base={}, params=dict(variant=([0, 3, -1], [1, 2]), neighbors=COUNT)),
    "julia.JuliaHistogramEstimator": dict(base={}, params=dict(bins=([1, 0, -5], [2, 3]))),
    "julia.JuliaTransferEstimator": dict(base={}, params=dict(bins=([1, 0, -5], [2, 3]))),
    "julia.JuliaKernelEstimator": dict(base={}, params=dict(bandwidth=([0.0, -1.0, -1e-9], [1e-6, 100.0]))),
    "training_log": dict(base=dict(max_n_steps=10), params=dict(train_smooth_factor=([0.51, 0.500001, 1.0], [0.5, 0.1]))),
    "tasks.task_bivariate_normal": dict(base={}, params=dict(gaussian_correlation=([1.0, -1.0, 1.5], [0.999, -0.999]))),
    "tasks.task_bimodal_gaussians": dict(base={}, params=dict(gaussian_correlation=([1.0, -1.0, 1.5], [0.99, -0.99]))),
    "tasks.task_additive_noise": dict(base={}, params=dict(epsilon=([0.0, -0.1], [0.01, 5.0])), needs=dict(epsilon=0.1)),
    "tasks.task_multinormal_dense": dict(
        base=dict(dim_x=2, dim_y=3),
        params=dict(dim_x=([0, -1], [1]), dim_y=([0, -1], [1]), off_diag=([1.1, -0.3, -1.0, 2.0], [0.99, -0.2, 0.0])),
    ),
    "tasks.task_multinormal_sparse": dict(
        base=dict(dim_x=2, dim_y=3), params=dict(dim_x=([0, -1, 1], [3]), n_interacting=([-1, 3, 5], [0, 2]))
    ),
    "tasks.task_multinormal_2pair": dict(base=dict(dim_x=2, dim_y=3), params=dict(dim_x=([0, 1], [2]), dim_y=([0, 1], [2]))),
    "tasks.task_multinormal_lvm": dict(
        base=dict(dim_x=2, dim_y=3, n_interacting=1, alpha=0.5, lambd=1.0),
        params=dict(dim_x=([0, -1], [1]), n_interacting=([-1, 3], [0, 2])),
    ),
    "tasks.task_student_dense": dict(
        base=dict(dim_x=2, dim_y=2, df=3),
        params=dict(df=([0, -1], [1, 0.5]), off_diag=([1.1, -0.5], [0.9, -0.3]), dim_y=([0], [1])),
    ),
    "tasks.task_student_sparse": dict(
        base=dict(dim_x=2, dim_y=2, df=3), params=dict(df=([0, -1], [1]), n_interacting=([3, -1], [0, 1]))
    ),
    "tasks.task_x": dict(base={}, params=dict(gaussian_correlation=([1.2, -1.2, 2.0], [0.99, -0.99, 0.0]))),
    "tasks.task_waves": dict(base={}, params=dict(n_components=([0, -1], [1]))),
    "tasks.task_concentric_multinormal": dict(
        base=dict(dim_x=2), params=dict(n_components=([0, -1], [1]), dim_x=([0], [1]))
    ),
    "tasks.task_multinormal_sparse_w_inliers": dict(
        base=dict(dim_x=2, dim_y=2),
        params=dict(inlier_fraction=([-0.01, 1.01, 2.0], [0.0, 1.0]), n_interacting=([3, -1], [0, 1])),
    ),
    "derived": dict(
        base=dict(transform="swissroll", dims=[1, 1]),
        params=dict(
            transform=([], []),
            case=(
                [["swissroll", 2, 1], ["swissroll", 3, 2], ["rotate", 2, 3], ["rotate", 3, 2], ["rotate", 1, 1],
                 ["spiral", 1, 3], ["spiral", 2, 2], ["spiral", 1, 1]],
                [["swissroll", 1, 1], ["swissroll", 1, 3], ["rotate", 3, 3], ["rotate", 4, 3], ["spiral", 2, 3],
                 ["spiral", 3, 3]],
            ),
        ),
    ),
}  # fmt: skip


def _builder(name):
    import bmi
    import bmi.estimators.external.gmm as gmm
    import bmi.estimators.external.julia_estimators as julia
    import bmi.estimators.external.r_estimators as r
    from bmi import estimators, samplers, transforms, utils
    from bmi.benchmark import tasks
    from bmi.samplers import bmm

    rng = np.random.default_rng(0)

    def normal(dx=1, dy=1):
        return bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=np.eye(dx + dy))

    def kernel_input():
        return rng.normal(size=(12, 1)), rng.normal(size=(12, 1))

    special = {
        "independent": lambda n: samplers.IndependentConcatenationSampler(
            [samplers.BivariateNormalSampler(0.1 * i) for i in range(n)]
        ),
        "transformed": lambda **kw: samplers.TransformedSampler(samplers.BivariateNormalSampler(0.3), **kw),
        "bmm_sampler": lambda **kw: bmm.BMMSampler(normal(), **kw),
        "bmm_mixture": lambda dims, proportions: bmm.mixture(
            proportions=np.asarray(proportions), components=[normal(*d) for d in dims]
        ),
        "bmm_product": lambda shape_x=(1,), shape_y=(1,): _product(bmm, shape_x, shape_y),
        "bmm_sample": lambda n_points=1: normal().sample(n_points, _key()),
        "spiral": lambda shape, initial: transforms.Spiral(
            np.zeros(shape), initial=None if initial is None else np.ones(initial)
        ),
        "utils.chunker": lambda **kw: list(utils.chunker(**kw)),
        "used ksg": lambda **kw: estimators.KSGEnsembleFirstEstimator(**kw).estimate(*kernel_input()),
        "used kde": lambda **kw: estimators.KDEMutualInformationEstimator(kernel_xy="gaussian", **kw).estimate(*kernel_input()),
        "training_log": lambda **kw: _training_log(**kw),
        "derived": lambda case=("swissroll", 1, 1), **_: _derived(tasks, *case),
    }
    if name in special:
        return special[name]
    mod, attr = name.split(".")
    return getattr(
        dict(samplers=samplers, transforms=transforms, estimators=estimators, gmm=gmm, r=r, julia=julia, tasks=tasks)[mod],
        attr,
    )


def _key():
    import jax

    return jax.random.PRNGKey(0)


def _training_log(**kw):
    from bmi.estimators.neural._training_log import TrainingLog

    return TrainingLog(early_stopping=True, verbose=False, **kw)


def _product(bmm, shape_x, shape_y):
    from tensorflow_probability.substrates import jax as tfp

    def dist(shape):
        d = tfp.distributions.Normal(np.zeros(shape, dtype=np.float32), np.ones(shape, dtype=np.float32))
        return tfp.distributions.Independent(d, reinterpreted_batch_ndims=len(shape))

    return bmm.ProductDistribution(dist(shape_x), dist(shape_y))


def _derived(tasks, kind, dx, dy):
    base = tasks.task_multinormal_dense(dim_x=dx, dim_y=dy)
    if kind == "swissroll":
        return tasks.transform_swissroll_task(base, task_name="roll")
    return dict(rotate=tasks.transform_rotate_task, spiral=tasks.transform_spiral_task)[kind](base)


def _all_cases():
    out = []
    for name, spec in SCALARS.items():
        for p, (bad, good) in spec["params"].items():
            out += [dict(target=name, set=[[p, _enc(v)]], bad=True) for v in bad]
            out += [dict(target=name, set=[[p, _enc(v)]], bad=False) for v in good]
        out.append(dict(target=name, set=[], bad=False))
    return out


def _enc(v):
    return repr(v) if isinstance(v, float) and not math.isfinite(v) else v


def _dec(v):
    return float(v) if v in ("inf", "-inf", "nan") else v


@st.composite
def _scalars(draw):
    """One violation among otherwise generated admissible parameters; random sizes of it."""
    name = draw(st.sampled_from(sorted(SCALARS)))
    params = SCALARS[name]["params"]
    names = [p for p in params if params[p][0]]
    which = draw(st.sampled_from(names))
    bad = draw(st.booleans())
    out = []
    for p in names:
        if p == which:
            v = draw(st.sampled_from(params[p][0 if bad else 1]))
            if bad and isinstance(v, float) and math.isfinite(v) and abs(v) > 1e-6:
                # further away from the domain than the listed value
                v = v * draw(gen.flt(1.0, 50.0)) if abs(v) >= 1 or v < 0 else v
            if bad and isinstance(v, int) and v < 0:
                v = v - draw(st.integers(0, 1000))
            out.append([p, _enc(v)])
        elif name in INDEPENDENT and draw(st.booleans()):
            out.append([p, _enc(draw(st.sampled_from(params[p][1])))])
    return dict(target=name, set=out, bad=bad)


# targets whose parameters have independent domains
INDEPENDENT = [
    n for n in SCALARS
    if n.split(".")[0] in ("estimators", "gmm", "r", "julia") or n in ("samplers.BivariateNormalSampler", "used kde", "transformed", "bmm_product")
]  # fmt: skip


@facet(
    FACETS,
    rule="every configuration",
    strategy=_scalars,
    examples=_all_cases,
    quick=120,
    thorough=6000,
    shards=4,
)
def parameters(c):
    spec = SCALARS[c["target"]]
    kw = {**spec.get("needs", {}), **spec["base"]}
    kw.update({p: _dec(v) for p, v in c["set"]})
    build = _builder(c["target"])
    if c["bad"]:
        refused(lambda: build(**kw), f"{c['target']} with {kw}")
        return "refused " + c["target"]
    build(**kw)
    return "accepted " + c["target"]


@st.composite
def _canonical(draw):
    bad = draw(st.booleans())
    k = draw(st.integers(1, 4))
    rhos = draw(st.lists(gen.flt(-0.99, 0.99), min_size=k, max_size=k))
    if bad:
        i = draw(st.integers(0, k - 1))
        rhos[i] = draw(st.one_of(gen.flt(1.02, 5), gen.flt(-5, -1.02)))
    return dict(rhos=rhos, extra=draw(st.integers(0, 3)), bad=bad, student=draw(st.booleans()))


@facet(FACETS, rule="every configuration", strategy=_canonical, quick=80, thorough=3000)
def canonical_correlations_beyond_one(c):
    """A sampler with an impossible canonical correlation cannot be built."""
    from bmi import samplers

    k = len(c["rhos"])

    def build():
        s = samplers.canonical_correlation(np.array(c["rhos"]), additional_y=c["extra"])
        if c["student"]:
            return samplers.SplitStudentT(dim_x=k, dim_y=k + c["extra"], dispersion=s, df=3)
        return samplers.SplitMultinormal(dim_x=k, dim_y=k + c["extra"], covariance=s)

    if c["bad"]:
        refused(build, f"canonical correlations {c['rhos']}")
        return "refused"
    require(build().dim_y == k + c["extra"], "dimension")
    return "accepted"


@st.composite
def _bivariate(draw):
    std = gen.flt(0.05, 20.0)
    flaw = draw(st.sampled_from(["correlation", "correlation", "one", "both", "zero", None]))
    rho, sx, sy = draw(gen.flt(-0.999, 0.999)), draw(std), draw(std)
    if flaw == "correlation":
        rho = draw(st.sampled_from([1.0, -1.0]))
    elif flaw == "one":
        sx = -sx
    elif flaw == "both":
        sx, sy = -sx, -sy
    elif flaw == "zero":
        sy = 0.0
    if flaw in ("one", "zero") and draw(st.booleans()):
        sx, sy = sy, sx
    return dict(rho=rho, sx=sx, sy=sy, flaw=flaw)


@facet(FACETS, rule="every configuration", strategy=_bivariate, quick=200, thorough=20000)
def bivariate_normal(c):
    """Also where the covariance of an inadmissible configuration is, up to rounding, a valid one."""
    from bmi import samplers

    def build():
        return samplers.BivariateNormalSampler(c["rho"], std_x=c["sx"], std_y=c["sy"])

    if c["flaw"] is None:
        require(math.isfinite(build().mutual_information()), "mutual information")
        return "accepted"
    refused(build, f"bivariate normal {c}")
    return c["flaw"]


@facet(
    FACETS,
    rule="every configuration",
    strategy=lambda: st.fixed_dictionaries(dict(dx=st.integers(-3, 4), dy=st.integers(-3, 4))),
    examples=lambda: [dict(dx=a, dy=b) for a in (-1, 0, 1) for b in (-1, 0, 1)],
    quick=20,
    thorough=500,
)
def user_defined_samplers(c):
    """Dimensions of samplers which users derive from the base class."""
    from bmi.samplers.base import BaseSampler

    class Mine(BaseSampler):
        def sample(self, n_points, rng):
            return np.zeros((n_points, self.dim_x)), np.zeros((n_points, self.dim_y))

        def mutual_information(self):
            return 0.0

    if min(c["dx"], c["dy"]) < 1:
        refused(lambda: Mine(dim_x=c["dx"], dim_y=c["dy"]), f"sampler of dimensions {c}")
        return "refused"
    s = Mine(dim_x=c["dx"], dim_y=c["dy"])
    require((s.dim_x, s.dim_y) == (c["dx"], c["dy"]), "dimensions")
    return "accepted"


PAIR_USERS = [
    "parametrised", "lvm", "sparse lvm", "task lvm", "task sparse", "task student", "task inliers", "generator",
]  # fmt: skip


@st.composite
def _pairs(draw):
    target = draw(st.sampled_from(PAIR_USERS))
    if target == "generator":
        n = draw(st.integers(1, 6))
        return dict(target=target, n=n, i=draw(st.integers(-1, n + 1)), j=draw(st.integers(-1, n + 1)))
    dx, dy = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    k = draw(st.sampled_from([min(dx, dy), min(dx, dy) + 1, max(dx, dy), max(dx, dy) + 1]) | st.integers(-1, 8))
    return dict(target=target, dx=dx, dy=dy, k=k)


@facet(
    FACETS,
    rule="the number lies between the two dimensions or next to a limit",
    strategy=_pairs,
    quick=200,
    thorough=5000,
)
def numbers_relative_to_dimensions(c):
    """Numbers of interacting pairs against the smaller dimension; indices of rotation generators."""
    from bmi import samplers, transforms
    from bmi.benchmark import tasks

    t = c["target"]
    if t == "generator":
        n, i, j = c["n"], c["i"], c["j"]
        what = f"so_generator(n={n}, i={i}, j={j})"
        if not 0 <= i < j < n:
            refused(lambda: transforms.so_generator(n=n, i=i, j=j), what)
            return "refused generator"
        a = np.asarray(transforms.so_generator(n=n, i=i, j=j))
        require(a.shape == (n, n) and np.count_nonzero(a) == 2, what, got=a)
        return "generator"
    dx, dy, k = c["dx"], c["dy"], c["k"]
    dims = dict(dim_x=dx, dim_y=dy)
    build = {
        "parametrised": lambda: samplers.parametrised_correlation_matrix(**dims, k=k, correlation=0.4),
        "lvm": lambda: samplers.GaussianLVMParametrization(**dims, n_interacting=k, alpha=0.5, lambd=1.0),
        "sparse lvm": lambda: samplers.SparseLVMParametrization(**dims, n_interacting=k),
        "task lvm": lambda: tasks.task_multinormal_lvm(**dims, n_interacting=k, alpha=0.5, lambd=1.0),
        "task sparse": lambda: tasks.task_multinormal_sparse(**dims, n_interacting=k),
        "task student": lambda: tasks.task_student_sparse(**dims, df=3, n_interacting=k),
        "task inliers": lambda: tasks.task_multinormal_sparse_w_inliers(**dims, n_interacting=k),
    }[t]
    low = 1 if t == "parametrised" else 0
    if not low <= k <= min(dx, dy):
        refused(build, f"{t} with {k} pairs", **c)
        return f"refused {t}"
    obj = build()
    if t == "parametrised":
        require(np.asarray(obj).shape == (dx + dy, dx + dy), "shape")
    else:
        require((obj.dim_x, obj.dim_y) == (dx, dy), "dimensions")
    return f"accepted {t}" if k in (0, min(dx, dy)) else None
