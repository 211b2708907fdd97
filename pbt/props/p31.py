"""P31: advertised mutual information matches the mutual information of the samples."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import tasks as bt
from pbt.core import facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): large samples of generated tasks; their mutual information is "
    "measured by independent estimators (covariances, rank correlations, nearest neighbours, the "
    "documented density ratio at the undone sample, quadrature) and compared with the task's claim"
)
LEVEL_NOTE = (
    "5000 points per task; 6.5 standard errors, plus 0.01 (0.1 for nearest neighbours); 1..6 "
    "dimensions for generated tasks, all 40 catalogue tasks."
)

N = 5000
Z = 6.5

# --- undoing the documented maps ----------------------------------------------------------------


def _wiggle_inverse(values, which):
    grid = np.linspace(-60, 60, 240_001)
    image = bt.reference_map(dict(t="wiggly"), grid[:, None], grid[:, None])[which][:, 0]
    out = np.interp(values, image, grid)
    far = (values < image[0]) | (values > image[-1])
    for i in zip(*np.nonzero(far)):  # heavy tails: x is within one of its image
        lo, hi = values[i] - 2, values[i] + 2
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            m = np.array([[mid]])
            lo, hi = (mid, hi) if bt.reference_map(dict(t="wiggly"), m, m)[which][0, 0] < values[i] else (lo, mid)
        out[i] = 0.5 * (lo + hi)
    return out


def undo(tr, x, y):
    from scipy.special import ndtri

    t = tr["t"]
    if t == "wiggly":
        return _wiggle_inverse(x, 0), _wiggle_inverse(y, 1)
    if t == "normal_cdf":
        clip = lambda u: ndtri(np.clip(u, 3e-8, 1 - 3e-8))  # noqa: E731
        return clip(x), clip(y)
    if t in ("half_cube", "power"):
        a = 1 / (1.5 if t == "half_cube" else tr["alpha"])
        return np.sign(x) * np.abs(x) ** a, np.sign(y) * np.abs(y) ** a
    if t == "asinh":
        return np.sinh(x), np.sinh(y)
    if t == "swissroll":
        s = 21 * np.linalg.norm(x, axis=1, keepdims=True)
        return (s / (1.5 * np.pi) - 1) / 2, y
    if t == "spiral":
        p = bt.recorded_by_transform(tr)
        out = []
        for a, (i, j) in [(x, (0, 1)), (y, (1, 2))]:
            s = p["speed"] / a.shape[1] if p["normalize_speed"] else p["speed"]
            out.append(bt.rotate_pair(a, i, j, -s * (a**2).sum(1)))
        return tuple(out)
    if t == "rotate":
        rx, ry = bt.reference_map(tr, np.eye(x.shape[1]), np.eye(y.shape[1]))
        return x @ rx.T, y @ ry.T
    raise KeyError(t)


# --- measuring mutual information -----------------------------------------------------------------


def mixture(c):
    """Means and covariances (of X and Y before the map) and weights of the mixture tasks."""
    p = bt.full_params(c)
    kind = c["ctor"]
    if kind == "x":
        r = p["gaussian_correlation"]
        return np.zeros((2, 2)), np.array([[[1, s * r], [s * r, 1.0]] for s in (-1, 1)]), np.full(2, 0.5)
    if kind == "ai":
        c12 = 0.95 * math.sqrt(0.04 * 0.2)
        means = [[1.0, 0.0], [1.0, 1], [1.0, -1], [-0.8, -0.2], [-1.2, 0.0], [-0.4, 0.0]]
        covs = [np.diag([0.01, 0.2]), np.diag([0.05, 0.001]), np.diag([0.05, 0.001]), np.diag([0.03, 0.001]),
                [[0.04, c12], [c12, 0.2]], [[0.04, -c12], [-c12, 0.2]]]  # fmt: skip
        return np.array(means), np.array(covs, dtype=float), np.full(6, 1 / 6)
    if kind == "galaxy":
        m = np.array([[s, s, s] for s in (-1.0, 1.0)]) * p["distance"] / 2
        return m, np.array([np.eye(3)] * 2), np.full(2, 0.5)
    if kind == "waves":
        k = p["n_components"]
        m = np.array([[i, 0, i % 4] for i in range(k)]) * 1.5
        return m, np.array([np.diag([0.1, 1.0, 0.1])] * k), np.full(k, 1 / k)
    if kind == "concentric":
        k, d = p["n_components"], p["dim_x"]
        m = np.array([[0.0] * d + [1.0 * i] for i in range(1, k + 1)])
        return m, np.array([np.diag([float(i * i)] * d + [1e-4]) for i in range(1, k + 1)]), np.full(k, 1 / k)
    if kind == "inliers":
        f = p["inlier_fraction"]
        dx, dy = bt.base_dims(c)
        s = bt.matrix(c)
        t = s.copy()
        t[:dx, dx:] = 0
        t[dx:, :dx] = 0
        return np.zeros((2, dx + dy)), np.array([s, t]), np.array([1 - f, f])
    raise KeyError(kind)


def log_mixture(points, means, covs, weights):
    from scipy.special import logsumexp
    from scipy.stats import multivariate_normal as mvn

    parts = [
        math.log(w) + np.atleast_1d(mvn.logpdf(points, m, s)) for m, s, w in zip(means, covs, weights) if w > 0
    ]
    return logsumexp(np.array(parts), axis=0)


def log_ratio(c, x, y):
    """Documented pointwise mutual information at points of the base distribution."""
    from scipy.stats import multivariate_normal as mvn
    from scipy.stats import multivariate_t as mvt

    dx = x.shape[1]
    xy = np.hstack([x, y])
    kind = c["ctor"]
    if kind == "additive":
        eps = bt.full_params(c)["epsilon"]
        noise = np.abs(y - x)[:, 0]
        require(np.all(noise <= eps * (1 + 1e-5) + 1e-5), "noise beyond its bounds", got=noise.max())
        py = (np.minimum(1, y + eps) - np.maximum(0, y - eps))[:, 0] / (2 * eps)
        return math.log(1 / (2 * eps)) - np.log(np.maximum(py, 1e-9))
    if kind in bt.MIXTURES:
        m, s, w = mixture(c)
        if kind == "galaxy":
            a = bt.full_params(c)["speed"] * (x**2).sum(1)
            xy = np.hstack([bt.rotate_pair(x, 0, 1, -a), y])
            x = xy[:, :2]
        elif kind == "waves":
            p = bt.full_params(c)
            x1 = x[:, 1] / 0.5
            x0 = (x[:, 0] + 0.8) / 0.1 - p["wave_amplitude"] * np.sin(p["wave_frequency"] * x1)
            x = np.stack([x0, x1], axis=1)
            xy = np.hstack([x, y])
        return (
            log_mixture(xy, m, s, w)
            - log_mixture(x, m[:, :dx], s[:, :dx, :dx], w)
            - log_mixture(y, m[:, dx:], s[:, dx:, dx:], w)
        )
    s = bt.matrix(c)
    if kind == "bimodal":
        u, v = bimodal_scores(x, y)
        return log_ratio(dict(ctor="bivariate", params=c["params"]), u, v)
    if "student" in kind:
        df = bt.full_params(c)["df"]
        f = lambda a, m: np.atleast_1d(mvt.logpdf(a, shape=m, df=df))  # noqa: E731
    else:
        f = lambda a, m: np.atleast_1d(mvn.logpdf(a, cov=m))  # noqa: E731
    return f(xy, s) - f(x, s[:dx, :dx]) - f(y, s[dx:, dx:])


def bimodal_scores(x, y):
    from scipy.special import ndtr, ndtri

    clip = lambda u: np.clip(u, 1e-7, 1 - 1e-7)  # noqa: E731
    return ndtri(clip(0.3 * ndtr(x) + 0.7 * ndtr(x - 5))), ndtri(clip(0.5 * ndtr(y + 1) + 0.5 * ndtr(y - 3)))


def gaussian_estimate(x, y):
    """Estimate and its standard error from the sample covariance."""
    n, dx, dy = len(x), x.shape[1], y.shape[1]
    s = np.cov(np.hstack([x, y]).T)
    a = np.linalg.solve(np.linalg.cholesky(s[:dx, :dx]), s[:dx, dx:])
    b = np.linalg.solve(np.linalg.cholesky(s[dx:, dx:]), a.T)
    rho = np.clip(np.linalg.svd(b, compute_uv=False), 0, 1 - 1e-12)
    bias = dx * dy / (2 * n)
    return -0.5 * np.log1p(-(rho**2)).sum() - bias, math.sqrt(np.sum(rho**2) / n) + 2 * bias / math.sqrt(dx * dy)


def normal_scores(a):
    from scipy.special import ndtri
    from scipy.stats import rankdata

    return ndtri((np.apply_along_axis(rankdata, 0, a) - 0.5) / len(a))


def nearest_neighbours(x, y, k=5):
    """Estimate of Kraskov et al. (first variant) on data scaled by ranks."""
    from scipy.spatial import cKDTree
    from scipy.special import digamma

    x, y = normal_scores(x), normal_scores(y)
    rng = np.random.default_rng(0)
    x, y = x + 1e-9 * rng.normal(size=x.shape), y + 1e-9 * rng.normal(size=y.shape)
    xy = np.hstack([x, y])
    d = cKDTree(xy).query(xy, k=k + 1, p=np.inf)[0][:, -1]
    r = np.nextafter(d, 0)
    nx = cKDTree(x).query_ball_point(x, r, p=np.inf, return_length=True)
    ny = cKDTree(y).query_ball_point(y, r, p=np.inf, return_length=True)
    return digamma(k) + digamma(len(x)) - np.mean(digamma(nx) + digamma(ny))


GAUSSIAN = ("bivariate", "lvm", "dense", "sparse", "2pair")


def measure(task, c, chain, n, seed):
    """Compares the claim of a task with measurements of one sample."""
    claim = float(task.mutual_information)
    x, y = (np.asarray(a, dtype=float) for a in task.sample(n, seed))
    require(x.shape == (n, task.dim_x) and y.shape == (n, task.dim_y), "shapes", got=(x.shape, y.shape))
    raw_x, raw_y = x, y
    for tr in reversed(chain):
        x, y = undo(tr, x, y)
    require(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "sample is not in the range of its maps")
    slack = 0.01
    if c["ctor"] in bt.MIXTURES:
        # the claim is a Monte Carlo estimate itself
        slack += Z * 2.0 / math.sqrt(c.get("mc", 100_000))
    ratio = log_ratio(c, x, y)
    value, error = ratio.mean(), ratio.std() / math.sqrt(n)
    require(abs(value - claim) <= Z * error + slack, "density ratio at the sample", claim=claim, measured=value, error=error)
    labels = ["ratio"]
    if c["ctor"] in GAUSSIAN:
        value, error = gaussian_estimate(x, y)
        require(abs(value - claim) <= Z * error + slack, "covariance of the sample", claim=claim, measured=value, error=error)
        labels.append("covariance")
    spatial = {tr["t"] for tr in chain} & {"spiral", "rotate", "swissroll"}
    if c["ctor"] in (*GAUSSIAN, "bimodal") and not spatial:
        # marginal maps do not change ranks: nothing has to be undone
        value, error = gaussian_estimate(normal_scores(raw_x), normal_scores(raw_y))
        require(abs(value - claim) <= Z * error + 0.02 + slack, "ranks of the sample", claim=claim, measured=value, error=error)
        labels.append("ranks")
    if x.shape[1] == y.shape[1] == 1 and claim < 2.5:
        value = nearest_neighbours(x, y)
        require(abs(value - claim) <= Z / math.sqrt(n) + 0.06, "nearest neighbours", claim=claim, measured=value)
        labels.append("neighbours")
    return "+".join(labels)


# --- the catalogue ----------------------------------------------------------------------------------


def _catalogue_cases():
    return [dict(index=i, seed=7 + i) for i in range(40)]


@st.composite
def _catalogue(draw):
    return dict(index=draw(st.integers(0, 39)), seed=draw(gen.seeds()))


@facet(FACETS, rule="every task", strategy=_catalogue, examples=_catalogue_cases, quick=2, thorough=400, shards=5)
def catalogue(c):
    from bmi.benchmark.task_list import BENCHMARK_TASKS_LIST

    if c["index"] >= len(BENCHMARK_TASKS_LIST):
        return None
    task = BENCHMARK_TASKS_LIST[c["index"]]
    base, chain = bt.parse_id(task.id)
    require(base is not None, "unknown kind of task", got=task.id)
    return measure(task, base, chain, N, c["seed"])


# --- generated tasks ------------------------------------------------------------------------------------

KINDS = tuple(k for k in bt.ID_PARAMS if k not in bt.MIXTURES)
MAPS = ["wiggly", "half_cube", "asinh", "power", "normal_cdf", "spiral", "rotate"]


@st.composite
def _constructed(draw):
    base = draw(bt.bases(kinds=KINDS))
    dims = bt.base_dims(base)
    names = list(MAPS)
    if "student" in base["ctor"]:
        # single precision loses far points of a CDF and angles of far points
        names = ["wiggly", "half_cube", "asinh", "rotate"]
    if base["ctor"] in ("additive", "bimodal"):
        names = ["wiggly", "half_cube", "asinh", "power"]
    chain = []
    if draw(st.integers(0, 2)):
        chain = draw(bt.chains(dims, max_len=2, names=names))
    kinds = [tr["t"] for tr in chain]
    # two maps compound their rounding in single precision; power maps are steep at zero
    if kinds.count("normal_cdf") + kinds.count("power") > 1:
        chain = chain[:1]
    return dict(base=base, chain=chain, seed=draw(gen.seeds()))


@facet(FACETS, rule="every task", strategy=_constructed, quick=20, thorough=700, shards=8, spread=True)
def constructed_tasks(c):
    base = bt.build_base(c["base"])
    if float(base.mutual_information) > 4:
        return None
    task = base
    for tr in c["chain"]:
        task = bt.apply(task, tr)
    require(float(task.mutual_information) == float(base.mutual_information), "mutual information of a transformed task")
    how = measure(task, c["base"], c["chain"], N, c["seed"])
    return f"{c['base']['ctor']}: {how}"


# --- mixtures -----------------------------------------------------------------------------------------------


def quadrature_2d(means, covs, weights, half=8.0, n=900):
    """MI of a two-dimensional Gaussian mixture by the trapezoid rule."""
    sx, sy = np.sqrt(covs[:, 0, 0]), np.sqrt(covs[:, 1, 1])

    def grid(m, s):
        g = np.linspace((m - half * s).min(), (m + half * s).max(), n)
        return g, g[1] - g[0]

    (gx, hx), (gy, hy) = grid(means[:, 0], sx), grid(means[:, 1], sy)
    p = np.zeros((n, n))
    for m, s, w in zip(means, covs, weights):
        if w == 0:
            continue
        inv, det = np.linalg.inv(s), np.linalg.det(s)
        a, b = (gx - m[0])[:, None], (gy - m[1])[None, :]
        q = inv[0, 0] * a * a + 2 * inv[0, 1] * a * b + inv[1, 1] * b * b
        p += w * np.exp(-0.5 * q) / (2 * np.pi * math.sqrt(det))
    p /= p.sum() * hx * hy
    px, py = p.sum(1) * hy, p.sum(0) * hx
    prod = px[:, None] * py[None, :]
    ok = p > 1e-300
    return float(np.sum(p[ok] * np.log(p[ok] / prod[ok])) * hx * hy)


def mixture_mi(c):
    """Mutual information of the mixture tasks by quadrature (None: not available)."""
    p = bt.full_params(c)
    kind = c["ctor"]
    if kind in ("x", "ai"):
        return quadrature_2d(*mixture(c))
    if kind == "galaxy":
        # along the diagonal of X
        m = np.array([[s * math.sqrt(2), s] for s in (-1.0, 1.0)]) * p["distance"] / 2
        return quadrature_2d(m, np.array([np.eye(2)] * 2), np.full(2, 0.5))
    if kind == "waves":
        m, s, w = mixture(c)
        keep = [0, 2]
        return quadrature_2d(m[:, keep], s[:, keep][:, :, keep], w, n=2000)
    if kind == "concentric":
        # Y is K with small noise: I(X; K) over the radius
        from scipy.special import gammaln, logsumexp

        k, d = p["n_components"], p["dim_x"]
        r = np.linspace(1e-6, 12.0 * k, 40_001)
        area = math.log(2) + 0.5 * d * math.log(math.pi) - gammaln(0.5 * d)
        logs = np.array([-0.5 * (r / i) ** 2 - d * math.log(i) - 0.5 * d * math.log(2 * math.pi) for i in range(1, k + 1)])
        mix = logsumexp(logs, axis=0) - math.log(k)
        w = np.exp(area + (d - 1) * np.log(r))
        return float(np.trapezoid((np.exp(logs) * (logs - mix)).mean(0) * w, r)) if hasattr(np, "trapezoid") else float(
            np.trapz((np.exp(logs) * (logs - mix)).mean(0) * w, r)
        )
    return None


@st.composite
def _mixtures(draw):
    base = draw(bt.bases(kinds=bt.MIXTURES))
    if base["ctor"] == "waves" and "n_components" in base["params"]:
        base["params"]["n_components"] = draw(st.sampled_from([1, 2, 5, 12]))
    base["mc"] = draw(st.sampled_from([20_000, 50_000]))
    return dict(base=base, seed=draw(gen.seeds()))


def _mixture_examples():
    out = []
    for i, kind in enumerate(bt.MIXTURES):
        p = dict(concentric=dict(dim_x=3, n_components=4), inliers=dict(dim_x=3, dim_y=2)).get(kind, {})
        out.append(dict(base=dict(ctor=kind, params=p, name=None, mc=50_000), seed=i))
    return out


@facet(FACETS, rule="every task", strategy=_mixtures, examples=_mixture_examples, quick=3, thorough=300, shards=6, spread=True)
def mixture_tasks(c):
    base = c["base"]
    p = bt.full_params(base)
    task = bt.build_base(base)
    claim = float(task.mutual_information)
    want = mixture_mi(base)
    if base["ctor"] == "inliers" and p["inlier_fraction"] in (0.0, 1.0):
        dx = bt.base_dims(base)[0]
        want = 0.0 if p["inlier_fraction"] == 1.0 else bt.gaussian_mi(bt.matrix(base), dx)
    if want is not None:
        # the pointwise mutual information of these tasks varies by less than two nats
        require(abs(claim - want) <= Z * 2.0 / math.sqrt(base["mc"]) + 0.003, "quadrature", claim=claim, want=want)
    how = measure(task, base, [], N, c["seed"])
    return f"{base['ctor']}: {how}{'' if want is None else '+quadrature'}"


# --- example distributions of the Mixtures paper ------------------------------------------------------------

EXAMPLES = {"x": dict(gaussian_correlation=0.9), "ai": {}, "galaxy": dict(speed=0.5, distance=3.0), "waves": {}}


@st.composite
def _paper(draw):
    kind = draw(st.sampled_from(sorted(EXAMPLES)))
    return dict(
        kind=kind,
        n_components=draw(st.sampled_from([None, 1, 3, 7])) if kind == "waves" else None,
        mc=draw(st.sampled_from([2_000, 20_000])),
        seed=draw(gen.seeds()),
    )


def _paper_examples():
    return [dict(kind=k, n_components=None, mc=20_000, seed=i) for i, k in enumerate(sorted(EXAMPLES))]


@facet(FACETS, rule="every case", strategy=_paper, examples=_paper_examples, quick=1, thorough=60, shards=4, spread=True)
def example_distributions(c):
    """The distribution used for pointwise mutual information belongs to the sampler it is bound to."""
    from pbt import workflows

    module = workflows.load("bmi_workflows_examples", "projects", "Mixtures", "example_distributions.py")
    kind, params = c["kind"], dict(EXAMPLES[c["kind"]])
    kw = {}
    if c["n_components"] is not None:
        kw["n_components"] = params["n_components"] = c["n_components"]
    example = getattr(module, f"create_{kind}_distribution")(_sample=c["mc"], **kw)
    base = dict(ctor=kind, params=params, name=None, mc=c["mc"])
    claim = float(example.sampler.mutual_information())
    want = mixture_mi(base)
    require(abs(claim - want) <= Z * 2.0 / math.sqrt(c["mc"]) + 0.003, "quadrature", claim=claim, want=want)
    x, y = (np.asarray(v, dtype=float) for v in example.sampler.sample(4000, c["seed"]))
    # the coordinates in which the documented density ratio is written
    unit = {"x": math.sqrt(0.3), "galaxy": 0.3}.get(kind, 1.0)
    x, y = x / unit, (y / unit if kind == "x" else y)
    pmi = log_ratio(base, x, y)
    se = pmi.std() / math.sqrt(len(pmi))
    require(abs(pmi.mean() - want) <= Z * se + 0.01, "mutual information of the sample", got=pmi.mean(), want=want)
    # ... and those of the distribution bound to the sampler
    if kind == "galaxy":
        u = bt.rotate_pair(x, 0, 1, -0.5 * (x**2).sum(1))
    elif kind == "waves":
        u1 = x[:, 1] / 0.5
        u = np.stack([(x[:, 0] + 0.8) / 0.1 - 5.0 * np.sin(3.0 * u1), u1], axis=1)
    else:
        u = x * unit
    got = np.asarray(example.dist.pmi(u.astype(np.float32), (y * (unit if kind == "x" else 1.0)).astype(np.float32)))
    wrong = np.abs(got - pmi) > 2e-2 * (1 + np.abs(pmi))
    require(wrong.mean() < 0.002, "pointwise mutual information", got=got[wrong][:3], want=pmi[wrong][:3])
    return f"{kind}"
