"""P16: the KDE estimate is the resubstitution combination of kernel entropies."""

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, special
from scipy.spatial.distance import cdist

from pbt import data, gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential against directly evaluated kernel densities "
    "with numerically integrated normalisation; metamorphic relations"
)
LEVEL_NOTE = (
    "2..3000 points in up to 3 + 3 dimensions, six kernels independently for X, Y and the joint, "
    "numeric (1e-3..1e4) and rule-based bandwidths, with and without standardisation."
)
KERNELS = {
    "gaussian": lambda u: np.exp(-0.5 * u**2),
    "tophat": lambda u: (u < 1).astype(float),
    "epanechnikov": lambda u: np.maximum(0, 1 - u**2),
    "exponential": lambda u: np.exp(-u),
    "linear": lambda u: np.maximum(0, 1 - u),
    "cosine": lambda u: np.where(u < 1, np.cos(0.5 * np.pi * np.minimum(u, 1)), 0.0),
}
_NORM = {}


def log_norm(kernel, d):
    """log of the integral of the kernel over the d-dimensional space."""
    if (kernel, d) not in _NORM:
        top = 60.0 if kernel in ("gaussian", "exponential") else 1.0
        f = lambda r: KERNELS[kernel](np.asarray(r)) * r ** (d - 1)  # noqa: E731
        v = integrate.quad(f, 0, top, epsabs=1e-13, epsrel=1e-12, limit=200, points=[1.0, 8.0] if top > 1 else None)[0]
        surface = 2 * np.pi ** (d / 2) / special.gamma(d / 2)
        _NORM[kernel, d] = np.log(v * surface)
    return _NORM[kernel, d]


def bandwidth(b, n, d):
    if b == "scott":
        return n ** (-1 / (d + 4))
    if b == "silverman":
        return (n * (d + 2) / 4) ** (-1 / (d + 4))
    return float(b)


def entropy(a, kernel, b):
    """-> resubstitution entropy, relative distance of a pair to the boundary of the kernel"""
    a = np.asarray(a, dtype=float)
    n, d = a.shape
    h = bandwidth(b, n, d)
    u = cdist(a, a) / h
    dens = KERNELS[kernel](u).sum(1) / n
    gap = np.abs(u - 1).min() if kernel == "tophat" else 1.0
    return -np.mean(np.log(dens)) + log_norm(kernel, d) + d * np.log(h), gap


_bw = st.one_of(st.sampled_from(["scott", "silverman"]), st.sampled_from([0.2, 0.5, 1, 1.7, 4.0]), st.sampled_from([1e-3, 30.0, 1e4]))

# scikit-learn's own normalisation of the cosine kernel is wrong (or NaN) from two
# dimensions on, which is not this repository's doing: the cosine kernel is only
# generated for one-dimensional marginals.
def _kernel(d):
    return st.sampled_from(sorted(k for k in KERNELS if d == 1 or k != "cosine"))


@st.composite
def _cases(draw):
    d = draw(
        data.datasets(
            max_dim=3,
            sizes=(2, 3, 9, 25, 80, 80, 700),
            styles=("normal", "correlated", "lattice", "duplicates", "clusters", "constant", "binary"),
            dtypes=("float64",),
        )
    )
    d.update(log_scale=0, shift=draw(st.sampled_from([0, 0, 3])))
    return dict(
        data=d,
        kernels=[
            draw(_kernel(2)),
            draw(st.one_of(st.none(), _kernel(d["dx"]))),
            draw(st.one_of(st.none(), _kernel(d["dy"]))),
        ],
        bws=[draw(_bw), draw(st.one_of(st.none(), _bw)), draw(st.one_of(st.none(), _bw))],
        standardize=draw(st.booleans()),
        default=draw(st.integers(0, 9)) == 0,
    )


def estimator(c, swap=False):
    from bmi.estimators import KDEMutualInformationEstimator

    if c["default"]:
        return KDEMutualInformationEstimator()
    k, b = c["kernels"], c["bws"]
    i, j = (2, 1) if swap else (1, 2)
    return KDEMutualInformationEstimator(
        kernel_xy=k[0],
        kernel_x=k[i],
        kernel_y=k[j],
        bandwidth_xy=b[0],
        bandwidth_x=b[i],
        bandwidth_y=b[j],
        standardize=c["standardize"],
    )


def settings(c):
    if c["default"]:
        return ["tophat"] * 3, ["scott"] * 3, True
    k = [c["kernels"][0] if v is None else v for v in c["kernels"]]
    b = [c["bws"][0] if v is None else v for v in c["bws"]]
    return k, b, c["standardize"]


@facet(
    FACETS,
    rule="no pair of points within rounding of the boundary of a top-hat kernel",
    strategy=_cases,
    examples=lambda: [
        dict(
            data=dict(dx=1, dy=d, n=n, style_x="correlated", style_y="correlated", dtype="float64", log_scale=0, shift=0, seed=n),
            kernels=[k, None, None], bws=[b, None, None], standardize=s, default=False,
        )
        for n, d, k, b, s in [
            (2500, 1, "tophat", "scott", True), (3000, 2, "gaussian", 0.3, False), (2100, 1, "epanechnikov", "silverman", True),
        ]
    ],
    quick=150,
    thorough=12000,
    shards=6,
)
def equals_the_kernel_entropies(c):
    x, y = data.make(c["data"])
    k, b, standardize = settings(c)
    xs, ys = (data.standardised(x), data.standardised(y)) if standardize else (x, y)
    parts = [np.hstack([xs, ys]), xs, ys]
    want = [entropy(a, k[i], b[i]) for i, a in enumerate(parts)]
    est = estimator(c)
    got = est.estimate_entropies(x, y)
    mi = float(est.estimate(x, y))
    values = [float(got.entropy_xy), float(got.entropy_x), float(got.entropy_y)]
    require(np.isfinite(values).all(), "entropies are not finite", got=values)
    close(got.mutual_information, values[1] + values[2] - values[0], atol=1e-9, what="h(X)+h(Y)-h(X,Y)")
    close(mi, got.mutual_information, atol=1e-12, what="estimate")
    p = est.parameters()
    require(
        [p.kernel_xy, p.kernel_x, p.kernel_y] == k
        and [p.bandwidth_xy, p.bandwidth_x, p.bandwidth_y] == b
        and p.standardize == standardize,
        "reported parameters",
        got=p,
    )
    ok = True
    for name, v, (w, gap) in zip(("joint", "X", "Y"), values, want):
        if gap < 1e-7:
            ok = False
            continue
        close(v, w, rtol=1e-6, atol=1e-6, what=f"entropy of the {name} distribution")
    return f"{k[0]} joint kernel" if ok else None


@st.composite
def _relations(draw):
    c = draw(_cases())
    c["relation"] = draw(st.sampled_from(["swap", "permute", "rescale", "refit"]))
    c["default"] = False
    return c


@facet(FACETS, rule="every relation", strategy=_relations, quick=100, thorough=8000, shards=2)
def metamorphic_relations(c):
    x, y = data.make(c["data"])
    rng = gen.rng_of(c["data"], 9)
    k, b, _ = settings(c)
    xs, ys = (data.standardised(x), data.standardised(y)) if c["standardize"] else (x, y)
    gaps = [entropy(a, k[i], b[i])[1] for i, a in enumerate([np.hstack([xs, ys]), xs, ys])]
    if min(gaps) < 1e-7:
        return None
    want = float(estimator(c).estimate(x, y))
    rel, x2, y2 = c["relation"], x, y
    est = estimator(c, swap=rel == "swap")
    if rel == "swap":
        x2, y2 = y, x
    elif rel == "permute":
        p = rng.permutation(len(x))
        x2, y2 = x[p], y[p]
    elif rel == "rescale":
        if not c["standardize"]:
            return None
        x2 = x * rng.uniform(0.1, 20, size=x.shape[1]) + rng.normal(size=x.shape[1])
        y2 = y * rng.uniform(0.1, 20, size=y.shape[1]) + rng.normal(size=y.shape[1])
    else:
        est.estimate(y[: len(y) // 2 + 1], x[: len(y) // 2 + 1])
    close(est.estimate(x2, y2), want, atol=1e-6, what=rel)
    return rel
