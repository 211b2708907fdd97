"""P17: the CCA estimate is the Gaussian MI of the sample canonical correlations."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential against canonical correlations computed by "
    "QR and SVD and against the log-determinant formula at the sample covariance; metamorphic relations"
)
LEVEL_NOTE = (
    "8..1000 points, up to 16 + 16 dimensions, well-separated canonical correlations (the estimator "
    "iterates, and is compared where its iteration can converge), with and without scaling."
)
ASSUMPTIONS = [
    "Cases whose consecutive sample canonical correlations have a ratio above 0.85 are trivial: "
    "scikit-learn's power iteration need not converge there.  So are unscaled data with coordinates "
    "in units which differ by orders of magnitude."
]
LEVELS = [0.93, 0.7, 0.5, 0.3, 0.12]


def canonical_correlations(x, y):
    qs = []
    for a in (x, y):
        a = np.asarray(a, dtype=float)
        a = a - a.mean(0)
        a = a / np.linalg.norm(a, axis=0)
        qs.append(np.linalg.qr(a)[0])
    return np.linalg.svd(qs[0].T @ qs[1], compute_uv=False)


def gaussian_formula(x, y):
    """from the log-determinants of the sample correlation matrix"""
    c = np.corrcoef(np.hstack([x, y]).astype(float), rowvar=False)
    d = x.shape[1]

    def logdet(m):
        return np.linalg.slogdet(np.atleast_2d(m))[1]

    return 0.5 * (logdet(c[:d, :d]) + logdet(c[d:, d:]) - logdet(c))


@st.composite
def _cases(draw):
    dx, dy = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    k = min(dx, dy)
    return dict(
        dx=dx,
        dy=dy,
        n=draw(st.sampled_from([12, 30, 100, 300, 1000])),
        seed=draw(gen.seeds()),
        levels=sorted(draw(st.permutations(range(5)))[:k]),
        noise=draw(st.sampled_from(["normal", "uniform", "exponential", "signs"])),
        mix=draw(st.booleans()),
        log_units=draw(st.sampled_from([0, 0, 2, -3])),
        shift=draw(st.sampled_from([0.0, 0.0, 10.0])),
        scale=draw(st.sampled_from([None, True, False])),
        as_float32=draw(st.integers(0, 5)) == 0,
    )


def make(c):
    rng = gen.rng_of(c)
    n, dx, dy = c["n"], c["dx"], c["dy"]
    d = dx + dy
    z = {
        "normal": lambda: rng.normal(size=(n, d)),
        "uniform": lambda: rng.uniform(-1.7, 1.7, size=(n, d)),
        "exponential": lambda: rng.exponential(size=(n, d)) - 1,
        "signs": lambda: rng.choice([-1.0, 1.0], size=(n, d)) + 0.2 * rng.normal(size=(n, d)),
    }[c["noise"]]()
    x, y = z[:, :dx], z[:, dx:].copy()
    for i, lv in enumerate(c["levels"]):
        r = LEVELS[lv] * rng.choice([-1, 1])
        y[:, i] = r * x[:, i] + np.sqrt(1 - r * r) * y[:, i]
    if c["mix"]:
        x = x @ mixing(rng, dx)
        y = y @ mixing(rng, dy)
    if c["log_units"]:
        # different units for different coordinates
        x = x * 10.0 ** np.linspace(0, c["log_units"], dx)
        y = y * 10.0 ** np.linspace(c["log_units"], 0, dy)
    x, y = x + c["shift"], y - c["shift"]
    if c["as_float32"]:
        x, y = x.astype("float32"), y.astype("float32")
    return x, y


def mixing(rng, d):
    """a matrix with condition number at most 3"""
    u = np.linalg.qr(rng.normal(size=(d, d)))[0]
    v = np.linalg.qr(rng.normal(size=(d, d)))[0]
    return u * rng.uniform(0.5, 1.5, size=d) @ v


def estimator(c):
    from bmi.estimators import CCAMutualInformationEstimator

    if c["scale"] is None:
        return CCAMutualInformationEstimator()
    return CCAMutualInformationEstimator(scale=c["scale"])


def separated(r):
    return r[0] < 0.999 and (len(r) == 1 or (r[1:] / r[:-1]).max() < 0.85)


def units_apart(c):
    """Without scaling, coordinates in very different units slow the iteration down."""
    return c["scale"] is False and c["log_units"] != 0


@facet(
    FACETS,
    rule="consecutive sample canonical correlations are separated by a factor of 0.85 or less",
    strategy=_cases,
    quick=250,
    thorough=12000,
    shards=4,
)
def equals_the_canonical_correlations(c):
    x, y = make(c)
    if c["n"] <= 2 + c["dx"] + c["dy"]:
        return None
    r = canonical_correlations(x, y)
    if not separated(r) or units_apart(c):
        return None
    want = -0.5 * np.log1p(-r**2).sum()
    got = estimator(c).estimate(x, y)
    close(want, gaussian_formula(x, y), atol=1e-7, what="the two oracles")
    close(got, want, atol=TOL, rtol=TOL, what="CCA estimate", correlations=r)
    require(got >= -1e-9, "negative estimate", got=got)
    return f"{c['dx']}+{c['dy']}"


@st.composite
def _pairs(draw):
    return dict(
        n=draw(st.sampled_from([5, 12, 40, 500])),
        log_gap=draw(gen.flt(-6, 0)),  # of 1 - correlation
        sign=draw(st.sampled_from([-1, 1])),
        log_units=[draw(st.sampled_from([0, 0, 4, -5])) for _ in range(2)],
        shift=[draw(st.sampled_from([0.0, 0.0, 1e4, -1e6])) for _ in range(2)],
        scale=draw(st.sampled_from([None, True, False])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every case", strategy=_pairs, quick=150, thorough=8000)
def two_variables(c):
    """One coordinate each: nothing is iterated, so that strong correlations and large means are exact."""
    rng = gen.rng_of(c)
    x, e = rng.normal(size=(2, c["n"], 1))
    r = 1 - 10.0 ** c["log_gap"]
    y = c["sign"] * r * x + np.sqrt(1 - r * r) * e
    x, y = x * 10.0 ** c["log_units"][0], y * 10.0 ** c["log_units"][1]
    x, y = x + c["shift"][0] * x.std(), y + c["shift"][1] * y.std()
    a, b = (x - x.mean())[:, 0], (y - y.mean())[:, 0]
    a, b = (a - a.mean()) / a.std(), (b - b.mean()) / b.std()
    rest = float(np.mean((b - np.mean(a * b) * a) ** 2))  # 1 - r^2 without cancellation
    want = -0.5 * np.log(rest)
    got = float(estimator(c).estimate(x, y))
    close(got, want, atol=1e-9 + 1e-12 / rest, rtol=1e-6, what="CCA estimate for two variables")
    return "strong" if want > 2.3 else "moderate"


TOL = 2e-4  # measured deviation over 5000 data sets: 2e-5


@st.composite
def _relations(draw):
    c = draw(_cases())
    c["relation"] = draw(
        st.sampled_from(["swap", "permute", "shift", "rescale", "flip", "columns", "linear", "refit"])
    )
    return c


@facet(
    FACETS,
    rule="separated canonical correlations",
    strategy=_relations,
    quick=120,
    thorough=6000,
    shards=2,
)
def metamorphic_relations(c):
    c = dict(c, as_float32=False)
    x, y = make(c)
    if c["n"] <= 2 + c["dx"] + c["dy"] or units_apart(c):
        return None
    if not separated(canonical_correlations(x, y)):
        return None
    rng = gen.rng_of(c, 3)
    est = estimator(c)
    want = est.estimate(x, y)
    x2, y2, rel = x, y, c["relation"]
    if rel == "swap":
        x2, y2 = y, x
    elif rel == "permute":
        p = rng.permutation(len(x))
        x2, y2 = x[p], y[p]
    elif rel == "shift":
        x2, y2 = x + rng.normal(size=x.shape[1]), y + 3 * rng.normal(size=y.shape[1])
    elif rel == "rescale":
        x2, y2 = x * rng.uniform(0.2, 5), y * rng.uniform(0.2, 5)
        if c["scale"] is not False:
            x2 = x2 * 10.0 ** rng.uniform(-3, 3, size=x.shape[1])
    elif rel == "flip":
        x2 = x * rng.choice([-1, 1], size=x.shape[1])
    elif rel == "columns":
        x2, y2 = x[:, rng.permutation(x.shape[1])], y[:, rng.permutation(y.shape[1])]
    elif rel == "linear":
        if c["log_units"]:
            return None
        x2, y2 = x @ mixing(rng, x.shape[1]), y @ mixing(rng, y.shape[1])
    else:
        est.estimate(y[::-1], x)
    close(est.estimate(x2, y2), want, atol=2 * TOL, rtol=2 * TOL, what=rel)
    return rel


@st.composite
def _many(draw):
    return dict(
        dx=draw(st.integers(1, 16)),
        dy=draw(st.integers(6, 16)),
        flip=draw(st.booleans()),
        n=draw(st.sampled_from([60, 200, 2000])),
        first=draw(st.sampled_from([0.99, 0.9, 0.5])),
        mix=draw(st.booleans()),
        scale=draw(st.sampled_from([None, True, False])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every case", strategy=_many, quick=40, thorough=3000, shards=2)
def many_dimensions(c):
    """Data whose sample canonical correlations are prescribed."""
    rng = gen.rng_of(c)
    dx, dy, n = c["dx"], c["dy"], c["n"]
    q = rng.normal(size=(n, dx + dy))
    q = np.linalg.qr(q - q.mean(0))[0] * np.sqrt(n)
    k = min(dx, dy)
    r = c["first"] * 0.8 ** np.arange(k)
    x, y = q[:, :dx], q[:, dx:].copy()
    y[:, :k] = r * x[:, :k] + np.sqrt(1 - r**2) * y[:, :k]
    if c["mix"]:
        x, y = x @ mixing(rng, dx), y @ mixing(rng, dy)
    if c["flip"]:
        x, y = y, x
    want = -0.5 * np.log1p(-(r**2)).sum()
    close(want, gaussian_formula(x, y), atol=1e-7, what="the two oracles")
    close(estimator(c).estimate(x, y), want, atol=TOL, rtol=TOL, what="CCA estimate", correlations=r)
    return f"{k} correlations"
