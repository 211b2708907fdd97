"""P05: samples follow the declared law."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, stat, zoo
from pbt.core import facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis) over parameters; each case draws a large sample and "
    "compares probability integral transforms of random projections, conditionals and parts "
    "with the exact law (thresholds beyond 6 sigma)"
)
LEVEL_NOTE = (
    "30000 points per case, 300000 in one of eight; distribution functions are resolved to 0.023 "
    "(0.007), correlations to 0.038 (0.012); tails of probability 1e-2, 1e-3 (1e-4) by exact "
    "binomial tests; no repeated values of continuous variables. "
    "Elliptical laws and mixtures of them through all coordinates and random projections."
)
ASSUMPTIONS = [
    "each statistical comparison fails on correct code with probability below 1e-10",
    "deviations smaller than the stated resolution are not seen",
]
N = 30000


def flat_components(c, weight=1.0):
    """[(weight, mean, scatter matrix, df or inf)] of an elliptical mixture."""
    kind = c["kind"]
    if kind == "mixture":
        w = np.asarray(c["weights"], dtype=float)
        w = w / w.sum() * weight
        return [comp for wi, x in zip(w, c["of"]) for comp in flat_components(x, wi)]
    if kind == "product":
        [(w, m, s, df)] = flat_components(c["of"], weight)
        s = s.copy()
        dx = zoo.dims_of(c)[0]
        s[:dx, dx:] = 0
        s[dx:, :dx] = 0
        return [(w, m, s, df)]
    if kind == "bivariate":
        r = c["rho"] * c["std_x"] * c["std_y"]
        s = np.array([[c["std_x"] ** 2, r], [r, c["std_y"] ** 2]])
        return [(weight, np.array([c["mean_x"], c["mean_y"]]), s, np.inf)]
    s = gen.build_block_covariance(c["cov"])[0]
    m = zoo._mean(c)
    return [(weight, np.zeros(len(s)) if m is None else m, s, c.get("df", np.inf))]


def projection_pit(components, rows, t):
    """Distribution function of the projection t . (x, y) at the sample points."""
    from scipy import stats

    v = rows @ t
    u = np.zeros(len(v))
    for w, m, s, df in components:
        z = (v - m @ t) / np.sqrt(t @ s @ t)
        u += w * (stats.norm.cdf(z) if np.isinf(df) else stats.t.cdf(z, df))
    return u


def check_elliptical(c, rows, rng, tails=True):
    comps = flat_components(c)
    dim = rows.shape[1]
    for j in range(dim):
        stat.no_atoms(rows[:, j], "coordinate", column=j)
    eye = np.eye(dim)
    # Directions in which the scatter matrices, and their cross-blocks, matter
    sd = np.sqrt(np.diag(sum(w * s for w, _, s, _ in comps)))
    directions = [eye[i] for i in range(dim)]
    directions += [eye[i] / sd[i] + eye[j] / sd[j] for i in range(dim) for j in range(i)]
    directions += [eye[i] / sd[i] - eye[j] / sd[j] for i in range(dim) for j in range(i)]
    directions += [rng.normal(size=dim) / sd for _ in range(4)]
    for t in directions:
        stat.ks_uniform(projection_pit(comps, rows, t), "projection", tails, direction=t)
    if len(comps) == 1:
        # Radial law and independence of radius and direction
        from scipy import stats

        _, m, s, df = comps[0]
        z = np.linalg.solve(np.linalg.cholesky(s), (rows - m).T).T
        r2 = np.sum(z * z, axis=1)
        pit = stats.chi2.cdf(r2, dim) if np.isinf(df) else stats.f.cdf(r2 / dim, dim, df)
        stat.ks_uniform(pit, "radius", tails)
        for j in range(dim):
            u = z[:, j] / np.sqrt(r2)
            stat.uncorrelated(pit, u, "radius and direction", column=j)
            if dim > 1:
                stat.uncorrelated(pit, u * u, "radius and squared direction", column=j)


def draw_rows(c):
    n = c.get("n", N)
    x, y = zoo.build(c["sampler"]).sample(n, c["seed"])
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    require(x.shape == (n, zoo.dims_of(c["sampler"])[0]), "shape of X", got=x.shape)
    require(y.shape == (n, zoo.dims_of(c["sampler"])[1]), "shape of Y", got=y.shape)
    return x, y


def sizes():
    """Mostly 30000 points; ten times more to see the tails."""
    return st.sampled_from([N] * 7 + [10 * N])


def with_seed(strategy):
    return st.fixed_dictionaries(dict(sampler=strategy, seed=gen.seeds(), n=sizes()))


LARGER = [(4, 4), (1, 7), (8, 3), (6, 6)]


def elliptical(larger=False):
    options = [
        zoo.gaussian_like("multinormal"),
        zoo.gaussian_like("student"),
        zoo.gaussian_like("student"),
        zoo.bivariates(),
    ]
    if larger:
        tiny = st.sampled_from([0.3, 0.5, 200.0, 1e4, 1e7])
        options.append(st.tuples(zoo.gaussian_like("student"), tiny).map(lambda p: dict(p[0], df=p[1])))
        options += [zoo.gaussian_like("multinormal", dims=LARGER), zoo.gaussian_like("student", dims=LARGER)]
    return st.one_of(options)


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: with_seed(elliptical(larger=True)),
    quick=45,
    thorough=1500,
    shards=2,
)
def elliptical_samplers(c):
    x, y = draw_rows(c)
    rows = np.hstack([x, y])
    check_elliptical(c["sampler"], rows, gen.rng_of(c, 1))
    stat.independent_rows(rows[:, :3], "sample")
    dx, dy = zoo.dims_of(c["sampler"])
    return f"{c['sampler']['kind']} {dx}+{dy}"


@st.composite
def _bmm_cases(draw):
    return dict(
        sampler=dict(kind="bmm", of=draw(zoo.bmm_dists(depth=2)), mi=0.0), seed=draw(gen.seeds())
    )


@facet(
    FACETS,
    rule="every case",
    strategy=_bmm_cases,
    quick=22,
    thorough=700,
    shards=2,
)
def mixture_models(c):
    x, y = draw_rows(c)
    rows = np.hstack([x, y])
    check_elliptical(c["sampler"]["of"], rows, gen.rng_of(c, 1))
    stat.independent_rows(rows[:, :3], "sample")
    return "+".join(sorted(set(zoo.kinds_in(c["sampler"]["of"]))))


INVERSES = {
    "none": lambda v: v,
    "shift": lambda v: v - 1.5,
    "scale": lambda v: v / -0.5,
    "exp": np.log,
    "sinh": np.arcsinh,
    "softplus": lambda v: v + np.log(-np.expm1(-v)),
}


@st.composite
def _bent_cases(draw):
    dist = dict(
        kind="transform",
        of=draw(zoo.bmm_dists(depth=1, students=False)),
        fx=draw(st.sampled_from(sorted(INVERSES))),
        fy=draw(st.sampled_from(sorted(INVERSES))),
    )
    return dict(sampler=dict(kind="bmm", of=dist, mi=0.0), seed=draw(gen.seeds()))


@facet(
    FACETS,
    rule="a transform other than the identity on X or Y",
    strategy=_bent_cases,
    quick=20,
    thorough=500,
)
def bent_models(c):
    """Transforming the sample back gives the law of the base distribution."""
    d = c["sampler"]["of"]
    x, y = draw_rows(c)
    # float32 exponentials and softplus underflow in the far tail; ignore single points
    with np.errstate(all="ignore"):
        bx, by = INVERSES[d["fx"]](x), INVERSES[d["fy"]](y)
    rows = np.hstack([bx, by])
    ok = np.isfinite(rows).all(axis=1)
    require(ok.mean() > 0.999, "transformed sample leaves the image of the transform", kept=ok.mean())
    check_elliptical(d["of"], rows[ok], gen.rng_of(c, 1), tails=bool(ok.all()))
    stat.independent_rows(np.hstack([x, y])[:, [0, -1]], "sample")
    return None if d["fx"] == d["fy"] == "none" else f"{d['fx']}/{d['fy']}"


def check_additive(s, x, y):
    x, n = x[:, 0], (y - x)[:, 0]
    eps = s["eps"]
    require(((x >= 0) & (x <= 1)).all(), "X outside of [0, 1]")
    tol = 1e-6 * (1 + eps)
    require((np.abs(n) <= eps + tol).all(), "noise outside of [-eps, eps]")
    stat.ks_uniform(x, "X")
    un = (n + eps) / (2 * eps)
    stat.ks_uniform(un, "noise")
    stat.uncorrelated(x, un, "X and noise")
    stat.uncorrelated(np.abs(x - 0.5), np.abs(un - 0.5), "spread of X and noise")
    stat.uncorrelated(np.abs(x - 0.5), un, "spread of X and noise")


def check_categorical(m, x, y):
    """One coordinate of a discrete-uniform mixture."""
    require(np.array_equal(x, np.round(x)), "X is not integer-valued")
    require(((x >= 0) & (x < m)).all(), "X outside of the categories", m=m)
    if m > 64:
        # Randomised probability integral transform
        stat.ks_uniform((x + np.random.default_rng(m).random(len(x))) / m, "X")
    for v in range(m if m <= 64 else 0):
        p = 1 / m
        stat.mean_is(x == v, p, max(np.sqrt(p * (1 - p)), 1e-12) if m > 1 else 1.0, f"frequency of {v}")
    u = (y - x) / 2
    require(((u >= -1e-6) & (u <= 1 + 1e-6)).all(), "Y outside of [X, X + 2]")
    stat.ks_uniform(u, "Y given X")
    stat.uncorrelated(x, u, "X and (Y - X)")


def check_zip(s, x, y, rng):
    from scipy import stats

    x, y = x[:, 0], y[:, 0]
    p = s["p"]
    require((x >= 0).all(), "negative X")
    stat.ks_uniform(-np.expm1(-x), "X")
    require(np.array_equal(y, np.round(y)) and (y >= 0).all(), "Y is not a count")
    # Randomised probability integral transform of Y given X
    below = np.where(y > 0, p + (1 - p) * stats.poisson.cdf(y - 1, x), 0.0)
    at = (1 - p) * stats.poisson.pmf(y, x) + np.where(y == 0, p, 0.0)
    u = below + rng.random(len(x)) * at
    stat.ks_uniform(u, "Y given X")
    for k in range(1, 14):
        # An exponential mixture of Poisson variables is geometric
        stat.frequency_is(np.sum(y >= k), len(y), (1 - p) * 0.5**k, f"Y of at least {k}")
        stat.frequency_is(np.sum(y == k), len(y), (1 - p) * 0.5 ** (k + 1), f"Y equal to {k}")
    stat.uncorrelated(u, -np.expm1(-x), "X and the residual of Y")
    stat.uncorrelated(np.abs(u - 0.5), -np.expm1(-x), "X and the residual of Y")


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: with_seed(
        st.one_of(
            st.fixed_dictionaries(dict(kind=st.just("additive"), eps=gen.flt(0.01, 20))),
            st.fixed_dictionaries(dict(kind=st.just("dum"), n=st.integers(1, 40) | st.integers(100, 2000), discrete=st.booleans())),
            st.fixed_dictionaries(
                dict(
                    kind=st.just("mdum"),
                    ns=st.lists(st.integers(1, 12), min_size=1, max_size=4),
                    discrete=st.booleans(),
                )
            ),
            st.fixed_dictionaries(dict(kind=st.just("zip"), p=gen.flt(0, 0.98), discrete=st.booleans())),
        )
    ),
    quick=60,
    thorough=2000,
    shards=2,
)
def discrete_and_uniform(c):
    s = c["sampler"]
    x, y = draw_rows(c)
    if s["kind"] == "additive":
        check_additive(s, x, y)
    elif s["kind"] == "zip":
        check_zip(s, x, y, gen.rng_of(c, 1))
    else:
        ns = s.get("ns") or [s["n"]]
        for j, m in enumerate(ns):
            check_categorical(m, x[:, j], y[:, j])
        for j in range(len(ns)):
            for k in range(j):
                stat.uncorrelated(x[:, j], x[:, k], "coordinates of X")
                stat.uncorrelated(y[:, j], y[:, k], "coordinates of Y")
                stat.uncorrelated((y - x)[:, j], (y - x)[:, k], "noise of coordinates")
    stat.independent_rows(np.hstack([x, y])[:, [0, -1]], "sample")
    return s["kind"] if s.get("n") != 1 else None


@st.composite
def _concat_cases(draw):
    part = st.one_of(
        elliptical(),
        zoo.gaussian_like("bmm_normal"),
        st.fixed_dictionaries(dict(kind=st.just("additive"), eps=gen.flt(0.05, 3))),
        st.fixed_dictionaries(dict(kind=st.just("zip"), p=gen.flt(0, 0.5), discrete=st.booleans())),
    )
    small = st.one_of(
        zoo.bivariates(), st.fixed_dictionaries(dict(kind=st.just("additive"), eps=gen.flt(0.05, 3)))
    )
    parts = draw(st.one_of(st.lists(part, min_size=1, max_size=3), st.lists(small, min_size=4, max_size=7)))
    if draw(st.booleans()):
        parts.append(parts[0])  # equal parts must still be independent
    return dict(sampler=dict(kind="concat", of=parts), seed=draw(gen.seeds()))


@facet(
    FACETS,
    rule="at least two parts",
    strategy=_concat_cases,
    quick=20,
    thorough=600,
)
def concatenation(c):
    """Every part keeps its law, order and pairing; the parts are independent."""
    x, y = draw_rows(c)
    i = j = 0
    scores = []
    for k, part in enumerate(c["sampler"]["of"]):
        dx, dy = zoo.dims_of(part)
        px, py = x[:, i : i + dx], y[:, j : j + dy]
        i, j = i + dx, j + dy
        if part["kind"] == "additive":
            check_additive(part, px, py)
        elif part["kind"] == "zip":
            check_zip(part, px, py, gen.rng_of(c, 2 + k))
        else:
            check_elliptical(part, np.hstack([px, py]), gen.rng_of(c, 2 + k))
        scores.append([stat.ranks(v) for v in (*px.T, *py.T)])
    stat.independent_rows(np.hstack([x, y])[:, [0, -1]], "sample")
    for a in range(len(scores)):
        for b in range(a):
            for u in scores[a]:
                for v in scores[b]:
                    stat.uncorrelated(u, v, "coordinates of different parts", parts=(a, b))
                    stat.uncorrelated(np.abs(u - 0.5), np.abs(v - 0.5), "spread in different parts")
    return f"{len(scores)} parts" if len(scores) > 1 else None


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            sampler=zoo.simple_samplers(),
            seed=st.integers(0, 2**31 - 2),
            gap=st.sampled_from([1, 1, 1, 2, 7, 1000, 2**16, 2**24]),
        )
    ),
    quick=40,
    thorough=1500,
)
def seeds_are_independent(c):
    """Samples for neighbouring seeds are independent of each other."""
    s = zoo.build(c["sampler"])
    a = np.hstack([np.asarray(v, dtype=float) for v in s.sample(N, c["seed"])])
    other = c["seed"] + c["gap"] if c["seed"] + c["gap"] < 2**31 else c["seed"] - c["gap"]
    b = np.hstack([np.asarray(v, dtype=float) for v in s.sample(N, other)])
    for j in range(a.shape[1]):
        u, v = stat.ranks(a[:, j]), stat.ranks(b[:, j])
        stat.uncorrelated(u, v, "samples of two seeds", column=j)
        stat.unrelated_positions(u, v, "points of samples of two seeds", column=j)
        u, v = np.abs(u - 0.5), np.abs(v - 0.5)
        stat.uncorrelated(u, v, "spread in samples of two seeds", column=j)
        stat.unrelated_positions(u, v, "spread of points of samples of two seeds", column=j)
    return c["sampler"]["kind"]
