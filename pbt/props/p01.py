"""P01: Gaussian ground-truth mutual information is exact."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): exact rational determinants, covariances built "
    "from prescribed canonical correlations, metamorphic relations"
)
LEVEL_NOTE = (
    "Generated covariances: dims 1..8 exhaustively mixed, up to 240 in total, scales "
    "1e-150..1e150 (units), conditioning up to ~1e8; oracle known by construction."
)
ASSUMPTIONS = [
    "float32 distributions of mixture models: conditioning up to 1e3, tolerance scaled with it"
]


def _mi(dx, dy, cov, mean=None):
    from bmi.samplers import SplitMultinormal

    return SplitMultinormal(dim_x=dx, dim_y=dy, covariance=cov, mean=mean).mutual_information()


@st.composite
def _exact_cases(draw):
    c = draw(gen.integer_factors(max_dim=5))
    c["how"] = draw(st.sampled_from(gen.CONTAINERS))
    n = c["dx"] + c["dy"]
    c["mean"] = draw(st.none() | st.lists(st.integers(-1000, 1000), min_size=n, max_size=n))
    return c


@facet(
    FACETS,
    rule="integer covariance with a non-zero cross-block, any container and mean",
    strategy=_exact_cases,
    quick=700,
    thorough=20000,
)
def integer_exact(c):
    """MI equals the ratio of determinants calculated in exact integer arithmetic."""
    s = gen.integer_spd(c)
    dx, dy = c["dx"], c["dy"]
    det = gen.exact_det(s)
    det_x = gen.exact_det([r[:dx] for r in s[:dx]])
    det_y = gen.exact_det([r[dx:] for r in s[dx:]])
    expected = 0.5 * (math.log(det_x) + math.log(det_y) - math.log(det))
    # Single-precision containers are evaluated in single precision
    tol = 1e-9 if c["how"] in ("list", "ndarray", "fortran") else 2e-5 * max(max(r) for r in s)
    mean = None if c["mean"] is None else gen.contain(c["mean"], c["how"])
    got = _mi(dx, dy, gen.contain(s, c["how"]), mean)
    require(np.ndim(got) == 0, "MI is not a scalar", got=got)
    require(float(got) >= 0.0, "negative MI", got=got)
    close(got, expected, atol=tol, what="MI of an integer covariance")
    if det_x * det_y == det:
        require(float(got) <= tol, "MI of independent variables is not zero", got=got)
        return None
    return f"{c['how']}, {'dx=dy' if dx == dy else 'dx!=dy'}, {'no ' if mean is None else ''}mean"


@st.composite
def _block_cases(draw):
    c = draw(gen.block_covariances(max_dim=8))
    c["mean_scale"] = draw(st.sampled_from([0.0, 1.0, 1e6, 1e-6]))
    return c


@facet(
    FACETS,
    rule="at least one non-zero canonical correlation",
    strategy=_block_cases,
    quick=700,
    thorough=20000,
)
def prescribed_correlations(c):
    """MI depends only on the canonical correlations, at every scale; swapping X and Y keeps it."""
    s, expected, cond = gen.build_block_covariance(c)
    dx, dy = c["dx"], c["dy"]
    n = dx + dy
    mean = gen.rng_of(c, 1).normal(size=n) * c["mean_scale"] * 10.0 ** c["log_scale"]
    tol = 1e-10 + 1e-14 * n * cond
    got = _mi(dx, dy, s, mean)
    require(np.isfinite(got) and got >= 0, "MI is not a finite non-negative number", got=got)
    close(got, expected, atol=tol, what="MI")
    swap = np.r_[dx:n, 0:dx]
    close(_mi(dy, dx, s[np.ix_(swap, swap)]), expected, atol=tol, what="MI with X and Y swapped")
    if not any(abs(r) > 1e-6 for r in c["rhos"]):
        return None
    big = abs(c["log_scale"]) > 30
    return f"{'extreme' if big else 'moderate'} scale, {'dx=dy' if dx == dy else 'dx!=dy'}"


@st.composite
def _high_dim_cases(draw):
    dims = [(1, 40), (40, 3), (25, 25), (60, 60), (100, 20), (120, 120)]
    return draw(gen.block_covariances(dims=dims, max_rho=0.99, max_log_cond=1.5, max_log_scale=80))


@facet(
    FACETS,
    rule="at least one non-zero canonical correlation",
    strategy=_high_dim_cases,
    quick=80,
    thorough=1500,
)
def high_dimensional(c):
    """Determinants under- and overflow, mutual information does not."""
    s, expected, cond = gen.build_block_covariance(c)
    got = _mi(c["dx"], c["dy"], s)
    require(np.isfinite(got) and got >= 0, "MI is not a finite non-negative number", got=got)
    close(got, expected, atol=1e-10 + 1e-13 * len(s) * cond, what="MI")
    return f"dims {c['dx']}+{c['dy']}" if any(abs(r) > 1e-6 for r in c["rhos"]) else None


@st.composite
def _strong_cases(draw):
    dx, dy = draw(st.sampled_from([(2, 3), (8, 8), (30, 12), (64, 64), (100, 100)]))
    return dict(
        dx=dx,
        dy=dy,
        low=draw(gen.flt(0.0, 0.9999)),
        high=draw(st.sampled_from([0.5, 0.99, 0.9999])),
        units=draw(st.sampled_from([0.0, 1.0, 3.0])),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="every case",
    strategy=_strong_cases,
    quick=80,
    thorough=1500,
)
def strong_dependence(c):
    """Many correlated pairs in different units: mutual information of up to 420 nats."""
    rng = gen.rng_of(c)
    dx, dy = c["dx"], c["dy"]
    k = min(dx, dy)
    rho = rng.uniform(min(c["low"], c["high"]), c["high"], size=k) * rng.choice([-1, 1], size=k)
    s = np.eye(dx + dy)
    ix, iy = rng.permutation(dx)[:k], dx + rng.permutation(dy)[:k]
    s[ix, iy] = s[iy, ix] = rho
    units = 10.0 ** rng.uniform(-c["units"], c["units"], size=dx + dy)
    s = s * np.outer(units, units)
    expected = float(-0.5 * np.sum(np.log1p(-(rho**2))))
    close(_mi(dx, dy, s), expected, atol=1e-9, rtol=1e-9, what="MI of many correlated pairs")
    return f"{expected // 50 * 50:.0f}+ nats"


@st.composite
def _growth_cases(draw):
    c = draw(gen.integer_factors(max_dim=4, extra=3))
    c["a"] = draw(st.integers(1, c["dx"]))
    c["b_"] = draw(st.integers(1, c["dy"]))
    return c


@facet(
    FACETS,
    rule="a proper subset of coordinates is dropped and the blocks are dependent",
    strategy=_growth_cases,
    quick=500,
    thorough=10000,
)
def grows_with_coordinates(c):
    s = np.asarray(gen.integer_spd(c), dtype=float)
    dx, dy, a, b = c["dx"], c["dy"], c["a"], c["b_"]
    full = _mi(dx, dy, s)
    keep = np.r_[0:a, dx : dx + b]
    part = _mi(a, b, s[np.ix_(keep, keep)])
    require(part <= full + 1e-9, "MI decreased when coordinates were added", part=part, full=full)
    if (a, b) == (dx, dy) or full < 1e-9:
        return None
    return "strict growth" if full > part + 1e-9 else "equal"


@st.composite
def _bivariate_cases(draw):
    return dict(
        rho=draw(st.one_of(gen.flt(-0.99999, 0.99999), st.sampled_from([0.0, 0.99999, -0.99999]), st.tuples(gen.flt(-9, -2), st.sampled_from([1, -1])).map(lambda p: p[1] * (1 - 10 ** p[0])), st.tuples(gen.flt(-6, 0), st.sampled_from([1, -1])).map(lambda p: p[1] * 10 ** p[0] * 0.9))),
        std_x=10 ** draw(gen.flt(-1.5, 1.5)),
        std_y=10 ** draw(gen.flt(-1.5, 1.5)),
        log_scale=draw(st.one_of(st.just(0.0), gen.flt(-140, 140))),
        mean_x=draw(gen.flt(-1e3, 1e3)),
        mean_y=draw(gen.flt(-1e3, 1e3)),
    )


@facet(
    FACETS,
    rule="correlation away from zero",
    strategy=_bivariate_cases,
    quick=800,
    thorough=20000,
)
def bivariate(c):
    """The special case and the general distribution with its covariance agree with the formula."""
    from bmi.samplers import BivariateNormalSampler

    rho, scale = c["rho"], 10.0 ** c["log_scale"]
    sx, sy = c["std_x"] * scale, c["std_y"] * scale
    expected = -0.5 * (math.log1p(-rho) + math.log1p(rho))
    s = BivariateNormalSampler(
        correlation=rho, std_x=sx, std_y=sy, mean_x=c["mean_x"] * scale, mean_y=c["mean_y"] * scale
    )
    got = s.mutual_information()
    require(got >= 0, "negative MI", got=got)
    close(got, expected, atol=1e-10 + 1e-15 / (1 - abs(rho)), what="MI of a bivariate normal")
    if 1e-7 < abs(rho) < 0.9:
        # 1 - rho^2 is rounded to a multiple of 1.1e-16
        close(got, expected, atol=2e-15, rtol=1e-12, what="small MI of a bivariate normal")
    if rho == 0:
        require(got == 0, "MI is not zero without correlation", got=got)
    require(s.correlation() == rho, "correlation is not the one given", got=s.correlation())
    cov = [[sx**2, rho * sx * sy], [rho * sx * sy, sy**2]]
    # The entropies are of the order of the logarithm of the scale
    rounding = 2e-15 * (10 + abs(c["log_scale"])) + 2e-15 / (1 - rho**2)
    close(_mi(1, 1, cov), expected, atol=rounding, what="MI of the covariance")
    if abs(rho) < 1e-4:
        return None
    return f"{'negative' if rho < 0 else 'positive'}, {'strong' if abs(rho) > 0.9 else 'weak'}"


@st.composite
def _bmm_cases(draw):
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 5)]
    return draw(gen.block_covariances(dims=dims, max_rho=0.95, max_log_cond=0.7, max_log_scale=13))


@facet(
    FACETS,
    rule="at least one non-zero canonical correlation",
    strategy=_bmm_cases,
    quick=150,
    thorough=3000,
)
def mixture_component(c):
    """The Gaussian component of mixture models reports the same mutual information."""
    from bmi.samplers import bmm

    s, expected, cond = gen.build_block_covariance(c)
    mean = gen.rng_of(c, 1).normal(size=len(s))
    d = bmm.MultivariateNormalDistribution(dim_x=c["dx"], dim_y=c["dy"], mean=mean, covariance=s)
    require(d.analytic_mi >= 0, "negative MI", got=d.analytic_mi)
    close(d.analytic_mi, expected, atol=1e-5 + 1e-6 * len(s) * cond, what="analytic MI")
    sampler = bmm.BMMSampler(d, mi=d.analytic_mi)
    close(sampler.mutual_information(), expected, atol=1e-5 + 1e-6 * len(s) * cond, what="MI")
    tr = bmm.transform(d)
    close(tr.analytic_mi, expected, atol=1e-5 + 1e-6 * len(s) * cond, what="MI after a transform")
    return f"dims {c['dx']}+{c['dy']}" if any(abs(r) > 1e-3 for r in c["rhos"]) else None
