"""P03: closed-form MI of the remaining samplers equals the true MI of their law."""

import functools
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential against numerical integration of the "
    "documented law; additivity over generated concatenations"
)
LEVEL_NOTE = (
    "Noise widths 1e-36..1e30, 1..65536 categories, lists of up to 40, inflation 0..0.99999, "
    "truncations 1..10000, nested concatenations of up to 45 parts; reference accurate to 1e-6."
)


def additive_uniform_mi(eps):
    """h(Y) - h(N), where the density of Y is the overlap of [0, 1] and [y-eps, y+eps]."""
    if eps < 1e-4 or eps > 1e4:
        # Exact integral of the two ramps (the numerical one is not accurate at these scales)
        return eps - math.log(2 * eps) if eps < 1 else 0.25 / eps

    def f(y):
        return max(0.0, min(1.0, y + eps) - max(0.0, y - eps)) / (2 * eps)

    # The density is piecewise linear between these points
    knots = sorted([-eps, 1 + eps, eps, 1 - eps])
    nodes, weights = np.polynomial.legendre.leggauss(60)
    h = 0.0
    for a, b in zip(knots[:-1], knots[1:]):
        fa, fb = f(a), f(b)
        if b <= a:
            continue
        # substitution clustering the nodes at the end points (log singularity at f = 0)
        t = 0.5 * (nodes + 1)
        u = t**3 * (10 - 15 * t + 6 * t * t)
        du = 30 * t**2 * (1 - t) ** 2 * 0.5 * weights
        vals = fa + (fb - fa) * u
        with np.errstate(divide="ignore", invalid="ignore"):
            g = np.where(vals > 0, -vals * np.log(vals), 0.0)
        h += (b - a) * float(np.sum(g * du))
    return h - math.log(2 * eps)


@functools.lru_cache(maxsize=None)
def discrete_uniform_mi(m):
    """Enumerates the unit cells of Y."""
    count = np.zeros(m + 1)
    for x in range(m):
        count[x] += 1
        count[x + 1] += 1
    mi = 0.0
    for x in range(m):
        for cell in (x, x + 1):
            mi += (1 / m) * 0.5 * math.log(0.5 / (count[cell] / (2 * m)))
    return mi


@functools.lru_cache(maxsize=None)
def _laguerre():
    # composite Gauss-Legendre rule for exp(-x) dx on [0, 45]
    nodes, weights = np.polynomial.legendre.leggauss(10)
    edges = np.concatenate([10.0 ** np.linspace(-8, -1, 30), np.linspace(0.1, 45, 160)[1:]])
    edges = np.concatenate([[0.0], edges])
    a, b = edges[:-1, None], edges[1:, None]
    x = (0.5 * (b - a) * nodes + 0.5 * (a + b)).ravel()
    w = (0.5 * (b - a) * weights).ravel() * np.exp(-x)
    return x, w


@functools.lru_cache(maxsize=None)
def _poisson_table():
    from scipy import special

    x, _ = _laguerre()
    k = np.arange(0, 160)[:, None]
    return np.exp(k * np.log(x)[None, :] - x[None, :] - special.gammaln(k + 1))


@functools.lru_cache(maxsize=1000)
def zip_mi(p):
    """H(Y) - E H(Y|X), with X exponential."""
    _, w = _laguerre()
    cond = (1 - p) * _poisson_table()
    cond[0] += p
    marginal = cond @ w
    with np.errstate(divide="ignore", invalid="ignore"):
        h_cond = -np.nansum(np.where(cond > 0, cond * np.log(cond), 0.0), axis=0)
        h_marg = -np.nansum(np.where(marginal > 0, marginal * np.log(marginal), 0.0))
    return float(h_marg - h_cond @ w)


def epsilons():
    return st.one_of(
        gen.flt(-3, 3).map(lambda e: 10.0**e),
        gen.flt(-36, 30).map(lambda e: 10.0**e),
        gen.flt(0.3, 0.7),
        st.sampled_from([0.5, 0.1, 0.75, 1.0, 2.0, 0.25]),
        st.integers(1, 20),
    )


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(dict(eps=epsilons())),
    quick=400,
    thorough=10000,
)
def additive_uniform(c):
    from bmi.samplers import AdditiveUniformSampler

    eps = c["eps"]
    expected = additive_uniform_mi(eps)
    for got in (
        AdditiveUniformSampler(epsilon=eps).mutual_information(),
        AdditiveUniformSampler.mutual_information_function(eps),
    ):
        close(got, expected, atol=2e-6 if eps < 1 else 1e-9, rtol=2e-5, what="MI")
    return "eps > 0.5" if eps > 0.5 else "eps <= 0.5"


@facet(
    FACETS,
    rule="at least two categories in some coordinate",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            ns=st.lists(
                st.one_of(
                    st.integers(1, 12),
                    st.integers(1, 400),
                    st.sampled_from([128, 256, 1000, 1024, 32_768, 50_000, 65_536]),
                ),
                min_size=1,
                max_size=40,
            ),
            discrete=st.booleans(),
        )
    ),
    quick=300,
    thorough=6000,
)
def discrete_uniform(c):
    from bmi.samplers import (
        DiscreteUniformMixtureSampler,
        MultivariateDiscreteUniformMixtureSampler,
    )

    ns = c["ns"]
    parts = [discrete_uniform_mi(n) for n in ns]
    for n, expected in zip(ns, parts):
        s = DiscreteUniformMixtureSampler(n_discrete=n, use_discrete_x=c["discrete"])
        close(s.mutual_information(), expected, atol=1e-5, what="MI of one coordinate")
    s = MultivariateDiscreteUniformMixtureSampler(ns_discrete=ns, use_discrete_x=c["discrete"])
    close(s.mutual_information(), sum(parts), atol=1e-5 * len(ns), what="MI of the concatenation")
    require((s.dim_x, s.dim_y) == (len(ns), len(ns)), "dimensions", got=(s.dim_x, s.dim_y))
    return f"{len(ns)} coordinates" if max(ns) > 1 else None


@facet(
    FACETS,
    rule="inflation strictly between 0 and 1",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            p=st.one_of(gen.flt(0, 0.999), gen.flt(-9, -1).map(lambda e: 10.0**e), gen.flt(-5, -1).map(lambda e: 1 - 10.0**e), st.sampled_from([0.0, 0.15, 0.5, 0.9, 0.99, 0.999]), st.just(0)),
            truncation=st.none() | st.integers(1, 60) | st.sampled_from([100, 128, 200, 500, 1000, 10000]),
            discrete=st.booleans(),
        )
    ),
    quick=250,
    thorough=4000,
)
def zero_inflated_poisson(c):
    from bmi.samplers import ZeroInflatedPoissonizationSampler

    p, trunc = c["p"], c["truncation"]
    s = ZeroInflatedPoissonizationSampler(p=p, use_discrete_y=c["discrete"])
    exact = zip_mi(p)
    # The documented approximation is accurate to 1e-4
    close(s.mutual_information(), exact, atol=1e-4, what="MI")
    if trunc is not None:
        tail = sum(math.log(k) * 0.5**k for k in range(trunc + 1, 400))
        expected = max(0.0, exact + (1 - p) * tail)
        close(s.mutual_information(truncation=trunc), expected, atol=5e-6, what="truncated MI")
    if p == 0:
        return None
    return ("truncated" if trunc else "default") + (", p > 0.5" if p > 0.5 else ", p <= 0.5")


@st.composite
def _parts(draw):
    kind = draw(st.sampled_from(["au", "dum", "zip", "gauss", "student", "bmm"]))
    if kind == "au":
        return dict(kind=kind, eps=draw(gen.flt(0.05, 3.0)))
    if kind == "dum":
        return dict(kind=kind, n=draw(st.integers(1, 20)))
    if kind == "zip":
        return dict(kind=kind, p=draw(gen.flt(0.0, 0.9)))
    return dict(
        kind=kind,
        rho=draw(gen.flt(-0.95, 0.95)),
        df=draw(st.integers(1, 10)),
        extra_x=draw(st.integers(0, 2)),
        extra_y=draw(st.integers(0, 2)),
    )


def build_part(c):
    """-> sampler, MI by a reference"""
    import bmi.samplers as bs

    from pbt.props.p02 import correction

    kind = c["kind"]
    if kind == "au":
        return bs.AdditiveUniformSampler(epsilon=c["eps"]), additive_uniform_mi(c["eps"])
    if kind == "dum":
        return bs.DiscreteUniformMixtureSampler(n_discrete=c["n"]), discrete_uniform_mi(c["n"])
    if kind == "zip":
        return bs.ZeroInflatedPoissonizationSampler(p=c["p"]), zip_mi(c["p"])
    dx, dy = 1 + c["extra_x"], 1 + c["extra_y"]
    cov = np.eye(dx + dy)
    cov[0, dx] = cov[dx, 0] = c["rho"]
    gauss = -0.5 * math.log1p(-c["rho"] ** 2)
    if kind == "gauss":
        return bs.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=cov), gauss
    if kind == "bmm":
        d = bs.bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=cov)
        return bs.bmm.BMMSampler(d, mi=d.analytic_mi), gauss
    return (
        bs.SplitStudentT(dim_x=dx, dim_y=dy, dispersion=cov, df=c["df"]),
        gauss + correction(c["df"], dx, dy),
    )


@facet(
    FACETS,
    rule="at least two concatenated samplers",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            parts=st.lists(_parts(), min_size=1, max_size=5),
            nest=st.booleans(),
            again=st.integers(0, 3) | st.sampled_from([15, 16, 40]),
        )
    ),
    quick=250,
    thorough=5000,
)
def concatenation_adds(c):
    from bmi.samplers import IndependentConcatenationSampler

    built = [build_part(p) for p in c["parts"]]
    # The same object may occur several times
    built += [built[-1]] * c["again"]
    samplers = [b[0] for b in built]
    expected = sum(b[1] for b in built)
    dims = (sum(s.dim_x for s in samplers), sum(s.dim_y for s in samplers))
    if c["nest"] and len(samplers) > 1:
        s = IndependentConcatenationSampler(
            [samplers[0], IndependentConcatenationSampler(samplers[1:])]
        )
    else:
        s = IndependentConcatenationSampler(samplers=samplers)
    zips = sum(p["kind"] == "zip" for p in c["parts"]) + c["again"] * (c["parts"][-1]["kind"] == "zip")
    tol = 1e-4 * zips + 5e-6 * (1 + expected)
    close(s.mutual_information(), expected, atol=tol, what="MI of the concatenation")
    require((s.dim_x, s.dim_y) == dims, "dimensions do not add up", got=(s.dim_x, s.dim_y))
    if len(samplers) == 1:
        return None
    return "nested" if c["nest"] else "flat"
