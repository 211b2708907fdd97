"""P02: Student-t ground-truth mutual information is exact."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): closed-form and quadrature reference entropies, "
    "prescribed canonical correlations, metamorphic relations in the degrees of freedom"
)
LEVEL_NOTE = (
    "Dims 1..6 (and up to 400 in total), df from 1e-2 to 1e6 and infinity, dispersions with "
    "scales 1e-100..1e100; reference accurate to 1e-9 (1e-6 at the largest df)."
)


def _stirling_lgamma_diff(a, b):
    """lgamma(a) - lgamma(b), accurate also for large arguments close to each other."""
    shift = 0.0
    # Move both arguments above 30 by the recurrence, then use the Stirling series
    while a < 30:
        shift -= math.log(a)
        a += 1
    while b < 30:
        shift += math.log(b)
        b += 1

    def series(z):
        return 1 / (12 * z) - 1 / (360 * z**3) + 1 / (1260 * z**5) - 1 / (1680 * z**7)

    # (a-1/2) log a - a - (b-1/2) log b + b
    main = (a - b) * math.log(b) + (a - 0.5) * math.log1p((a - b) / b) - (a - b)
    return shift + main + series(a) - series(b)


def _digamma_diff(a, b):
    """digamma(a) - digamma(b)"""
    shift = 0.0
    while a < 30:
        shift -= 1 / a
        a += 1
    while b < 30:
        shift += 1 / b
        b += 1

    def tail(z):
        return -1 / (2 * z) - 1 / (12 * z**2) + 1 / (120 * z**4) - 1 / (252 * z**6)

    return shift + math.log1p((a - b) / b) + tail(a) - tail(b)


def _entropy_gap(k, nu):
    """Entropy of Student-t(0, I_k, nu) up to the term 0.5 * k * log(nu * pi)."""
    return -_stirling_lgamma_diff(0.5 * (nu + k), 0.5 * nu) + 0.5 * (nu + k) * _digamma_diff(
        0.5 * (nu + k), 0.5 * nu
    )


def correction(nu, p, q):
    if math.isinf(nu):
        return 0.0
    return _entropy_gap(p, nu) + _entropy_gap(q, nu) - _entropy_gap(p + q, nu)


def _tol(nu, dim):
    # double-precision evaluation of lgamma and digamma at arguments of order nu + dim
    z = 1.0 if math.isinf(nu) else nu + dim
    return 1e-9 + 1e-14 * z * math.log(z + 2)


def dfs():
    return st.one_of(
        st.integers(1, 100),
        gen.flt(-2, 6).map(lambda e: 10.0**e),
        st.sampled_from([math.inf, 1, 2, 1000000, 0.5, 171, 345.5]),
    )


@st.composite
def _cases(draw):
    c = draw(gen.block_covariances(max_dim=6, max_log_scale=100))
    c["df"] = draw(dfs())
    c["mean_scale"] = draw(st.sampled_from([None, 0.0, 1.0, 1e6]))
    return c


@facet(
    FACETS,
    rule="finite degrees of freedom, where the correction is not negligible (> 1e-6)",
    strategy=_cases,
    quick=700,
    thorough=20000,
)
def split_student(c):
    from bmi.samplers import SplitStudentT

    s, gauss, cond = gen.build_block_covariance(c)
    dx, dy, df = c["dx"], c["dy"], c["df"]
    mean = None
    if c["mean_scale"] is not None:
        mean = gen.rng_of(c, 1).normal(size=dx + dy) * c["mean_scale"]
    t = SplitStudentT(dim_x=dx, dim_y=dy, df=df, dispersion=s, mean=mean)
    tol = 1e-14 * (dx + dy) * cond
    corr = correction(df, dx, dy)
    close(t.mi_normal(), gauss, atol=1e-10 + tol, what="Gaussian part")
    close(t.mi_correction(), corr, atol=_tol(df, dx + dy), what="correction")
    close(
        SplitStudentT.mi_correction_function(df=df, dim_x=dx, dim_y=dy),
        corr,
        atol=_tol(df, dx + dy),
        what="correction function",
    )
    mi = t.mutual_information()
    require(np.isfinite(mi), "MI is not finite", got=mi)
    close(mi, gauss + corr, atol=tol + _tol(df, dx + dy), what="MI")
    require(t.df == df, "df is not the one given", got=t.df)
    if df <= 2:
        expect_raises(ValueError, t.covariance, "covariance for df <= 2")
    else:
        factor = 1.0 if math.isinf(df) else df / (df - 2.0)
        close(t.covariance() / np.max(np.abs(s)), factor * s / np.max(np.abs(s)), atol=1e-13, rtol=1e-9, what="covariance")
    if corr < 1e-6:
        return None
    kind = "df<=2" if df <= 2 else ("df<100" if df < 100 else "df>=100")
    return f"{kind}, {'dx=dy' if dx == dy else 'dx!=dy'}"


@st.composite
def _correction_cases(draw):
    dim = st.one_of(st.integers(1, 12), st.integers(1, 200))
    return dict(df=draw(dfs()), df2=draw(dfs()), p=draw(dim), q=draw(dim), r=draw(dim))


@facet(
    FACETS,
    rule="two different finite degrees of freedom",
    strategy=_correction_cases,
    quick=1500,
    thorough=40000,
)
def correction_laws(c):
    """Symmetric, non-negative, grows with dims, decreases with df, vanishes at infinity."""
    from bmi.samplers import SplitStudentT

    f = SplitStudentT.mi_correction_function
    df, df2, p, q = c["df"], c["df2"], c["p"], c["q"]
    tol = _tol(df, p + q + c["r"])
    got = f(df=df, dim_x=p, dim_y=q)
    require(np.isfinite(got), "correction is not finite", got=got)
    close(got, correction(df, p, q), atol=tol, what="correction")
    require(got >= -tol, "correction is negative", got=got)
    close(f(df=df, dim_x=q, dim_y=p), got, atol=tol, what="correction with X and Y swapped")
    more = f(df=df, dim_x=p + c["r"], dim_y=q)
    require(more >= got - tol, "correction decreases with dimension", got=got, more=more)
    other = f(df=df2, dim_x=p, dim_y=q)
    lo, hi = (got, other) if df <= df2 else (other, got)
    require(lo >= hi - tol - _tol(df2, p + q), "correction does not decrease with df", got=(lo, hi))
    if math.isinf(df):
        require(abs(got) <= 1e-9, "correction for infinite df is not zero", got=got)
        return None
    if df == df2:
        return None
    return "large" if p + q > 50 else "small"


@st.composite
def _quadrature_cases(draw):
    return dict(
        df=draw(st.one_of(st.integers(1, 40), gen.flt(0.7, 40.0))),
        p=draw(st.integers(1, 5)),
        q=draw(st.integers(1, 5)),
    )


@facet(
    FACETS,
    rule="every case",
    strategy=_quadrature_cases,
    quick=60,
    thorough=1000,
)
def correction_by_quadrature(c):
    """Independent of the closed form: entropies integrated numerically over the radius."""
    from bmi.samplers import SplitStudentT
    from scipy import integrate, special

    nu = c["df"]

    def entropy(k):
        log_norm = special.gammaln(0.5 * (nu + k)) - special.gammaln(0.5 * nu)
        log_norm -= 0.5 * k * math.log(nu * math.pi)
        log_area = math.log(2) + 0.5 * k * math.log(math.pi) - special.gammaln(0.5 * k)

        def integrand(u):  # r = exp(u)
            r2 = math.exp(2 * u)
            log_f = log_norm - 0.5 * (nu + k) * math.log1p(r2 / nu)
            return -log_f * math.exp(log_f + log_area + k * u)

        return integrate.quad(integrand, -25, 40 / min(nu, 1) ** 0.5 + 10, limit=800, epsabs=1e-11)[0]

    expected = entropy(c["p"]) + entropy(c["q"]) - entropy(c["p"] + c["q"])
    got = SplitStudentT.mi_correction_function(df=nu, dim_x=c["p"], dim_y=c["q"])
    close(got, expected, atol=1e-5, what="correction")
    return "heavy tails" if nu < 3 else "light tails"


@st.composite
def _bmm_cases(draw):
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]
    c = draw(gen.block_covariances(dims=dims, max_rho=0.95, max_log_cond=0.7, max_log_scale=12))
    c["df"] = draw(st.one_of(st.integers(1, 60), gen.flt(0.3, 100.0)))
    return c


@facet(
    FACETS,
    rule="at least one non-zero canonical correlation",
    strategy=_bmm_cases,
    quick=150,
    thorough=3000,
)
def mixture_component(c):
    from bmi.samplers import bmm

    s, gauss, cond = gen.build_block_covariance(c)
    mean = gen.rng_of(c, 1).normal(size=len(s))
    d = bmm.MultivariateStudentDistribution(
        dim_x=c["dx"], dim_y=c["dy"], mean=mean, dispersion=s, df=c["df"]
    )
    expected = gauss + correction(c["df"], c["dx"], c["dy"])
    close(d.analytic_mi, expected, atol=1e-5 + 1e-6 * len(s) * cond, what="analytic MI")
    return f"dims {c['dx']}+{c['dy']}" if any(abs(r) > 1e-3 for r in c["rhos"]) else None
