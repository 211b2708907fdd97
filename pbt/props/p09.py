"""P09: Monte Carlo ground truth of mixture models is consistent."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, zoo
from pbt.core import close, expect_raises, facet, require
from pbt.props.p02 import correction

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated distributions, keys, sizes and call histories; "
    "the estimate is recomputed from the profile, and compared with the analytic value"
)
LEVEL_NOTE = (
    "Distributions as in P08, sizes 1..4000, histories of up to 5 calls on a sampler; agreement "
    "with analytic values at 6.5 standard errors."
)


@st.composite
def _dist_cases(draw):
    # (heavy tails and sinh together overflow single precision)
    heavy = draw(st.booleans())
    return dict(
        dist=draw(
            zoo.bmm_dists(dims=[(1, 1), (2, 1), (2, 2)], transforms=not heavy, students=heavy)
        ),
        n=draw(st.sampled_from([1, 2, 16, 200, 1001, 2600, 5003])),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="at least two points",
    strategy=_dist_cases,
    quick=13,
    thorough=800,
    shards=3,
)
def estimate_of_the_profile(c):
    import jax

    from bmi.samplers import bmm

    d = zoo.build_dist(c["dist"])
    key = jax.random.PRNGKey(c["seed"])
    n = c["n"]
    profile = np.asarray(bmm.pmi_profile(key=key, dist=d, n=n))
    require(profile.shape == (n,), "shape of the profile", got=profile.shape)
    require(np.isfinite(profile).all(), "profile is not finite", got=profile)
    mi, se = bmm.monte_carlo_mi_estimate(key=key, dist=d, n=n)
    scale = max(1.0, float(np.max(np.abs(profile))))
    close(mi, profile.astype(float).mean(), atol=2e-5 * scale, what="estimate")
    low = profile.astype(float).std() / np.sqrt(n)
    high = low * np.sqrt(n / (n - 1)) if n > 1 else low
    tol = 1e-4 * scale
    require(low - tol <= float(se) <= high + tol, "standard error", got=float(se), want=(low, high))
    # The profile consists of values of the PMI at points of a sample
    x, y = d.sample(n_points=n, key=key)
    values = np.sort(np.asarray(d.pmi(x, y), dtype=float))
    require(np.shape(x) == (n, d.dim_x) and np.shape(y) == (n, d.dim_y), "shape of the sample")
    close(np.sort(profile.astype(float)), values, atol=1e-4 * scale, what="sorted profile")
    other, _ = bmm.monte_carlo_mi_estimate(key=jax.random.PRNGKey(c["seed"] + 1), dist=d, n=n)
    if n >= 16 and low > 1e-4:
        require(float(other) != float(mi), "estimate does not depend on the key", got=float(mi))
    return f"n={n}" if n > 1 else None


@st.composite
def _history_cases(draw):
    op = st.one_of(
        st.just(["mi"]),
        st.tuples(st.just("sample"), st.sampled_from([1, 5]), st.integers(0, 5)).map(list),
        st.tuples(st.just("other"), st.integers(0, 5)).map(list),
    )
    return dict(
        dist=draw(zoo.bmm_dists(dims=[(1, 1), (2, 1)])),
        mi=draw(st.sampled_from([None, None, None, 0.0, 0.75, 2])),
        mc_seed=draw(st.none() | gen.seeds()),
        mc_kind=draw(st.sampled_from(["int", "int64", "key"])),
        n=draw(st.sampled_from([3, 64, 100])),
        ops=draw(st.lists(op, min_size=0, max_size=5)),
        seed=0,
    )


def _key(seed, kind):
    import jax

    return {"int": int, "int64": np.int64, "key": jax.random.PRNGKey}[kind](seed)


@facet(
    FACETS,
    rule="the estimate is not provided",
    strategy=_history_cases,
    quick=18,
    thorough=800,
    shards=3,
)
def sampler_reports_one_estimate(c):
    import jax

    from bmi.samplers import bmm

    d = zoo.build_dist(c["dist"])
    kwargs = dict(mi_estimate_sample=c["n"])
    if c["mc_seed"] is not None:
        kwargs["mi_estimate_seed"] = _key(c["mc_seed"], c["mc_kind"])
    if c["mi"] is not None:
        kwargs["mi"] = c["mi"]
        want = float(c["mi"])
    else:
        key = jax.random.PRNGKey(c["mc_seed"] or 0)
        want = max(0.0, float(bmm.monte_carlo_mi_estimate(key=key, dist=d, n=c["n"])[0]))
    s = bmm.BMMSampler(d, **kwargs)
    require((s.dim_x, s.dim_y) == (d.dim_x, d.dim_y), "dimensions", got=(s.dim_x, s.dim_y))
    values = []
    for op in c["ops"] + [["mi"], ["mi"]]:
        if op[0] == "mi":
            values.append(float(s.mutual_information()))
        elif op[0] == "sample":
            x, y = s.sample(op[1], op[2])
            rx, ry = d.sample(n_points=op[1], key=jax.random.PRNGKey(op[2]))
            require(np.array_equal(np.asarray(x), np.asarray(rx)), "sample differs from the distribution")
            require(np.array_equal(np.asarray(y), np.asarray(ry)), "sample differs from the distribution")
        else:
            other = bmm.BMMSampler(d, mi_estimate_seed=op[1] + 1000, mi_estimate_sample=3)
            other.mutual_information()
    require(len(set(values)) == 1, "MI changes between calls", got=values)
    close(values[0], want, atol=1e-6, rtol=1e-5, what="reported MI")
    return f"n={c['n']}, seed as {c['mc_kind']}" if c["mi"] is None else None


@st.composite
def _analytic_cases(draw):
    kind = draw(st.sampled_from(["bmm_normal", "bmm_student", "bmm_normal", "product"]))
    if kind == "product":
        c = dict(kind="product", of=draw(zoo.gaussian_like("bmm_normal")))
    else:
        c = draw(zoo.gaussian_like(kind, max_rho=0.97))
    if draw(st.booleans()):
        names = ["none", "shift", "scale"] + (["sinh"] if kind != "bmm_student" else [])
        c = dict(kind="transform", of=c, fx=draw(st.sampled_from(names)), fy=draw(st.sampled_from(names)))
    return dict(dist=c, seed=draw(gen.seeds()))


@facet(
    FACETS,
    rule="positive mutual information",
    strategy=_analytic_cases,
    quick=13,
    thorough=600,
    shards=2,
)
def agrees_with_the_analytic_value(c):
    import jax

    from bmi.samplers import bmm

    d = zoo.build_dist(c["dist"])
    base = c["dist"]["of"] if c["dist"]["kind"] == "transform" else c["dist"]
    if base["kind"] == "product":
        want = 0.0
    else:
        want = -0.5 * float(np.sum(np.log1p(-np.square(base["cov"]["rhos"])))) if base["cov"]["rhos"] else 0.0
        want += correction(base.get("df", np.inf), base["cov"]["dx"], base["cov"]["dy"])
    close(d.analytic_mi, want, atol=1e-3, what="analytic MI")
    n = 4000
    mi, se = bmm.monte_carlo_mi_estimate(key=jax.random.PRNGKey(c["seed"]), dist=d, n=n)
    gap = abs(float(mi) - want)
    require(gap <= 6.5 * float(se) + 2e-3, "estimate differs from the analytic MI", mi=mi, want=want, se=se)
    return base["kind"] if want > 1e-3 else None


@st.composite
def _profile_cases(draw):
    c = draw(zoo.gaussian_like("bmm_normal", dims=zoo.DIMS + [(4, 4), (5, 2), (2, 6)], max_rho=0.97))
    names = ["none", "none", "shift", "scale"]
    return dict(
        dist=dict(kind="transform", of=c, fx=draw(st.sampled_from(names)), fy=draw(st.sampled_from(names))),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="some canonical correlation above 0.05",
    strategy=_profile_cases,
    quick=20,
    thorough=1500,
    shards=2,
)
def normal_profiles(c):
    """I + sum_i rho_i / 2 (chi2_1 - chi2_1'): only the canonical correlations matter."""
    import jax
    from scipy import stats

    from bmi.samplers import bmm

    rhos = np.abs(np.asarray(c["dist"]["of"]["cov"]["rhos"], dtype=float))
    if not len(rhos) or max(rhos) < 0.05:
        return None
    n = 20000
    d = zoo.build_dist(c["dist"])
    profile = np.asarray(bmm.pmi_profile(key=jax.random.PRNGKey(c["seed"]), dist=d, n=n), dtype=float)
    mi, var = -0.5 * float(np.sum(np.log1p(-(rhos**2)))), float(np.sum(rhos**2))
    require(abs(profile.mean() - mi) <= 6.5 * np.sqrt(var / n) + 1e-3, "mean", got=profile.mean(), want=mi)
    # Fourth central moment: sum_i 6 rho_i^4 + 3 (sum_i rho_i^2)^2
    m4 = 6 * float(np.sum(rhos**4)) + 3 * var**2
    se = np.sqrt((m4 - var**2) / n)
    require(abs(profile.var() - var) <= 8 * se + 2e-3 * var + 1e-4, "variance", got=profile.var(), want=var)
    z = gen.rng_of(c, 3).normal(size=(2, 5 * n, len(rhos))) ** 2
    reference = mi + 0.5 * (z[0] - z[1]) @ rhos
    gap = stats.ks_2samp(profile, reference).statistic
    require(gap * np.sqrt(n * 5 / 6) < 3.9, "law of the profile", got=gap)
    return f"{len(rhos)} correlations"


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(dict(n=st.integers(-3, 3))),
    quick=10,
    thorough=30,
)
def sizes_are_validated(c):
    import jax

    from bmi.samplers import bmm

    d = bmm.MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=np.eye(2))
    n = c["n"]
    if n < 1:
        expect_raises(ValueError, lambda: bmm.BMMSampler(d, mi_estimate_sample=n), "sample size")
        expect_raises(ValueError, lambda: d.sample(n_points=n, key=jax.random.PRNGKey(0)), "n_points")
        return "rejected"
    bmm.BMMSampler(d, mi_estimate_sample=n).mutual_information()
    return "accepted"


@st.composite
def _strong(draw):
    return dict(
        pairs=draw(st.integers(1, 12)),
        extra=draw(st.integers(0, 2)),
        rho=draw(st.one_of(gen.flt(0.9, 0.999), st.just(0.999))),
        sign=draw(st.sampled_from([1, -1])),
        sampler=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="more than 10 nats",
    strategy=_strong,
    examples=lambda: [dict(pairs=12, extra=0, rho=0.999, sign=1, sampler=s, seed=4) for s in (False, True)],
    quick=6,
    thorough=400,
    shards=2,
)
def strong_dependence(c):
    """Tens of nats: several pairs of strongly correlated coordinates."""
    import jax

    from bmi.samplers import bmm

    k, rho = c["pairs"], float(np.float32(c["rho"])) * c["sign"]
    dx, dy, n = k, k + c["extra"], 4000
    cov = np.eye(dx + dy)
    for i in range(k):
        cov[i, dx + i] = cov[dx + i, i] = rho
    d = bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=cov)
    want = -0.5 * k * np.log1p(-(rho**2))
    close(d.analytic_mi, want, rtol=1e-3, atol=1e-3, what="analytic MI")
    tol = 6.5 * abs(rho) * np.sqrt(k / n) + 1e-3 * want + 2e-3
    if c["sampler"]:
        mi = float(bmm.BMMSampler(d, mi_estimate_seed=c["seed"], mi_estimate_sample=n).mutual_information())
    else:
        mi, se = bmm.monte_carlo_mi_estimate(key=jax.random.PRNGKey(c["seed"]), dist=d, n=n)
        close(se, abs(rho) * np.sqrt(k / n), rtol=0.2, what="standard error")
    require(abs(float(mi) - want) <= tol, "estimate differs from the analytic MI", mi=mi, want=want)
    return f"{int(want // 10) * 10} nats or more" if want > 10 else None


SIZES = [32768, 50000, 65536, 65537, 99999, 100000, 131072, 200000, 262144, 300001, 500000]


@st.composite
def _large(draw):
    return dict(
        n=draw(st.sampled_from(SIZES)),
        rho=draw(gen.flt(0.2, 0.95)),
        shape=draw(st.sampled_from([[1, 1], [2, 1], [3, 3]])),
        mixture=draw(st.booleans()),
        sampler=draw(st.sampled_from([True, True, False])),
        seed=draw(gen.seeds()),
    )


def _large_examples():
    sizes = [131072, 250000, 400001, 1000000]
    return [dict(n=n, rho=0.8, shape=[1, 1], mixture=False, sampler=True, seed=i) for i, n in enumerate(sizes)]


@facet(FACETS, rule="every case", strategy=_large, examples=_large_examples, quick=4, thorough=150, shards=4, spread=True)
def large_profiles(c):
    """All points of a large profile are points of their own."""
    import jax

    from bmi.samplers import bmm

    n, rho, (dx, dy) = c["n"], c["rho"], c["shape"]
    cov = np.eye(dx + dy)
    cov[0, dx] = cov[dx, 0] = rho
    d = bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=cov)
    if c["mixture"]:  # of equal components
        d = bmm.mixture(proportions=np.array([0.3, 0.7]), components=[d, d])
    mi, sd = -0.5 * np.log1p(-(rho**2)), rho
    key = jax.random.PRNGKey(c["seed"])
    profile = np.asarray(bmm.pmi_profile(key=key, dist=d, n=n), dtype=float)
    require(profile.shape == (n,), "shape of the profile", got=profile.shape)
    require(np.isfinite(profile).all(), "profile is not finite")
    require(abs(profile.mean() - mi) <= 6.5 * sd / np.sqrt(n) + 1e-4, "mean", got=profile.mean(), want=mi)
    kurtosis = 9.0  # at most, for the law of rho / 2 (chi2 - chi2')
    var = profile.var()
    require(abs(var / sd**2 - 1) <= 8 * np.sqrt(kurtosis / n) + 2e-3, "variance", got=var, want=sd**2)
    # single precision numbers near mi coincide now and then, but not often
    counts = np.unique(profile, return_counts=True)[1]
    require(np.mean(counts == 1) > 0.5 or len(counts) > 0.75 * n, "entries are repeated", distinct=len(counts), of=n)
    require(len(counts) > 0.6 * n, "entries are repeated", distinct=len(counts), of=n)
    z = (profile - profile.mean()) / profile.std()
    for lag in {1, 2, n // 2, *(s for s in (1000, 1024, 10000, 16384, 32768, 50000, 65536, 100000) if s < n)}:
        m = n - lag
        r = float(np.mean(z[:-lag] * z[lag:]))
        if m >= 1000:
            require(abs(r) < 6.5 / np.sqrt(m), f"entries {lag} apart are correlated", got=r, n=n)
    estimate, se = bmm.monte_carlo_mi_estimate(key=key, dist=d, n=n)
    require(abs(float(estimate) - mi) <= 6.5 * sd / np.sqrt(n) + 1e-4, "estimate", got=float(estimate), want=mi)
    require(abs(float(se) / (sd / np.sqrt(n)) - 1) < 4 * np.sqrt(kurtosis / n) + 2e-3, "standard error", got=float(se))
    if c["sampler"]:
        s = bmm.BMMSampler(d, mi_estimate_sample=n, mi_estimate_seed=c["seed"])
        got = float(s.mutual_information())
        close(got, max(0.0, float(estimate)), rtol=1e-6, atol=1e-6, what="mutual information of the sampler")
    return f"n={n}"
