"""P27: Gaussian-mixture estimator: posterior draws become the right distributions."""

import contextlib
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated mixture parameters against double-precision "
    "mixture densities; traces of the probabilistic programme; the estimator driven with a scripted "
    "sampler in place of MCMC; seeded runs with the real sampler"
)
LEVEL_NOTE = (
    "1..5 components, up to 3+3 dimensions; scripted posteriors of 1..8 draws with known, well "
    "separated mutual informations; the real sampler on a few small data sets."
)
ASSUMPTIONS = [
    "NumPyro's sampler is trusted to sample from the model which it is given; with the scripted "
    "sampler the model is checked by tracing it.",
]


# --- parameters of mixtures ---------------------------------------------------------------


def mixture_parameters(rng, k, d, spread=2.0):
    means = rng.normal(size=(k, d)) * spread
    covs = np.zeros((k, d, d))
    for i in range(k):
        q = gen.orthogonal(rng, d)
        covs[i] = q @ np.diag(rng.uniform(0.3, 2.0, size=d)) @ q.T
        covs[i] = 0.5 * (covs[i] + covs[i].T)
    pi = rng.uniform(0.2, 1.0, size=k)
    return means, covs, pi / pi.sum()


def log_mixture(points, means, covs, pi):
    """Log-density of a Gaussian mixture in double precision."""
    points = np.asarray(points, dtype=float)
    out = []
    for m, s, p in zip(np.asarray(means, float), np.asarray(covs, float), np.asarray(pi, float)):
        diff = points - m
        chol = np.linalg.cholesky(s)
        z = np.linalg.solve(chol, diff.T)
        out.append(
            np.log(p) - 0.5 * np.sum(z**2, axis=0) - np.log(np.diag(chol)).sum() - 0.5 * len(m) * np.log(2 * np.pi)
        )
    out = np.array(out)
    top = out.max(axis=0)
    return top + np.log(np.exp(out - top).sum(axis=0))


def check_distribution(dist, means, covs, pi, dx, dy, rng, points=None):
    require((dist.dim_x, dist.dim_y) == (dx, dy), "dimensions", got=(dist.dim_x, dist.dim_y))
    if points is None:
        which = rng.integers(0, len(pi), size=12)
        points = means[which] + rng.normal(size=(12, dx + dy)) * 1.5
    points = np.asarray(points, dtype=np.float32)
    x, y = points[:, :dx], points[:, dx:]
    lx = log_mixture(x, means[:, :dx], covs[:, :dx, :dx], pi)
    ly = log_mixture(y, means[:, dx:], covs[:, dx:, dx:], pi)
    lxy = log_mixture(points, means, covs, pi)
    tol = dict(rtol=2e-4, atol=2e-3)
    close(np.asarray(dist.dist_joint.log_prob(points)), lxy, what="joint log-density", **tol)
    close(np.asarray(dist.dist_x.log_prob(x)), lx, what="log-density of X", **tol)
    close(np.asarray(dist.dist_y.log_prob(y)), ly, what="log-density of Y", **tol)
    scale = np.max(np.abs(lx) + np.abs(ly) + np.abs(lxy))
    close(np.asarray(dist.pmi(x, y)), lxy - lx - ly, rtol=0, atol=5e-3 + 2e-5 * scale, what="pointwise MI")


SHAPES = [(1, 1, 1), (2, 1, 1), (3, 2, 1), (2, 1, 3), (5, 1, 2), (3, 3, 3)]


@st.composite
def _draws(draw):
    k, dx, dy = draw(st.sampled_from(SHAPES))
    return dict(
        k=k, dx=dx, dy=dy, spread=draw(st.sampled_from([0.5, 2.0, 6.0])), jax=draw(st.booleans()), seed=draw(gen.seeds()),
        rare=draw(st.sampled_from([0, 0, 3, 6, 12, 25])),
        bad=draw(st.sampled_from([None] * 6 + ["means", "covs", "pi", "dims", "transposed"])),
    )  # fmt: skip


@facet(FACETS, rule="several components or a bad shape", strategy=_draws, quick=14, thorough=1500, shards=2, spread=True)
def draws_to_distributions(c):
    import jax.numpy as jnp
    from bmi.estimators.external.gmm import sample_into_bmm_distribution

    rng = gen.rng_of(c)
    k, dx, dy = c["k"], c["dx"], c["dy"]
    means, covs, pi = mixture_parameters(rng, k, dx + dy, c["spread"])
    if c.get("rare") and k > 1:  # as drawn from a sparse prior: some components are (nearly) empty
        pi[rng.integers(1, k) :] *= 10.0 ** -c["rare"]
        pi /= pi.sum()
        means[-1] += 20.0
    wrap = jnp.asarray if c["jax"] else (lambda a: a.astype(np.float32))
    args = dict(means=wrap(means), covariances=wrap(covs), proportions=wrap(pi), dim_x=dx, dim_y=dy)
    bad = c["bad"]
    if bad == "transposed" and k == dx + dy:
        bad = "pi"
    if bad:
        if bad == "means":
            args["means"] = args["means"][:, :-1]
        elif bad == "covs":
            args["covariances"] = args["covariances"][:, :-1, :]
        elif bad == "pi":
            args["proportions"] = jnp.concatenate([args["proportions"], args["proportions"]])
        elif bad == "dims":
            args["dim_y"] = dy + 1
        else:
            args["means"] = args["means"].T
        expect_raises(
            (AssertionError, ValueError, TypeError, IndexError), lambda: sample_into_bmm_distribution(**args), f"wrong {bad}"
        )
        return f"refused {bad}"
    dist = sample_into_bmm_distribution(**args)
    # the parameters as given (in single precision)
    m, s, p = (np.asarray(a, dtype=np.float32).astype(float) for a in (means, covs, pi))
    check_distribution(dist, m, s, p / p.sum(), dx, dy, rng)
    return f"{k} components" if k > 1 else None


# --- the probabilistic programme -------------------------------------------------------------


def trace_of(fn, args, kwargs, seed):
    import jax
    from numpyro import handlers

    return handlers.trace(handlers.seed(fn, jax.random.PRNGKey(seed))).get_trace(*args, **kwargs)


def check_programme(tr, data, k, alpha, jitter, rng):
    """Proportions have the right prior and the likelihood uses the sampled parameters."""
    d = data.shape[1]
    pi, mu, cov = (np.asarray(tr[s]["value"], dtype=float) for s in ("pi", "mu", "cov"))
    require(pi.shape == (k,) and mu.shape == (k, d) and cov.shape == (k, d, d), "shapes", got=(pi.shape, mu.shape, cov.shape))
    require(abs(pi.sum() - 1) < 1e-4 and np.all(pi >= 0), "proportions", got=pi)
    # Dirichlet(alpha, ..., alpha)
    if k > 1:
        from scipy.special import gammaln

        p = np.float32(rng.dirichlet(np.full(k, 3.0)))
        p = p / p.sum()
        want = gammaln(k * alpha) - k * gammaln(alpha) + (alpha - 1) * np.sum(np.log(p.astype(float)))
        close(float(tr["pi"]["fn"].log_prob(p)), want, rtol=1e-3, atol=2e-3, what="prior of the proportions")
    eig = np.linalg.eigvalsh(cov)
    ok = np.all(np.isfinite(cov)) and np.all(eig[:, 0] > 0)
    asym = np.max(np.abs(cov - np.transpose(cov, (0, 2, 1)))) / np.max(np.abs(cov))
    require(asym < 1e-5, "covariances are not symmetric", got=asym)
    obs = tr["obs"]
    require(obs["is_observed"], "data are not observed")
    require(np.array_equal(np.asarray(obs["value"], float), np.asarray(data, float)) or np.allclose(obs["value"], data, rtol=1e-6), "observed data")
    cond = np.max(eig[:, -1] / np.maximum(eig[:, 0], 1e-30))
    if not ok or cond > 1e4 or np.min(pi) < 1e-6:
        return False  # too ill-conditioned for a comparison in single precision
    require(np.all(np.linalg.cholesky(cov)[:, range(d), range(d)] >= jitter * 0.99), "jitter", got=cov)
    points = mu[rng.integers(0, k, size=6)] + np.sqrt(np.max(eig)) * rng.normal(size=(6, d)) * 0.7
    points = points.astype(np.float32)
    want = log_mixture(points, mu, cov, pi)
    got = np.asarray(obs["fn"].log_prob(points), dtype=float)
    far = np.abs(want) < 1e3
    close(got[far], want[far], rtol=2e-3 + 1e-6 * cond, atol=1e-2 + 1e-6 * cond, what="likelihood")
    return True


@st.composite
def _programmes(draw):
    return dict(
        k=draw(st.sampled_from([1, 2, 3, 5])),
        d=draw(st.sampled_from([2, 4])),
        alpha=draw(st.one_of(st.none(), st.sampled_from([0.01, 0.1, 1.0, 2.5]), gen.flt(0.05, 5))),
        jitter=draw(st.sampled_from([None, 1e-3, 0.1, 0.5])),
        k_default=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="well-conditioned draw of the prior", strategy=_programmes, quick=8, thorough=1500, shards=2, spread=True)
def model(c):
    from bmi.estimators.external.gmm import model as programme

    rng = gen.rng_of(c)
    data = rng.normal(size=(4, c["d"])).astype(np.float32)
    k = 10 if c["k_default"] and c["k"] == 1 else c["k"]
    kw = {} if k == 10 else dict(K=k)
    if c["alpha"] is not None:
        kw["alpha"] = c["alpha"]
    if c["jitter"] is not None:
        kw["jitter"] = c["jitter"]
    tr = trace_of(programme, (data,), kw, c["seed"])
    alpha = 1 / k if c["alpha"] is None else c["alpha"]
    ok = check_programme(tr, data, k, alpha, 1e-3 if c["jitter"] is None else c["jitter"], rng)
    return f"{k} components" if ok else None


# --- the estimator with a scripted sampler ------------------------------------------------------

SPACING = 0.5


class Script:
    """Stand-in for NUTS and MCMC, which returns prepared draws and records its use."""

    def __init__(self, make):
        self.make = make
        self.runs = []

    def nuts(self, programme, *args, **kwargs):
        return ("kernel", programme)

    def mcmc(self, sampler, **options):
        script = self

        class Run:
            def run(self, key, *args, **kwargs):
                kind, programme = sampler
                assert kind == "kernel"
                self.record = dict(programme=programme, args=args, kwargs=kwargs, key=np.asarray(key), **options)
                script.runs.append(self.record)
                self.draws = script.make(self.record)

            def get_samples(self, *args, **kwargs):
                return self.draws

        return Run()


@contextlib.contextmanager
def scripted(make):
    import numpyro.infer

    from bmi.estimators.external import gmm

    script = Script(make)
    saved = [(m, n, getattr(m, n)) for m in (gmm, numpyro.infer) for n in ("NUTS", "MCMC") if hasattr(m, n)]
    for m, n, _ in saved:
        setattr(m, n, script.nuts if n == "NUTS" else script.mcmc)
    try:
        yield script
    finally:
        for m, n, old in saved:
            setattr(m, n, old)


@st.composite
def _estimations(draw):
    n = draw(st.integers(1, 8))
    return dict(
        n_samples=n,
        thin=draw(st.one_of(st.none(), st.integers(1, n))),
        thin_call=draw(st.one_of(st.none(), st.none(), st.integers(1, n))),
        k=draw(st.sampled_from([1, 2, 3])),
        alpha=draw(st.sampled_from([None, None, 0.05, 0.3, 2.0])),
        warmup=draw(st.sampled_from([1, 7, 100])),
        mc=draw(st.sampled_from([1000, 2000])),
        standardize=draw(st.sampled_from([None, True, False])),
        dims=draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [1, 3], [4, 1], [3, 2], [2, 4]])),
        n=draw(st.sampled_from([9, 9, 9, 60, 800, 2500])),
        key=draw(st.integers(0, 2**31 - 1)),
        seed=draw(gen.seeds()),
    )


def scripted_draws(c, rng):
    """Draws j = 0, ..., n-1 of mutual information SPACING * order[j]; K equal components."""
    n, k, (dx, dy) = c["n_samples"], c["k"], c["dims"]
    order = rng.permutation(n)
    d = dx + dy
    mu, cov, pi = np.zeros((n, k, d)), np.zeros((n, k, d, d)), np.zeros((n, k))
    for j in range(n):
        rho = math.sqrt(1 - math.exp(-2 * SPACING * order[j]))
        s = np.eye(d)
        # the dependence is between the last X and the first Y coordinate
        s[dx - 1, dx] = s[dx, dx - 1] = rho
        scales = rng.uniform(0.5, 2.0, size=d)
        cov[j] = s * np.outer(scales, scales)
        mu[j] = rng.normal(size=d)
        pi[j] = rng.dirichlet(np.full(k, 5.0))
    import jax.numpy as jnp

    draws = dict(mu=jnp.asarray(mu), cov=jnp.asarray(cov), pi=jnp.asarray(pi))
    return draws, order


@facet(FACETS, rule="at least two draws", strategy=_estimations, quick=8, thorough=800, shards=4, spread=True)
def estimator_with_scripted_sampler(c):
    import jax
    from bmi.estimators.external.gmm import GMMEstimator
    from bmi.samplers import bmm

    rng = gen.rng_of(c)
    dx, dy = c["dims"]
    x = rng.normal(size=(c["n"], dx)) * 3 + 1
    y = rng.normal(size=(c["n"], dy)) - 2
    x0, y0 = x.copy(), y.copy()
    draws, order = scripted_draws(c, rng)
    kw = dict(key=c["key"], n_components=c["k"], mcmc_num_warmup=c["warmup"], mcmc_num_samples=c["n_samples"],
              mi_estimate_num_samples=c["mc"])  # fmt: skip
    for name, arg in [("alpha", "alpha"), ("thin", "n_thinned_samples"), ("standardize", "standardize")]:
        if c[name] is not None:
            kw[arg] = c[name]
    thin = c["n_samples"] if c["thin"] is None else c["thin"]
    used = thin if c["thin_call"] is None else c["thin_call"]
    call = {} if c["thin_call"] is None else dict(n_thinned_samples=c["thin_call"])

    p = GMMEstimator(**kw).parameters()
    want = dict(
        standardize=c["standardize"] is not False, n_components=c["k"], alpha=c["alpha"], mcmc_num_warmup=c["warmup"],
        mcmc_num_samples=c["n_samples"], mi_estimate_num_samples=c["mc"], n_thinned_samples=thin,
    )  # fmt: skip
    require(p.dict() == want, "parameters", got=p.dict(), want=want)

    with scripted(lambda record: draws) as script:
        est = GMMEstimator(**kw)
        for i in (0, c["n_samples"] - 1):
            expect_raises(ValueError, lambda: est.get_bmm_distribution(i), "a distribution before the sampling")
        mis = np.asarray(est.get_posterior_mi(x, y, **call), dtype=float)
        require(len(script.runs) == 1, "number of sampler runs", got=len(script.runs))
        # the sampler was asked for the right posterior
        run = script.runs[0]
        require(run["num_samples"] == c["n_samples"], "posterior draws", got=run["num_samples"])
        require(run["num_warmup"] == c["warmup"], "warm-up draws", got=run["num_warmup"])
        data = np.hstack([x, y])
        if c["standardize"] is not False:
            data = (data - data.mean(axis=0)) / data.std(axis=0)
        tr = trace_of(run["programme"], run["args"], run["kwargs"], 3)
        close(np.asarray(tr["obs"]["value"], float), data, rtol=1e-5, atol=1e-5, what="data given to the sampler")
        alpha = 1 / c["k"] if c["alpha"] is None else c["alpha"]
        check_programme(tr, data, c["k"], alpha, 1e-3, rng)
        # posterior of mutual information
        require(mis.shape == (used,), "number of values", got=mis.shape, want=used)
        nearest = np.round(mis / SPACING).astype(int)
        # standard deviation of the pointwise MI of a bivariate normal: its correlation
        tol = 7 / math.sqrt(c["mc"])
        require(np.max(np.abs(mis - SPACING * nearest)) <= tol, "values of mutual information", got=mis)
        require(len(set(nearest)) == used and set(nearest) <= set(order), "draws are repeated", got=mis)
        # draws
        for j in {0, c["n_samples"] - 1, int(rng.integers(c["n_samples"]))}:
            dist = est.get_bmm_distribution(j)
            m, s, q = (np.asarray(draws[a][j], dtype=float) for a in ("mu", "cov", "pi"))
            if order[j] <= 4:
                check_distribution(dist, m, s, q / q.sum(), dx, dy, rng, points=m[0] + 0.8 * np.sqrt(np.diag(s[0])) * rng.normal(size=(6, dx + dy)))
            key = jax.random.PRNGKey(c["key"] ^ 1)
            direct = float(bmm.monte_carlo_mi_estimate(key=key, dist=dist, n=c["mc"])[0])
            close(float(est.get_sample_mi(j, key=key)), direct, rtol=1e-5, atol=1e-6, what="MI of a draw")
            direct = float(bmm.monte_carlo_mi_estimate(key=key, dist=dist, n=200)[0])
            close(float(est.get_sample_mi(j, mc_samples=200, key=key)), direct, rtol=1e-5, atol=1e-6, what="MI of a draw")
        # estimates of fresh estimators
        again = np.asarray(GMMEstimator(**kw).get_posterior_mi(x, y, **call), dtype=float)
        require(np.array_equal(again, mis), "not reproducible", got=again, want=mis)
        value = float(GMMEstimator(**kw).estimate(x, y, **call))
        close(value, mis.mean(), rtol=1e-5, atol=1e-6, what="estimate")
        other = np.asarray(GMMEstimator(**{**kw, "key": c["key"] + 1}).get_posterior_mi(x, y, **call), dtype=float)
        if np.max(mis) > 0.25:
            require(not np.array_equal(np.sort(other), np.sort(mis)), "does not depend on the key", got=mis)
        require(not np.array_equal(script.runs[0]["key"], script.runs[-1]["key"]), "key of the sampler")
    require(np.array_equal(x, x0) and np.array_equal(y, y0), "data were modified")
    return f"{used} of {c['n_samples']} draws" if c["n_samples"] > 1 else None


@st.composite
def _long(draw):
    return dict(
        n_samples=draw(st.sampled_from([200, 500])),
        in_call=draw(st.booleans()),
        key=draw(st.integers(0, 2**31 - 1)),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every run", strategy=_long, quick=1, thorough=40, shards=2, spread=True)
def thinned_draws_are_picked_at_random(c):
    """The first and second half of the chain have different, but within each half equal, draws."""
    import jax.numpy as jnp

    from bmi.estimators.external.gmm import GMMEstimator

    rng = gen.rng_of(c)
    n, used = c["n_samples"], 36
    cov = np.tile(np.eye(2), (n, 1, 1, 1))
    rho = math.sqrt(1 - math.exp(-2.0))
    cov[n // 2 :, 0, 0, 1] = cov[n // 2 :, 0, 1, 0] = rho
    draws = dict(mu=jnp.zeros((n, 1, 2)), cov=jnp.asarray(cov), pi=jnp.ones((n, 1)))
    x, y = rng.normal(size=(9, 1)), rng.normal(size=(9, 1))
    kw = dict(key=c["key"], n_components=1, mcmc_num_warmup=1, mcmc_num_samples=n, mi_estimate_num_samples=100)
    call = dict(n_thinned_samples=used)
    if not c["in_call"]:
        kw.update(call)
        call = {}
    with scripted(lambda record: draws):
        mis = np.asarray(GMMEstimator(**kw).get_posterior_mi(x, y, **call), dtype=float)
    require(mis.shape == (used,), "number of values", got=mis.shape)
    # the pointwise MI of independent variables vanishes, that of the others has deviation 0.93
    second = np.abs(mis) > 1e-4
    require(np.all(np.abs(mis[second] - 1) < 0.7), "values of mutual information", got=mis)
    # 2^-36 for a random choice
    require(0 < second.sum() < used, "only draws of one half of the chain are used", got=int(second.sum()), of=used)
    values = set(mis[second].tolist())
    require(
        len(values) > 0.5 * second.sum(),
        "the Monte Carlo errors of different draws are the same",
        distinct=len(values),
        of=int(second.sum()),
    )
    return f"{used} of {n}"


# --- the real sampler -------------------------------------------------------------------------


@st.composite
def _real(draw):
    return dict(
        k=draw(st.sampled_from([1, 2])),
        rho=draw(st.sampled_from([0.0, 0.6, -0.85])),
        flip=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="every run",
    strategy=_real,
    quick=2,
    thorough=60,
    spread=True,
    shards=2,
)
def estimates_of_gaussian_data(c):
    from bmi.estimators.external.gmm import GMMEstimator

    rng = gen.rng_of(c)
    n = 150
    x = rng.normal(size=(n, 1))
    y = c["rho"] * x + math.sqrt(1 - c["rho"] ** 2) * rng.normal(size=(n, 1))
    x, y = (5 * y + 2, x) if c["flip"] else (x, y)
    est = GMMEstimator(
        key=c["seed"] % 1000, n_components=c["k"], mcmc_num_warmup=120, mcmc_num_samples=60,
        mi_estimate_num_samples=400, n_thinned_samples=12,
    )  # fmt: skip
    mi = float(est.estimate(x, y))
    r = np.corrcoef(x.T, y.T)[0, 1]
    want = -0.5 * math.log(1 - r * r)
    require(-0.1 <= mi - want <= 0.4, "estimate of Gaussian data", got=mi, sample_value=want)
    draws = est._mcmc.get_samples() if getattr(est, "_mcmc", None) is not None else None
    if draws is not None:
        require(draws["pi"].shape == (60, c["k"]), "number of draws", got=draws["pi"].shape)
    for j in (0, 30, 59):
        dist = est.get_bmm_distribution(j)
        require((dist.dim_x, dist.dim_y) == (1, 1), "dimensions")
    return f"K={c['k']}, rho={c['rho']}"

