"""P26: rescaled, uniformised and gaussianised tasks have the promised marginals."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import tasks as bt
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential against a piecewise-linear empirical quantile "
    "map written from the documentation, applied to the base sample of the same seed; invariants "
    "(monotone, coordinate-wise, tied values stay tied)"
)
LEVEL_NOTE = (
    "14 kinds of base tasks (also after one pointwise transform), stub samplers with ties, heavy "
    "tails, constant columns and offsets; 2..400 points; 2..200 quantiles."
)

KINDS = ("bivariate", "additive", "dense", "2pair", "student_identity", "student_dense", "x", "galaxy", "concentric")


@st.composite
def _task_cases(draw):
    base = draw(bt.bases(kinds=KINDS))
    dims = bt.base_dims(base)
    pre = draw(bt.chains(dims, max_len=1, names=["half_cube", "asinh"])) if draw(st.integers(0, 3)) == 0 else []
    return dict(
        base=base,
        pre=pre,
        kind=draw(st.sampled_from(["rescale", "uniformise", "gaussianise"])),
        m=draw(st.sampled_from([None, None, 2, 7, 50, 200])),
        n=draw(st.sampled_from([2, 30, 150])),
        name=draw(st.sampled_from([None, "name"])),
        seed=draw(gen.seeds()),
    )


def apply(task, c):
    import bmi.benchmark.tasks as t

    fn = dict(rescale=t.transform_rescale, uniformise=t.transform_uniformise, gaussianise=t.transform_gaussianise)[c["kind"]]
    kw = {}
    if c["name"]:
        kw["task_name"] = c["name"]
    if c["kind"] != "rescale" and c["m"] is not None:
        kw["n_quantiles"] = c["m"]
    return fn(task, **kw)


def quantile_map(col, m, margin):
    """Empirical CDF, linearly interpolated between m equally spaced quantiles.

    Interior ties are sent to the middle of their quantiles, the least and largest value to
    0 and 1 (for the normal distribution SciKit-Learn does so with an absolute margin)."""
    m = min(m, len(col))
    ref = np.linspace(0, 1, m)
    q = np.percentile(col, 100 * ref)
    out = 0.5 * (np.interp(col, q, ref) - np.interp(-col, -q[::-1], -ref[::-1]))
    out[col <= col.min() + margin] = 0.0
    out[col >= col.max() - margin] = 1.0
    return out


def check_columns(got, base, c, what):
    from scipy.special import ndtr

    base = np.asarray(base, dtype=float)
    got = np.asarray(got, dtype=float)
    require(got.shape == base.shape, f"{what}: shape", got=got.shape, want=base.shape)
    require(np.all(np.isfinite(got)), f"{what}: not finite")
    n = len(base)
    for j in range(base.shape[1]):
        b, g = base[:, j], got[:, j]
        w = f"{what}, coordinate {j}"
        constant = np.all(b == b[0])
        order = np.argsort(b, kind="stable")
        db, dg = np.diff(b[order]), np.diff(g[order])
        require(np.all(dg >= -1e-6), f"{w}: not monotone", worst=dg.min() if n > 1 else None)
        require(np.all(np.abs(dg[db == 0]) <= 1e-9), f"{w}: tied values are separated")
        if c["kind"] == "rescale":
            if constant:
                require(np.all(np.abs(g) <= 1e-9), f"{w}: constant coordinate", got=g[0])
                continue
            mean, std = b.mean(), b.std()
            tol = 1e-9 + 1e-14 * np.max(np.abs(b)) / std
            require(abs(g.mean()) <= tol and abs(g.std() - 1) <= tol, f"{w}: mean and variance", got=(g.mean(), g.std()))
            close(g, (b - mean) / std, rtol=tol, atol=tol, what=f"{w}: affine map")
            continue
        if constant:
            continue  # no quantiles to speak of
        m = 100 if c["m"] is None else c["m"]
        want = quantile_map(b, m, 1e-7 if c["kind"] == "gaussianise" else 0.0)
        # float32 samples are interpolated in single precision
        tol = 2e-5 + 1e-6 * np.max(np.abs(b)) / max(1e-30, np.percentile(b, 75) - np.percentile(b, 25))
        u = g if c["kind"] == "uniformise" else ndtr(g)
        require(np.all(u >= 0) and np.all(u <= 1), f"{w}: outside [0, 1]", got=(u.min(), u.max()))
        # values on which the interpolation is steep are as uncertain as the data are
        slack = np.zeros(n)
        if c["single"]:
            eps = 3e-7 * np.max(np.abs(b))
            lo = np.searchsorted(np.sort(b), b - eps, side="left")
            hi = np.searchsorted(np.sort(b), b + eps, side="right")
            slack = (hi - lo) / n * (hi - lo > np.sum(b[:, None] == b[None, :], axis=1))
        # whether a value is within the margin of an end can depend on rounding
        sure = np.ones(n, dtype=bool)
        if c["kind"] == "gaussianise":
            near = 1e-6 * (1 + np.max(np.abs(b)))
            lo, hi = b.min(), b.max()
            sure = ((b == lo) | (b > lo + near)) & ((b == hi) | (b < hi - near))
        gap = np.where(sure, np.abs(u - want) - slack, -1)
        require(np.all(gap <= tol), f"{w}: quantiles", worst=np.max(gap))
        require(abs(u.min() - want.min()) <= 1e-6 and abs(u.max() - want.max()) <= 1e-6, f"{w}: range", got=(u.min(), u.max()))
        if c["kind"] == "gaussianise":
            inner = sure & (want > 1e-3) & (want < 1 - 1e-3)
            from scipy.special import ndtri

            t = (tol + slack[inner]) / 0.0033
            require(np.all(np.abs(g[inner] - ndtri(want[inner])) <= t), f"{w}: normal quantiles")
            # exact zeros and ones are moved to finite values in the far tails
            for e, sign in [(want == 0, -1), (want == 1, 1)]:
                require(np.all(sign * g[e & sure] >= 4.5), f"{w}: extremes", got=g[e & sure])


def _single(task, n, seed):
    return np.asarray(task.sample(n, seed)[0]).dtype == np.float32


@facet(
    FACETS,
    rule="every task",
    strategy=_task_cases,
    quick=30,
    thorough=1500,
    shards=4,
    examples=lambda: [
        dict(base=dict(ctor=ctor, params=p, name=None), pre=[], kind=k, m=None, n=150, name=None, seed=11)
        for ctor, p in [("dense", dict(dim_x=2, dim_y=3)), ("student_identity", dict(dim_x=1, dim_y=2, df=1))]
        for k in ["rescale", "uniformise", "gaussianise"]
    ],
)
def derived_tasks(c):
    base = bt.build_base(c["base"])
    for tr in c["pre"]:
        base = bt.apply(base, tr)
    bx, by = (np.array(a, copy=True) for a in base.sample(c["n"], c["seed"]))
    task = apply(base, c)
    x, y = task.sample(c["n"], c["seed"])
    c = dict(c, single=_single(base, c["n"], c["seed"]))
    check_columns(x, bx, c, "X")
    check_columns(y, by, c, "Y")
    x2, y2 = task.sample(c["n"], c["seed"])
    require(np.array_equal(x, x2) and np.array_equal(y, y2), "not reproducible")
    bx2, by2 = base.sample(c["n"], c["seed"])
    require(np.array_equal(bx, bx2) and np.array_equal(by, by2), "base sample was changed")
    require((task.dim_x, task.dim_y) == (base.dim_x, base.dim_y), "dimensions")
    require(float(task.mutual_information) == float(base.mutual_information), "mutual information")
    return f"{c['kind']} @ {c['base']['ctor']}"


@st.composite
def _stub_cases(draw):
    return dict(
        dx=draw(st.integers(1, 4)),
        dy=draw(st.integers(1, 4)),
        n=draw(st.sampled_from([2, 3, 10, 99, 100, 101, 400])),
        law=draw(st.sampled_from(["normal", "cauchy", "integers", "binary", "constant", "sorted"])),
        offset=draw(st.sampled_from([0.0, 5.0, -1e4])),
        log_scale=draw(st.integers(-5, 5)),
        kind=draw(st.sampled_from(["rescale", "uniformise", "gaussianise"])),
        m=draw(st.sampled_from([None, None, 2, 3, 7, 50, 200])),
        name=None,
        seed=draw(gen.seeds()),
    )


def stub(c):
    """A task whose sample is a given array."""
    from bmi.benchmark.task import Task
    from bmi.samplers import BaseSampler

    class Stub(BaseSampler):
        def sample(self, n_points, rng):
            r = np.random.default_rng([c["seed"], rng])
            out = []
            for d in (self.dim_x, self.dim_y):
                size = (n_points, d)
                a = {
                    "normal": lambda: r.normal(size=size),
                    "cauchy": lambda: np.clip(r.standard_cauchy(size=size), -1e6, 1e6),
                    "integers": lambda: r.integers(0, 6, size=size) * 1.0,
                    "binary": lambda: r.integers(0, 2, size=size) * 1.0,
                    "constant": lambda: np.hstack([np.full((n_points, 1), 3.25), r.normal(size=(n_points, d - 1))]),
                    "sorted": lambda: np.sort(r.normal(size=size), axis=0),
                }[c["law"]]()
                out.append((a + c["offset"]) * 10.0 ** c["log_scale"])
            return tuple(out)

        def mutual_information(self):
            return 0.625

    return Task(sampler=Stub(dim_x=c["dx"], dim_y=c["dy"]), task_id="stub", task_name="Stub")


@facet(FACETS, rule="not constant", strategy=_stub_cases, quick=120, thorough=8000, shards=3)
def derived_from_arrays(c):
    if c["kind"] == "gaussianise":
        c = dict(c, log_scale=max(0, c["log_scale"]))
    base = stub(c)
    bx, by = (np.array(a) for a in base.sample(c["n"], 5))
    task = apply(base, c)
    x, y = task.sample(c["n"], 5)
    c = dict(c, single=False)
    check_columns(x, bx, c, "X")
    check_columns(y, by, c, "Y")
    require(task.mutual_information == 0.625, "mutual information", got=task.mutual_information)
    # coordinates are treated separately: dropping the others changes nothing
    x2, _ = task.sample(c["n"], 5)
    require(np.array_equal(x, x2), "not reproducible")
    return None if c["law"] == "constant" and c["dx"] == c["dy"] == 1 else f"{c['kind']}, {c['law']}"
