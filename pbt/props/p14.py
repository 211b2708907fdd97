"""P14: KSG estimates equal the published first KSG formula."""

import numpy as np
from hypothesis import strategies as st
from scipy.special import digamma

from pbt import data, gen
from pbt.core import close, expect_raises, facet, require, tier

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential against a brute-force evaluation of the "
    "formula in interval arithmetic (exact on integer data); metamorphic relations; histories"
)
LEVEL_NOTE = (
    "2..600 points (1100..5000 without near ties; 40000 thorough) in 1..17 + 1..17 dimensions, units 1e-12..1e12, with ties, duplicates, clusters, constant columns and "
    "heavy tails; neighborhoods 1..n-1 in lists of up to 4; 9 pairs of metrics; chunks 1..200 and the default; both "
    "implementations."
)
METRICS = ["euclidean", "manhattan", "chebyshev"]


def distances(a, metric, single, exact):
    """Lower and upper bounds of the computed distances between the rows."""
    a = np.asarray(a, dtype=float)
    diff = a[:, None, :] - a[None, :, :]
    norms = np.sqrt((a**2).sum(1))
    scale = norms[:, None] + norms[None, :]
    eps = 2e-7 if single else 2.3e-16
    if metric == "euclidean":
        sq = (diff**2).sum(-1)
        err = 8 * (a.shape[1] + 4) * eps * scale**2
        return np.sqrt(np.maximum(0, sq - err)), np.sqrt(sq + err)
    d = np.abs(diff).sum(-1) if metric == "manhattan" else np.abs(diff).max(-1)
    err = 8 * (a.shape[1] + 4) * eps * scale
    if exact and np.all(a == np.round(a)) and np.abs(a).max(initial=0) < 2**20:
        err = 0 * scale
    return np.maximum(0, d - err), d + err


def reference(x, y, ks, mx, my, single=False, exact=True):
    """{k: (lowest, highest)} value of the formula which rounding can produce."""
    n = len(x)
    xl, xh = distances(x, mx, single, exact)
    yl, yh = distances(y, my, single, exact)
    zl, zh = np.sort(np.maximum(xl, yl), axis=1), np.sort(np.maximum(xh, yh), axis=1)
    out = {}
    for k in ks:
        # position 0 is the point itself
        kl, kh = zl[:, k][:, None], zh[:, k][:, None]
        lo = hi = 0.0
        for dl, dh in ((xl, xh), (yl, yh)):
            most = np.maximum((dl < kh).sum(1) - 1, 0)
            least = np.maximum((dh < kl).sum(1) - 1, 0)
            lo = lo + digamma(most + 1)
            hi = hi + digamma(least + 1)
        c = digamma(k) + digamma(n)
        out[k] = (max(0.0, c - np.mean(lo)), max(0.0, c - np.mean(hi)))
    return out


@st.composite
def _cases(draw, **kw):
    d = draw(data.datasets(**kw))
    ks = draw(st.lists(st.integers(1, d["n"] - 1), min_size=1, max_size=4))
    return dict(
        data=d,
        ks=ks,
        mx=draw(st.sampled_from(METRICS)),
        my=draw(st.sampled_from([None] + METRICS)),
        standardize=draw(st.booleans()),
        chunk=draw(st.sampled_from([1, 2, 3, 7, 10, 64, 200, None])),
    )


def estimators(c, only=None):
    from bmi.estimators import KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow

    kw = dict(neighborhoods=c["ks"], standardize=c["standardize"], metric_x=c["mx"], metric_y=c["my"])
    fast = KSGEnsembleFirstEstimator(**kw, **({} if c["chunk"] is None else dict(chunk_size=c["chunk"])))
    if only == "fast":
        return [("fast", fast)]
    return [("fast", fast), ("slow", KSGEnsembleFirstEstimatorSlow(**kw))]


@facet(
    FACETS,
    rule="the formula is determined up to rounding (no near ties)",
    strategy=lambda: _cases(
        sizes=(2, 3, 5, 8, 13, 21, 40, 40, 150, 600), more_dims=(6, 9, 12, 17), units=(0, 0, 0, -13, 13)
    ),
    quick=110,
    thorough=12000,
    shards=6,
)
def equals_the_formula(c):
    x, y = data.make(c["data"])
    xs, ys = (data.standardised(x), data.standardised(y)) if c["standardize"] else (x, y)
    my = c["my"] or c["mx"]
    want = reference(
        xs,
        ys,
        set(c["ks"]),
        c["mx"],
        my,
        single=c["data"]["dtype"] == "float32",
        exact=not c["standardize"],
    )
    width = 0.0
    for name, est in estimators(c):
        got = float(est.estimate(x, y))
        preds = est.get_predictions()
        require(set(preds) == set(c["ks"]), f"{name}: neighborhoods", got=preds)
        for k, (lo, hi) in want.items():
            require(
                lo - 1e-9 <= preds[k] <= hi + 1e-9, f"{name}: k={k}", got=float(preds[k]), want=(lo, hi)
            )
            width = max(width, hi - lo)
        means = [np.mean(list(preds.values())), np.mean([preds[k] for k in c["ks"]])]
        require(min(abs(got - m) for m in means) < 1e-9, f"{name}: estimate", got=got, want=means)
        require(np.isfinite(got), f"{name}: estimate is not finite", got=got)
    return f"{c['data']['style_x']}/{c['data']['style_y']}" if width < 1e-9 else None


def large_reference(x, y, ks, mx, my, block=500):
    """The formula, for a block of points at a time."""
    from scipy.spatial.distance import cdist

    names = dict(euclidean="euclidean", manhattan="cityblock", chebyshev="chebyshev")
    total = {k: 0.0 for k in ks}
    for i in range(0, len(x), block):
        dx, dy = cdist(x[i : i + block], x, names[mx]), cdist(y[i : i + block], y, names[my])
        dz = np.maximum(dx, dy)
        for k in total:
            d = np.partition(dz, k, axis=1)[:, k][:, None]
            nx, ny = np.maximum((dx < d).sum(1) - 1, 0), np.maximum((dy < d).sum(1) - 1, 0)
            total[k] += float(np.sum(digamma(nx + 1) + digamma(ny + 1)))
    return {k: max(0.0, digamma(k) + digamma(len(x)) - total[k] / len(x)) for k in ks}


@st.composite
def _large(draw, sizes=(1100, 1700, 2600, 5000)):
    c = draw(
        _cases(
            sizes=sizes,
            styles=("normal", "correlated", "clusters", "heavy"),
            dtypes=("float64",),
            units=(0, 0, -13),
        )
    )
    c["data"].update(log_scale=0, shift=0)
    c["ks"] = [1 + k % (c["data"]["n"] - 1) if i else 1 + k % 30 for i, k in enumerate(c["ks"])]
    c["chunk"] = draw(st.sampled_from([None, 64, 256, 999, 1000, 4096, 10**6]))
    c["jobs"] = draw(st.sampled_from([1, 1, 1, 2]))
    return c


@facet(
    FACETS,
    rule="positive estimate",
    strategy=_large,
    examples=lambda: [
        dict(
            data=dict(dx=1, dy=2, n=n, style_x="correlated", style_y="correlated", dtype="float64", log_scale=0, shift=0, seed=n),
            ks=ks, mx=m, my=None, standardize=s, chunk=chunk, jobs=1,
        )
        for n, ks, m, s, chunk in [
            (5000, [3, 4999], "chebyshev", True, None),
            (2049, [5, 10], "euclidean", False, 2048),
        ]
        + ([(40_000, [4], "manhattan", False, 500)] if tier() == "thorough" else [])
    ],
    quick=9,
    thorough=400,
    shards=3,
    spread=True,
)
def large_data(c):
    """Thousands of points, neighborhoods and chunks."""
    from bmi.estimators import KSGEnsembleFirstEstimator, KSGEnsembleFirstEstimatorSlow

    x, y = data.make(c["data"])
    xs, ys = (data.standardised(x), data.standardised(y)) if c["standardize"] else (x, y)
    want = large_reference(xs, ys, set(c["ks"]), c["mx"], c["my"] or c["mx"])
    kw = dict(neighborhoods=c["ks"], standardize=c["standardize"], metric_x=c["mx"], metric_y=c["my"])
    chunk = {} if c["chunk"] is None else dict(chunk_size=c["chunk"])
    ests = [("fast", KSGEnsembleFirstEstimator(**kw, **chunk, n_jobs=c["jobs"]))]
    if c["data"]["n"] <= 1700:
        ests.append(("slow", KSGEnsembleFirstEstimatorSlow(**kw)))
    for name, est in ests:
        est.fit(x, y)
        got = est.get_predictions()
        require(set(got) == set(want), f"{name}: neighborhoods")
        for k in want:
            # a few near ties may be decided by rounding
            close(got[k], want[k], atol=2e-4, rtol=1e-6, what=f"{name}: k={k}")
    return f"{c['data']['n']} points" if max(want.values()) > 0 else None


@st.composite
def _integers(draw):
    c = draw(_cases(dtypes=("float64",), styles=("lattice", "binary", "normal")))
    c["data"].update(log_scale=0, shift=0)
    c["mx"] = draw(st.sampled_from(METRICS[1:]))
    c["my"] = draw(st.sampled_from(METRICS[1:]))
    c["standardize"] = False
    c["spread"] = draw(st.sampled_from([1, 2, 5]))
    return c


@facet(
    FACETS,
    rule="ties among the distances",
    strategy=_integers,
    quick=100,
    thorough=12000,
    shards=3,
)
def exact_on_integers(c):
    """Ties and duplicates, with nothing left to rounding."""
    x, y = data.make(c["data"])
    x, y = np.round(x * c["spread"]), np.round(y * c["spread"])
    want = reference(x, y, set(c["ks"]), c["mx"], c["my"])
    for name, est in estimators(c):
        est.fit(x, y)
        for k, v in est.get_predictions().items():
            require(want[k][0] == want[k][1], "harness: the interval is not a point")
            close(v, want[k][0], rtol=1e-9, atol=1e-9, what=f"{name}: k={k}")
    z, _ = distances(np.hstack([x, y]), "chebyshev", False, True)
    return "duplicates" if (np.sort(z, axis=1)[:, 1] == 0).any() else "ties"


@st.composite
def _relations(draw):
    c = draw(
        _cases(sizes=(6, 13, 30, 60, 120), styles=("normal", "correlated", "clusters", "heavy"), dtypes=("float64",))
    )
    c["data"].update(log_scale=0, shift=0)
    c["ks"] = [min(k, 25) for k in c["ks"]]
    c["relation"] = draw(
        st.sampled_from(["permute", "swap", "chunk", "jobs", "affine", "slow", "coordinates", "reflect"])
    )
    c["other_chunk"] = draw(st.sampled_from([1, 2, 4, 9, 33, 500]))
    return c


@facet(
    FACETS,
    rule="positive estimate",
    strategy=_relations,
    quick=70,
    thorough=8000,
    shards=3,
)
def metamorphic_relations(c):
    from bmi.estimators import KSGEnsembleFirstEstimator

    x, y = data.make(c["data"])
    rng = gen.rng_of(c["data"], 9)
    rel = c["relation"]
    base = estimators(c, "fast")[0][1]
    base.fit(x, y)
    want = base.get_predictions()
    kw = dict(c)
    x2, y2 = x, y
    jobs = {}
    if rel == "permute":
        p = rng.permutation(len(x))
        x2, y2 = x[p], y[p]
    elif rel == "swap":
        x2, y2 = y, x
        kw.update(mx=c["my"] or c["mx"], my=c["mx"])
    elif rel == "chunk":
        kw.update(chunk=c["other_chunk"])
    elif rel == "jobs":
        jobs = dict(n_jobs=2)
    elif rel == "affine":
        kw["standardize"] = True
        base = estimators(kw, "fast")[0][1]
        base.fit(x, y)
        want = base.get_predictions()
        x2 = x * rng.uniform(0.1, 20, size=x.shape[1]) + rng.normal(size=x.shape[1])
        y2 = y * rng.uniform(0.1, 20, size=y.shape[1]) + rng.normal(size=y.shape[1])
    elif rel == "coordinates":
        x2, y2 = x[:, rng.permutation(x.shape[1])], y[:, rng.permutation(y.shape[1])]
    elif rel == "reflect":
        x2, y2 = -x, y * rng.choice([-1.0, 1.0], size=y.shape[1])
    if rel == "slow":
        other = estimators(kw)[1][1]
    else:
        other = KSGEnsembleFirstEstimator(
            neighborhoods=kw["ks"],
            standardize=kw["standardize"],
            metric_x=kw["mx"],
            metric_y=kw["my"],
            **({} if kw["chunk"] is None else dict(chunk_size=kw["chunk"])),
            **jobs,
        )
    other.fit(x2, y2)
    got = other.get_predictions()
    require(set(got) == set(want), "neighborhoods")
    # Rounding may swap near ties: one count changes a digamma by at most 1 in n points
    for k in want:
        close(got[k], want[k], atol=1e-9, rtol=1e-9, what=f"{rel}: k={k}")
    return rel if max(want.values()) > 0 else None


@st.composite
def _histories(draw):
    sets = [
        draw(data.datasets(sizes=(3, 6, 14), max_dim=2, styles=("normal", "lattice"), dtypes=("float64",)))
        for _ in range(2)
    ]
    op = st.sampled_from(["fit0", "fit1", "estimate0", "estimate1", "predict", "meddle", "too_few"])
    return dict(
        sets=sets,
        ks=draw(st.lists(st.integers(1, 2), min_size=1, max_size=2)),
        ops=draw(st.lists(op, min_size=1, max_size=7)),
        slow=draw(st.booleans()),
    )


@facet(
    FACETS, rule="a refit or a failed fit", strategy=_histories, quick=120, thorough=6000, shards=2
)
def histories(c):
    from bmi.estimators.base import EstimatorNotFittedException

    sets = [data.make(d) for d in c["sets"]]
    conf = dict(ks=c["ks"], mx="chebyshev", my=None, standardize=False, chunk=3)
    want = [reference(x, y, set(c["ks"]), "chebyshev", "chebyshev") for x, y in sets]
    est = estimators(conf)[1 if c["slow"] else 0][1]
    current = None
    for op in c["ops"]:
        if op == "predict":
            if current is None:
                expect_raises(EstimatorNotFittedException, est.get_predictions, "predictions of an unfitted estimator")
        elif op == "too_few":
            x, y = sets[0]
            m = max(c["ks"])
            expect_raises(ValueError, lambda: est.fit(x[:m], y[:m]), f"{m} points for k={m}")
        elif op == "meddle":
            if current is not None:
                est.get_predictions().clear()
        else:
            i = int(op[-1])
            if op.startswith("fit"):
                est.fit(*sets[i])
            else:
                est.estimate(*sets[i])
            current = i
        if current is not None:
            got = est.get_predictions()
            require(set(got) == set(c["ks"]), "predictions", got=got, op=op)
            for k, (lo, hi) in want[current].items():
                require(lo - 1e-9 <= got[k] <= hi + 1e-9, f"prediction after {op}", got=got, want=(lo, hi))
    return "refit" if len({o for o in c["ops"] if o[-1] in "01"}) > 1 else ("failed fit" if "too_few" in c["ops"] else None)
