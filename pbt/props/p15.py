"""P15: the histogram estimate is the plug-in mutual information of the binned data."""

from collections import Counter
from math import gcd

import numpy as np
from hypothesis import strategies as st

from pbt import data, gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential against a dictionary-based plug-in estimate "
    "(including values exactly on the edges of the bins), bounds and metamorphic relations"
)
LEVEL_NOTE = (
    "1..5000 points (examples up to 300000), up to 3 + 3 dimensions, 1..200 bins (at most 40000 cells), ties on edges, "
    "constant columns, outliers, duplicates."
)


def bin_indices(a, bins):
    """Equal-width bins over the range of every column -> (indices, distance to an inner edge)."""
    a = np.asarray(a, dtype=float)
    lo, hi = a.min(axis=0), a.max(axis=0)
    width = np.where(hi > lo, hi - lo, 1.0)
    t = (a - lo) / width * bins
    t = np.where(hi > lo, t, 0.5)
    idx = np.clip(np.floor(t).astype(int), 0, bins - 1)
    at_end = (a == lo) | (a == hi)
    edge = np.where(at_end | (hi == lo), 1.0, np.abs(t - np.round(t)))
    return idx, float(edge.min(initial=1.0))


def plug_in(ix, iy):
    n = len(ix)
    kx = [tuple(r) for r in ix]
    ky = [tuple(r) for r in iy]
    cx, cy, cxy = Counter(kx), Counter(ky), Counter(zip(kx, ky))
    mi = sum(m / n * np.log(m * n / (cx[a] * cy[b])) for (a, b), m in cxy.items())
    return mi, min(np.log(len(cx)), np.log(len(cy)))


@st.composite
def _cases(draw, sizes=(1, 2, 3, 7, 20, 60, 200, 1500, 5000), **kw):
    d = draw(data.datasets(max_dim=3, sizes=sizes, **kw))
    cells = draw(st.sampled_from([2000, 2000, 2000, 40_000]))
    cap = max(1, min(200, int(cells ** (1 / (d["dx"] + d["dy"])))))
    bx = draw(st.integers(1, cap))
    by = draw(st.one_of(st.none(), st.integers(1, cap)))
    return dict(data=d, bx=bx, by=by, standardize=draw(st.booleans()))


def estimator(c):
    from bmi.estimators import HistogramEstimator

    return HistogramEstimator(n_bins_x=c["bx"], n_bins_y=c["by"], standardize=c["standardize"])


def check(c, x, y, exact=False):
    by = c["by"] if c["by"] is not None else c["bx"]
    xs, ys = (data.standardised(x), data.standardised(y)) if c["standardize"] else (x, y)
    ix, ex = bin_indices(xs, c["bx"])
    iy, ey = bin_indices(ys, by)
    got = float(estimator(c).estimate(x, y))
    want, bound = plug_in(ix, iy)
    require(np.isfinite(got), "estimate is not finite", got=got)
    margin = 1e-4 if np.asarray(x).dtype == np.float32 or np.asarray(y).dtype == np.float32 else 1e-8
    if not exact and min(ex, ey) < margin:
        # rounding decides on the bin
        require(-1e-9 <= got <= np.log(max(1, len(x))) + 1e-9, "bounds of the estimate", got=got)
        return None
    close(got, want, rtol=1e-9, atol=1e-9, what="estimate")
    require(-1e-9 <= got <= bound + 1e-9, "bounds of the estimate", got=got, bound=bound)
    return want


@facet(
    FACETS,
    rule="no value is within rounding of an edge and the estimate is positive",
    strategy=_cases,
    examples=lambda: [
        dict(
            data=dict(dx=dx, dy=1, n=n, style_x="correlated", style_y="correlated", dtype="float64", log_scale=0, shift=0, seed=n),
            bx=bx, by=by, standardize=True,
        )
        for n, dx, bx, by in [
            (20_000, 1, 25, 7), (30_000, 1, 200, 180), (70_000, 2, 6, 30), (100_000, 1, 300, 100), (300_000, 1, 2, 2),
        ]
    ],
    quick=200,
    thorough=15000,
    shards=4,
)
def equals_the_plug_in_estimate(c):
    x, y = data.make(c["data"])
    want = check(c, x, y)
    return f"{c['data']['style_x']}/{c['data']['style_y']}" if want and want > 1e-9 else None


@st.composite
def _edges(draw):
    c = draw(_cases(dtypes=("float64",), styles=("normal",)))
    c["standardize"] = False
    c["steps"] = draw(st.integers(1, 3))  # lattice points per bin
    c["unit"] = draw(st.sampled_from([1.0, 0.25, 8.0]))
    return c


@facet(FACETS, rule="values on inner edges", strategy=_edges, quick=200, thorough=10000, shards=2)
def values_on_the_edges(c):
    """Lattice data whose points lie exactly on the edges: an edge belongs to the upper bin,
    except for the largest value."""
    rng = gen.rng_of(c["data"])
    n = c["data"]["n"]

    def lattice(d, bins):
        m = bins * c["steps"]
        if n < 2:
            return np.zeros((n, d)), np.zeros((n, d), dtype=int)
        a = rng.integers(0, m + 1, size=(n, d))
        a[0], a[1] = 0, m
        p = rng.permuted(a, axis=0)
        return p * c["unit"], np.minimum(p // c["steps"], bins - 1)

    by = c["by"] if c["by"] is not None else c["bx"]
    # powers of two, for which the edges are computed exactly
    bx, by = 1 << (c["bx"].bit_length() - 1), 1 << (by.bit_length() - 1)
    x, ix = lattice(c["data"]["dx"], bx)
    y, iy = lattice(c["data"]["dy"], by)
    got = float(estimator(dict(c, bx=bx, by=by)).estimate(x, y))
    want, _ = plug_in(ix, iy)
    close(got, want, rtol=1e-9, atol=1e-9, what="estimate for values on edges")
    return f"{bx}x{by}" if n > 2 and max(bx, by) > 1 else None


@st.composite
def _lattices(draw):
    c = draw(_cases(dtypes=("float64", "float32"), styles=("normal",)))
    c["m"] = draw(st.sampled_from([2, 3, 5, 7, 11, 13]))
    return c


@facet(FACETS, rule="positive estimate", strategy=_lattices, quick=150, thorough=8000, shards=2)
def discrete_data(c):
    """Ties away from the edges, also after standardisation."""
    rng = gen.rng_of(c["data"])
    n, m = c["data"]["n"], c["m"]
    by = c["by"] if c["by"] is not None else c["bx"]
    if gcd(m, c["bx"]) > 1 or gcd(m, by) > 1 or n < 2:
        return None

    def lattice(d):
        a = rng.integers(0, m + 1, size=(n, d))
        a[0], a[1] = 0, m
        return rng.permuted(a, axis=0)

    x, y = lattice(c["data"]["dx"]), lattice(c["data"]["dy"])
    ix, iy = np.minimum(x * c["bx"] // m, c["bx"] - 1), np.minimum(y * by // m, by - 1)
    want, _ = plug_in(ix, iy)
    got = float(estimator(c).estimate(x.astype(c["data"]["dtype"]), y.astype(c["data"]["dtype"])))
    close(got, want, rtol=1e-9, atol=1e-9, what="estimate for discrete data")
    return f"m={m}" if want > 1e-9 else None


@st.composite
def _relations(draw):
    c = draw(_cases(sizes=(7, 20, 60, 200), dtypes=("float64",)))
    c["data"].update(log_scale=0, shift=0)
    c["relation"] = draw(
        st.sampled_from(["permute", "swap", "scale", "standardize", "coordinates", "duplicate"])
    )
    return c


@facet(FACETS, rule="positive estimate", strategy=_relations, quick=150, thorough=10000, shards=2)
def metamorphic_relations(c):
    x, y = data.make(c["data"])
    by = c["by"] if c["by"] is not None else c["bx"]
    for a, b in ((x, c["bx"]), (y, by)):
        if min(bin_indices(a, b)[1], bin_indices(data.standardised(a), b)[1]) < 1e-8:
            return None
    rng = gen.rng_of(c["data"], 9)
    want = float(estimator(c).estimate(x, y))
    kw, x2, y2, rel = dict(c), x, y, c["relation"]
    if rel == "permute":
        p = rng.permutation(len(x))
        x2, y2 = x[p], y[p]
    elif rel == "swap":
        x2, y2 = y, x
        kw.update(bx=by, by=c["bx"])
    elif rel == "scale":
        x2 = x * rng.uniform(0.1, 20, size=x.shape[1]) + rng.normal(size=x.shape[1])
        y2 = y * rng.uniform(0.1, 20, size=y.shape[1]) + rng.normal(size=y.shape[1])
    elif rel == "standardize":
        kw["standardize"] = not c["standardize"]
    elif rel == "coordinates":
        x2, y2 = x[:, rng.permutation(x.shape[1])], y[:, rng.permutation(y.shape[1])]
    elif rel == "duplicate":
        x2, y2 = np.repeat(x, 3, axis=0), np.repeat(y, 3, axis=0)
    got = float(estimator(kw).estimate(x2, y2))
    close(got, want, rtol=1e-9, atol=1e-9, what=rel)
    return rel if want > 1e-9 else None
