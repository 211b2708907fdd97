"""Generated data sets for the estimators."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen

STYLES = [
    "normal", "normal", "correlated", "lattice", "duplicates", "clusters", "heavy", "constant", "binary",
]


@st.composite
def datasets(
    draw,
    max_dim=4,
    sizes=(2, 3, 5, 8, 13, 21, 40),
    styles=STYLES,
    dtypes=("float64", "float64", "float32"),
    more_dims=(),
    units=(0,),
):
    dims = st.integers(1, max_dim)
    if more_dims:
        dims = st.one_of(dims, dims, dims, st.sampled_from(more_dims))
    return dict(
        dx=draw(dims),
        dy=draw(dims),
        units=draw(st.sampled_from(units)),  # of all the values, as a power of eight
        n=draw(st.sampled_from(sizes)),
        style_x=draw(st.sampled_from(styles)),
        style_y=draw(st.sampled_from(styles)),
        dtype=draw(st.sampled_from(dtypes)),
        log_scale=draw(st.sampled_from([0, 0, 0, 3, -4])),
        shift=draw(st.sampled_from([0, 0, 0, 5, -1000])),
        seed=draw(gen.seeds()),
    )


def column_block(rng, style, n, d, base):
    a = rng.normal(size=(n, d))
    if style == "correlated":
        a = 0.3 * a + base[:, None] * rng.choice([-1, 1], size=d)
    if style == "lattice":
        a = rng.integers(0, 4, size=(n, d)).astype(float)
    if style == "duplicates":
        a = a[rng.integers(0, max(1, n // 2), size=n)]
    if style == "clusters":
        a = 0.01 * a + 10.0 * rng.integers(0, 3, size=(n, 1))
    if style == "heavy":
        a = a / np.maximum(1e-3, np.abs(rng.normal(size=(n, 1))))
    if style == "constant":
        a[:, 0] = 2.0
    if style == "binary":
        a = (a > 0).astype(float)
    return a


def make(c):
    rng = gen.rng_of(c)
    n = c["n"]
    base = rng.normal(size=n)
    x = column_block(rng, c["style_x"], n, c["dx"], base)
    y = column_block(rng, c["style_y"], n, c["dy"], base)
    s = 2.0 ** (3 * c["log_scale"])
    x = x * s + c["shift"]
    common = 8.0 ** c.get("units", 0)
    x, y = x * common, y * common
    return x.astype(c["dtype"]), y.astype(c["dtype"])


def standardised(a):
    """Mean zero and unit variance per coordinate; constant coordinates become zero."""
    a = np.asarray(a, dtype=float)
    m = a.mean(axis=0)
    s = a.std(axis=0)
    tiny = s <= 10 * np.finfo(float).eps * len(a) * np.maximum(np.abs(m), 1e-300)
    out = (a - m) / np.where(tiny, 1.0, s)
    out[:, tiny] = 0.0
    return out
