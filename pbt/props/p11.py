"""P11: saved samples read back as the same sample."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import tasks as bt
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): round trip of generated arrays and of task samples "
    "through the CSV format"
)
LEVEL_NOTE = (
    "1..1100 columns per variable, 1..120000 rows, float64/float32/int64 at magnitudes 1e-300..1e300, "
    "nested lists and arrays; values to a relative 1e-12."
)


@st.composite
def _arrays(draw):
    many = draw(st.booleans())
    dims = st.integers(1, 130) if many else st.integers(1, 4)
    return dict(
        dx=draw(dims),
        dy=draw(dims),
        n=draw(st.sampled_from([1, 2, 3, 17, 60] if many else [1, 2, 3, 17, 60, 1000, 12_000])),
        dtype=draw(st.sampled_from(["float64", "float64", "float32", "int64", "mixed", "jax"])),
        log_scale=draw(st.one_of(st.just(0), st.integers(-300, 300), st.integers(-12, 12))),
        special=draw(st.booleans()),
        lists=draw(st.booleans()),
        text_path=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


def _array(rng, n, d, c, which):
    dt = c["dtype"]
    if dt == "int64" or (dt == "mixed" and which == "y"):
        return rng.integers(-(10**9), 10**9, size=(n, d))
    a = rng.normal(size=(n, d)) * 10.0 ** (rng.uniform(-3, 3, size=(n, d)))
    e = c["log_scale"]
    if dt in ("float32", "jax"):
        a = (a * 10.0 ** max(-25, min(25, e))).astype(np.float32)
    else:
        a = a * 10.0 ** max(-295, min(295, e))
    if c["special"]:
        mask = rng.integers(0, 4, size=(n, d))
        a = np.where(mask == 0, 0.0, np.where(mask == 1, np.round(a), a)).astype(a.dtype)
    return a


def _same(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    require(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    require(np.issubdtype(got.dtype, np.number), f"{what}: not numeric", got=got.dtype)
    # float32 values are printed with the digits which identify them in float32
    rtol = 1e-6 if want.dtype == np.float32 else 1e-12
    close(got, want, rtol=rtol, atol=0.0, what=what)
    if np.issubdtype(want.dtype, np.integer):
        require(np.array_equal(got, want), f"{what}: integers")


@facet(
    FACETS,
    rule="several columns",
    strategy=_arrays,
    examples=lambda: [
        dict(dx=dx, dy=dy, n=n, dtype=dt, log_scale=0, special=False, lists=False, text_path=True, seed=i)
        for i, (dx, dy, n, dt) in enumerate(
            [(11, 1, 3, "float64"), (1, 11, 1, "float64"), (25, 101, 2, "float32"), (12, 12, 1, "int64"),
             (101, 2, 5, "mixed"), (1, 1, 1, "int64"), (1, 2, 120_000, "float64"), (3, 1, 30_000, "mixed"),
             (300, 1100, 2, "float64")]
        )
    ],
    quick=150,
    thorough=6000,
    shards=4,
)
def round_trip(c):
    import jax.numpy as jnp

    from bmi.utils import read_sample, read_sample_dims, save_sample

    rng = gen.rng_of(c)
    x = _array(rng, c["n"], c["dx"], c, "x")
    y = _array(rng, c["n"], c["dy"], c, "y")
    x0, y0 = x.copy(), y.copy()
    args = (x, y)
    if c["dtype"] == "jax":
        args = (jnp.asarray(x), jnp.asarray(y))
    elif c["lists"]:
        args = (x.tolist(), y.tolist())
    with tempfile.TemporaryDirectory() as tmp:
        import pathlib

        path = pathlib.Path(tmp) / "sample.csv"
        path = str(path) if c["text_path"] else path
        save_sample(path, *args)
        require(os.listdir(tmp) == ["sample.csv"], "files written", got=os.listdir(tmp))
        before = open(path, "rb").read()
        xs, ys = read_sample(path)
        dims = read_sample_dims(path)
        require(open(path, "rb").read() == before, "reading changes the file")
        _same(xs, x0, "X")
        _same(ys, y0, "Y")
        require(tuple(dims) == (c["dx"], c["dy"]), "dimensions", got=dims)
        require(np.array_equal(x, x0) and np.array_equal(y, y0), "argument was modified")
        # writing over a previous file replaces it
        save_sample(path, y0[:1], x0[:1])
        xs, ys = read_sample(path)
        _same(xs, y0[:1], "X of the second sample")
        _same(ys, x0[:1], "Y of the second sample")
        require(tuple(read_sample_dims(path)) == (c["dy"], c["dx"]), "dimensions of the second sample")
    return f"{c['dtype']}, {'> 10' if max(c['dx'], c['dy']) > 10 else '<= 10'} columns" if c["dx"] + c["dy"] > 2 else None


@st.composite
def _bad(draw):
    return dict(
        nx=draw(st.integers(1, 6)),
        ny=draw(st.integers(1, 6)),
        x_ndim=draw(st.sampled_from([1, 2, 2, 3])),
        y_ndim=draw(st.sampled_from([1, 2, 2, 3])),
        d=draw(st.integers(1, 3)),
    )


@facet(FACETS, rule="inconsistent arrays", strategy=_bad, quick=80, thorough=800)
def mismatched_arrays_are_rejected(c):
    from bmi.utils import read_sample, save_sample

    shape = {1: lambda n: (n,), 2: lambda n: (n, c["d"]), 3: lambda n: (n, c["d"], 1)}
    x = np.ones(shape[c["x_ndim"]](c["nx"]))
    y = np.ones(shape[c["y_ndim"]](c["ny"]))
    ok = c["x_ndim"] == c["y_ndim"] == 2 and c["nx"] == c["ny"]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "sample.csv")
        if ok:
            save_sample(path, x, y)
            require(read_sample(path)[0].shape == x.shape, "shape")
            return None
        expect_raises(
            (AssertionError, ValueError, IndexError),
            lambda: save_sample(path, x, y),
            f"arrays of shapes {x.shape} and {y.shape}",
        )
    return "rejected"


@st.composite
def _task_cases(draw):
    c = draw(bt.bases(kinds=("bivariate", "additive", "dense", "2pair", "student_identity", "x")))
    chain = draw(bt.chains(bt.base_dims(c), max_len=1, names=["half_cube", "normal_cdf", "swissroll", "spiral"]))
    return dict(
        base=c,
        chain=chain if draw(st.booleans()) else [],
        n=draw(st.sampled_from([1, 2, 30])),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="every task",
    strategy=_task_cases,
    examples=lambda: [
        dict(base=dict(ctor="dense", params=dict(dim_x=dx, dim_y=dy), name=None), chain=[], n=3, seed=4)
        for dx, dy in [(12, 3), (2, 25), (50, 50)]
    ],
    quick=8,
    thorough=600,
    shards=4,
)
def samples_of_tasks(c):
    from bmi.utils import read_sample, read_sample_dims

    task = bt.build_base(c["base"])
    for tr in c["chain"]:
        task = bt.apply(task, tr)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, f"{c['n']}-{c['seed']}.csv")
        task.save_sample(path, n_samples=c["n"], seed=c["seed"])
        x, y = read_sample(path)
        require(tuple(read_sample_dims(path)) == (task.dim_x, task.dim_y), "dimensions")
    xt, yt = task.sample(c["n"], seed=c["seed"])
    close(x, np.asarray(xt), rtol=1e-6, what="X")
    close(y, np.asarray(yt), rtol=1e-6, what="Y")
    xo, _ = task.sample(c["n"], seed=c["seed"] + 1)
    require(not np.array_equal(np.asarray(xo), np.asarray(xt)), "sample does not depend on the seed")
    return c["base"]["ctor"]
