"""P24: data-handling helpers keep, standardise, chunk and perturb data as documented."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from pbt import gen, stat
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): model-based histories of indexing against a plain list of "
    "points, invariants of standardisation, exact cover for chunks, moments of generated noise"
)
LEVEL_NOTE = (
    "1..40 points (also 2500), 1..40 columns per variable, float64/float32/int/lists/JAX, units "
    "1e-30..1e30, offsets up to 1e6 standard deviations, constant columns; chunks of up to 150000 "
    "items; laws of up to 1.2 million values of noise."
)


@st.composite
def _index(draw):
    edge = st.one_of(st.none(), st.integers(-45, 45))
    kind = draw(st.sampled_from(["int", "int", "slice", "slice", "slice"]))
    if kind == "int":
        return draw(st.integers(-45, 45))
    return [draw(edge), draw(edge), draw(st.sampled_from([None, None, 1, 2, 7, -1, -3]))]


@st.composite
def _spaces(draw):
    return dict(
        n=draw(st.sampled_from([1, 2, 3, 5, 17, 40, 2500])),
        dx=draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 40))),
        dy=draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 40))),
        kind=draw(st.sampled_from(["float64", "float64", "float32", "int", "lists", "jax", "fortran", "view"])),
        standardize=draw(st.sampled_from([None, True, False, False])),
        log_scale=draw(st.one_of(st.just(0), st.integers(-8, 8), st.sampled_from([-30, -14, 14, 30]))),
        offset=draw(st.sampled_from([0.0, 0.0, 1.0, -30.0, 1e4, 1e6])),
        constants=draw(st.sampled_from([0, 0, 1, 2])),
        ops=draw(st.lists(_index(), min_size=1, max_size=6)),
        seed=draw(gen.seeds()),
    )


def _arrays(c):
    rng = gen.rng_of(c)
    out = []
    for d in (c["dx"], c["dy"]):
        a = rng.normal(size=(c["n"], d)) * 10.0 ** rng.uniform(-1, 1, size=d)
        if c["kind"] == "int":
            a = np.round(a * 100).astype(np.int64)
            for j in rng.permutation(d)[: c["constants"]]:
                a[:, j] = int(rng.integers(-3, 4))
        else:
            a = (a + (c["offset"] if c["kind"] not in ("float32", "jax") else min(30.0, c["offset"])))
            a = a * 10.0 ** c["log_scale"]
            for j in rng.permutation(d)[: c["constants"]]:
                a[:, j] = rng.choice([0.0, 0.1, -7.3, 1e6])
        if c["kind"] in ("float32", "jax"):
            a = a.astype(np.float32)
        out.append(a)
    return out


def _give(c, a):
    import jax.numpy as jnp

    if c["kind"] == "lists":
        return a.tolist()
    if c["kind"] == "jax":
        return jnp.asarray(a)
    if c["kind"] == "fortran":
        return np.array(a, order="F")
    if c["kind"] == "view":
        big = np.zeros((2 * len(a), a.shape[1] + 1))
        big[::2, 1:] = a
        return big[::2, 1:]
    return a.copy()


def check_standardised(z, a, what):
    """z is the standardised a."""
    a = np.asarray(a, dtype=float)
    lowp = np.asarray(z).dtype == np.float32
    z = np.asarray(z, dtype=float)
    n = len(a)
    for j in range(a.shape[1]):
        col, got = a[:, j], z[:, j]
        w = f"{what}, coordinate {j}"
        magnitude = np.max(np.abs(col))
        eps = 1.2e-7 if lowp else 2.3e-16
        if np.all(col == col[0]):
            # an exactly zero column, up to the rounding of the mean
            require(np.all(np.abs(got) <= 8 * eps * magnitude + 1e-12), f"{w}: constant column", got=got)
            continue
        mean = np.mean(col)
        std = np.sqrt(np.mean((col - mean) ** 2))
        tol = 1e-9 + 40 * eps * n + 40 * eps * magnitude / std
        require(abs(np.mean(got)) <= tol, f"{w}: mean", got=np.mean(got), tol=tol)
        require(abs(np.mean(got**2) - 1) <= 4 * tol, f"{w}: variance", got=np.mean(got**2), tol=tol)
        close(got, (col - mean) / std, rtol=tol, atol=4 * tol, what=f"{w}: values")
        o1, o2 = np.argsort(col, kind="stable"), np.sort(got)
        require(np.all(np.abs(got[o1] - o2) <= tol), f"{w}: order")


@facet(
    FACETS,
    rule="several points or standardised",
    strategy=_spaces,
    quick=200,
    thorough=12000,
    shards=4,
)
def product_space(c):
    from bmi.utils import ProductSpace

    ax, ay = _arrays(c)
    x, y = _give(c, ax), _give(c, ay)
    kw = {} if c["standardize"] is None else dict(standardize=c["standardize"])
    space = ProductSpace(x, y, **kw)
    n = c["n"]
    for rnd in range(2):
        require(len(space) == n and space.n_points == n, "number of points", got=(len(space), space.n_points))
        require((space.dim_x, space.dim_y) == (c["dx"], c["dy"]), "dimensions")
        sx, sy = np.asarray(space.x), np.asarray(space.y)
        require(sx.shape == ax.shape and sy.shape == ay.shape, "shapes", got=(sx.shape, sy.shape))
        if c["standardize"] is False:
            require(np.array_equal(sx, ax) and np.array_equal(sy, ay), "points")
        else:
            check_standardised(sx, ax, "X")
            check_standardised(sy, ay, "Y")
        joint = np.array([list(sx[i]) + list(sy[i]) for i in range(n)])
        require(np.array_equal(np.asarray(space.xy), joint), "joint points")
        for op in c["ops"]:
            if isinstance(op, int):
                if -n <= op < n:
                    require(np.array_equal(np.asarray(space[op]), joint[op]), "point", index=op)
                else:
                    expect_raises(IndexError, lambda: space[op], f"index {op} of {n} points")
            else:
                sl = slice(*op)
                got = np.asarray(space[sl])
                want = joint[sl]
                require(got.shape == want.shape, "shape of a slice", got=got.shape, want=want.shape)
                require(np.array_equal(got, want), "points of a slice", index=op)
        if c["kind"] == "lists":
            require(x == ax.tolist() and y == ay.tolist(), "arguments were modified")
        else:
            require(np.array_equal(np.asarray(x), ax) and np.array_equal(np.asarray(y), ay), "arguments were modified")
        if rnd == 0:
            # the caller goes on using their arrays
            before = joint.copy()
            if c["kind"] == "lists":
                x[0][0] = 12345.0
                y.clear()
            elif c["kind"] != "jax":
                x[...] = 7
                y[...] = -7
            require(np.array_equal(np.asarray(space.xy), before), "points change with the caller's arrays")
            x, y = _give(c, ax), _give(c, ay)
    lens = "" if n > 1 or c["standardize"] is not False else None
    return None if lens is None else f"{c['kind']}, standardize={c['standardize']}"


@st.composite
def _unequal(draw):
    n = draw(st.integers(1, 6))
    return dict(n=n, m=draw(st.integers(1, 6).filter(lambda m: m != n)), standardize=draw(st.booleans()))


@facet(FACETS, rule="every case", strategy=_unequal, quick=30, thorough=300)
def unequal_numbers_of_points_are_rejected(c):
    from bmi.utils import ProductSpace

    x, y = np.arange(c["n"] * 2.0).reshape(-1, 2), np.arange(float(c["m"])).reshape(-1, 1)
    expect_raises(ValueError, lambda: ProductSpace(x, y, standardize=c["standardize"]), f"{c['n']} and {c['m']} points")
    return "rejected"


@st.composite
def _chunks(draw):
    if draw(st.integers(0, 9)) == 0:
        n = draw(st.sampled_from([1500, 5000, 65_537, 150_000]))
        return dict(n=n, size=draw(st.integers(n // 40, n + 1)), numpy=True)
    n = draw(st.integers(1, 400))
    size = draw(st.one_of(st.integers(1, 450), st.integers(1, 5), st.sampled_from([n, n + 1, max(1, n - 1)])))
    return dict(n=n, size=size, numpy=draw(st.booleans()))


@facet(FACETS, rule="more than one chunk", strategy=_chunks, quick=300, thorough=10000, shards=2)
def chunks_cover_exactly_once(c):
    from bmi.utils import chunker

    n, k = c["n"], c["size"]
    items = np.arange(n) * 3 if c["numpy"] else [3 * i for i in range(n)]
    chunks = [list(items[s]) for s in chunker(n_items=n, chunk_size=k)]
    require([v for ch in chunks for v in ch] == [3 * i for i in range(n)], "items in order", got=chunks)
    require(all(len(ch) == k for ch in chunks[:-1]), "sizes of chunks", got=[len(ch) for ch in chunks])
    require(0 < len(chunks[-1]) <= k, "size of the last chunk", got=len(chunks[-1]))
    # two interleaved passes are independent
    a, b = chunker(n, k), chunker(n, k)
    first = next(a)
    require([items[s][0] for s in b] == [ch[0] for ch in chunks], "interleaved pass")
    require(list(items[first]) == chunks[0] and [list(items[s]) for s in a] == chunks[1:], "rest of the pass")
    return f"{min(3, len(chunks))} chunks" if len(chunks) > 1 else None


@st.composite
def _noise(draw):
    return dict(
        n=draw(st.sampled_from([1, 3, 50])),
        d=draw(st.integers(1, 5)),
        kind=draw(st.sampled_from(["float64", "int", "bool", "lists", "jax"])),
        std=draw(st.one_of(st.none(), gen.flt(1e-3, 10), st.sampled_from([0.0, 1e-5, 1e-8, 1e3]))),
        key=draw(st.one_of(st.none(), st.integers(0, 2**31 - 1))),
        m=draw(st.sampled_from([5000, 5000, 2500, 12_000, 40_000])),
        wide=draw(st.sampled_from([4, 4, 2, 13, 30])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="non-zero noise", strategy=_noise, quick=120, thorough=4000, shards=2)
def noise(c):
    import jax.numpy as jnp

    from bmi.utils import add_noise

    rng = gen.rng_of(c)
    a = rng.integers(0, 5, size=(c["n"], c["d"]))
    a = {"float64": a * 0.37, "bool": a > 2, "jax": a.astype(np.float32)}.get(c["kind"], a)
    give = a.tolist() if c["kind"] == "lists" else jnp.asarray(a) if c["kind"] == "jax" else a.copy()
    kw = {}
    if c["std"] is not None:
        kw["noise_std"] = c["std"]
    if c["key"] is not None:
        kw["rng_key"] = c["key"]
    std, key = 1e-5 if c["std"] is None else c["std"], 0 if c["key"] is None else c["key"]

    np.random.seed(3)
    out = np.asarray(add_noise(give, **kw))
    require(out.shape == a.shape, "shape", got=out.shape)
    require(np.issubdtype(out.dtype, np.floating), "type", got=out.dtype)
    require(np.array_equal(np.asarray(give), a), "points were modified")
    np.random.seed(4)
    require(np.array_equal(np.asarray(add_noise(give, **kw)), out), "not reproducible")
    require(np.array_equal(np.asarray(add_noise(give, noise_std=std, rng_key=key)), out), "defaults")
    f = a.astype(float)
    if std == 0.0:
        require(np.array_equal(out, f), "zero noise changes the points")
        return None
    tol = 4e-16 * 8 + 1e-12 * std
    base = np.asarray(add_noise(np.zeros(a.shape), **kw))
    close(out - f, base, rtol=0, atol=tol * 4, what="noise depends on the points")
    require(np.max(np.abs(base)) <= 9 * std, "size of the noise", got=np.max(np.abs(base)), std=std)
    require(len(np.unique(base)) == base.size, "noise is repeated", got=base)
    for step in (1, 10, 1000, *(2**k for k in range(1, 31))):
        other = np.asarray(add_noise(np.zeros(a.shape), noise_std=std, rng_key=(key + step) % 2**31))
        require(not np.any(other == base), "noise does not depend on the seed", keys=(key, (key + step) % 2**31))

    # moments of a large draw
    m, d = c["m"], c["wide"]
    z = np.asarray(add_noise(np.zeros((m, d)), **kw)) / std
    require(abs(z.mean()) <= 6 / np.sqrt(m * d), "mean of the noise", got=z.mean())
    require(abs((z**2).mean() - 1) <= 6 * np.sqrt(2 / (m * d)), "variance of the noise", got=(z**2).mean())
    stat.ks_uniform(norm.cdf(z.ravel()), "law of the noise")
    for gap in (1, 2, m // 2):
        stat.uncorrelated(z[gap:].ravel(), z[:-gap].ravel(), "points of the noise at a distance", gap=gap)
    corr = z.T @ z / m - np.diag((z**2).mean(axis=0))
    require(np.max(np.abs(corr)) <= 7 / np.sqrt(m), "coordinates of the noise are dependent", got=corr)
    lag = abs((z[1:] * z[:-1]).mean())
    require(lag <= 6.5 / np.sqrt(m * d), "points of the noise are dependent", got=lag)
    return c["kind"]
