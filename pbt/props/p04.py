"""P04: sampling contract (shapes, pairing, reproducibility, no hidden state)."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, zoo
from pbt.core import facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated sampler expressions, model-based histories "
    "of interleaved sample / mutual-information calls compared with fresh instances"
)
LEVEL_NOTE = (
    "All sampler kinds and combinators to depth 2, dims 1..~9, n in 1..200, histories of up to "
    "6 calls; tasks: the whole catalogue and public constructors."
)

NS = [1, 2, 3, 17, 64]


def make_seed(seed, kind):
    import jax

    if kind == "int":
        return int(seed)
    if kind == "key":
        return jax.random.PRNGKey(seed)
    return {"int64": np.int64, "int32": np.int32, "uint32": np.uint32}[kind](seed)


def check_sample(x, y, n, dx, dy, what):
    x, y = np.asarray(x), np.asarray(y)
    require(x.shape == (n, dx), f"{what}: X has shape {x.shape} instead of {(n, dx)}")
    require(y.shape == (n, dy), f"{what}: Y has shape {y.shape} instead of {(n, dy)}")
    require(np.isfinite(x.astype(float)).all(), f"{what}: X is not finite", x=x)
    require(np.isfinite(y.astype(float)).all(), f"{what}: Y is not finite", y=y)
    return x, y


def same(a, b):
    return all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(a, b))


def ops(probe):
    seed = st.one_of(gen.seeds(), st.integers(0, 3), st.just(probe))
    kind = st.sampled_from(["int", "int", "int64", "int32", "uint32", "key"])
    sample = st.tuples(st.just("sample"), st.sampled_from(NS), seed, kind)
    others = st.sampled_from([("mi",), ("legacy_seed", 3), ("legacy_seed", 4), ("scribble",)])
    return st.lists(st.one_of(sample, sample, others).map(list), min_size=1, max_size=6)


@st.composite
def _histories(draw, strategy):
    seed = draw(gen.seeds())
    return dict(sampler=draw(strategy), ops=draw(ops(seed)), n=draw(st.sampled_from(NS)), seed=seed)


def run_history(c, make, dx, dy, allow_keys=True):
    """Samples of a used instance equal those of an instance used for nothing else."""
    shared, other = make(), make()
    require((shared.dim_x, shared.dim_y) == (dx, dy), "wrong dimensions", got=(shared.dim_x, shared.dim_y))
    probe = shared.sample(c["n"], c["seed"])
    probe = tuple(np.array(a) for a in check_sample(*probe, c["n"], dx, dy, "first sample"))
    last = None
    n_samples = 0
    first_mi = None
    for op in c["ops"]:
        if op[0] == "sample":
            _, n, seed, kind = op
            if kind == "key" and not allow_keys:
                kind = "int"
            s = make_seed(seed, kind)
            got = shared.sample(n, s)
            check_sample(*got, n, dx, dy, f"sample({n}, {kind})")
            last = got
            reference = other.sample(n, make_seed(seed, "key" if kind == "key" else "int"))
            require(
                same(got, reference),
                "the same seed gives a different sample on an equal instance",
                n=n,
                seed=seed,
                kind=kind,
            )
            require(same(shared.sample(n, s), reference), "repeated call gives a different sample")
            if n >= 3:
                changed = shared.sample(n, make_seed((seed + 1) % 2**31, kind))
                require(
                    not np.array_equal(np.asarray(changed[0]), np.asarray(got[0])) or
                    not np.array_equal(np.asarray(changed[1]), np.asarray(got[1])),
                    "a different seed gives the same sample",
                    n=n,
                    seed=seed,
                )
            n_samples += 1
        elif op[0] == "mi":
            mi = shared.mutual_information
            mi = float(mi() if callable(mi) else mi)
            require(np.isfinite(mi) and mi >= 0, "MI is not a finite non-negative number", mi=mi)
            require(first_mi in (None, mi), "MI changed between calls", got=(first_mi, mi))
            first_mi = mi
        elif op[0] == "legacy_seed":
            np.random.seed(op[1])
            np.random.random(op[1])
        elif op[0] == "scribble" and last is not None:
            for a in last:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = -1
    state = np.random.get_state()[1].tolist(), np.random.get_state()[2]
    again = shared.sample(c["n"], c["seed"])
    require(
        state == (np.random.get_state()[1].tolist(), np.random.get_state()[2]),
        "sampling consumed NumPy's global random state",
    )
    require(same(probe, again), "the first sample is not reproduced after the history")
    return n_samples


@facet(
    FACETS,
    rule="at least one further sample drawn between the first sample and its repetition",
    strategy=lambda: _histories(zoo.simple_samplers()),
    quick=120,
    thorough=4000,
    shards=2,
)
def simple_samplers(c):
    n = run_history(c, lambda: zoo.build(c["sampler"]), *zoo.dims_of(c["sampler"]))
    return c["sampler"]["kind"] if n else None


@facet(
    FACETS,
    rule="at least one further sample drawn between the first sample and its repetition",
    strategy=lambda: _histories(zoo.samplers()),
    quick=24,
    thorough=1200,
    shards=4,
)
def sampler_expressions(c):
    n = run_history(c, lambda: zoo.build(c["sampler"]), *zoo.dims_of(c["sampler"]))
    return "+".join(sorted(set(zoo.kinds_in(c["sampler"])))[:3]) if n else None


@st.composite
def _pairs(draw):
    a = draw(gen.seeds())
    how = draw(st.sampled_from(["power", "power", "random", "near"]))
    if how == "power":
        b = a ^ (1 << draw(st.integers(0, 30)))
    elif how == "near":
        b = a + draw(st.integers(1, 1000))
    else:
        b = draw(gen.seeds())
    kind = st.sampled_from(["int", "int64", "uint32", "key"])
    return dict(
        sampler=draw(zoo.samplers(depth=1)), a=a, b=b % (2**31 - 1), kinds=[draw(kind), draw(kind)], n=8
    )


@facet(
    FACETS,
    rule="different seeds",
    strategy=_pairs,
    quick=30,
    thorough=2000,
    shards=2,
)
def seeds_are_distinguished(c):
    """Different seeds (also if they differ in one bit) give different samples."""
    if c["a"] == c["b"]:
        return None
    s = zoo.build(c["sampler"])
    one = s.sample(c["n"], make_seed(c["a"], c["kinds"][0]))
    two = s.sample(c["n"], make_seed(c["b"], c["kinds"][1]))
    require(not same(one, two), "two seeds give the same sample", seeds=(c["a"], c["b"]))
    return "one bit" if bin(c["a"] ^ c["b"]).count("1") == 1 else "other"


LARGE = [1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 12288, 16384, 20000, 32768, 50000, 65536, 100000]


@st.composite
def _large_cases(draw):
    return dict(
        sampler=draw(zoo.samplers(depth=1)),
        n=draw(st.sampled_from(LARGE)) + draw(st.sampled_from([0, 0, 0, -1, 1])),
        seed=draw(gen.seeds()),
        kind=draw(st.sampled_from(["int", "int", "key"])),
    )


@facet(FACETS, rule="every case", strategy=_large_cases, quick=14, thorough=1500, shards=4, spread=True)
def large_samples(c):
    """Sizes at which an implementation might work block by block."""
    dx, dy = zoo.dims_of(c["sampler"])
    n = c["n"]
    s = zoo.build(c["sampler"])
    got = s.sample(n, make_seed(c["seed"], c["kind"]))
    x, y = check_sample(*got, n, dx, dy, f"sample({n})")
    require(same(got, zoo.build(c["sampler"]).sample(n, make_seed(c["seed"], c["kind"]))), "not reproducible", n=n)
    points = np.hstack([x.astype(float), y.astype(float)])
    if len(np.unique(points[:500], axis=0)) < 5:
        return f"{c['sampler']['kind']}, almost constant"
    for size in {n // 2, n // 3, n // 4, n // 8, *LARGE}:
        m = min(size, n - size, 300)
        if m < 250:
            continue
        for start in {0, n - size - m}:
            one, two = points[start : start + m], points[start + size : start + size + m]
            require(not np.array_equal(one, two), f"points {size} apart are repeated", n=n)
    return c["sampler"]["kind"]


# Samplers whose X and Y are so dependent that pairing is seen in any block of 500 points
DEPENDENT = ["additive", "dum", "mdum", "multinormal", "student", "bivariate", "bmm_normal", "bmm_student", "mixture", "concat", "transformed", "swapped"]


def _dependent(kind):
    import jax.numpy as jnp

    import bmi.samplers as bs
    from bmi.samplers import bmm

    cov = np.array([[1.0, 0.97], [0.97, 1.0]])
    normal = dict(dim_x=1, dim_y=1, covariance=cov)
    student = dict(dim_x=1, dim_y=1, dispersion=cov, df=4)
    if kind == "additive":
        return bs.AdditiveUniformSampler(epsilon=0.1)
    if kind == "dum":
        return bs.DiscreteUniformMixtureSampler(n_discrete=20)
    if kind == "mdum":
        return bs.MultivariateDiscreteUniformMixtureSampler(ns_discrete=[20, 30])
    if kind == "multinormal":
        return bs.SplitMultinormal(**normal)
    if kind == "student":
        return bs.SplitStudentT(**student)
    if kind == "bivariate":
        return bs.BivariateNormalSampler(correlation=0.97)
    if kind == "bmm_normal":
        return bmm.BMMSampler(bmm.MultivariateNormalDistribution(**normal), mi=0.0)
    if kind == "bmm_student":
        return bmm.BMMSampler(bmm.MultivariateStudentDistribution(**student), mi=0.0)
    if kind == "mixture":
        parts = [bmm.MultivariateNormalDistribution(**normal, mean=np.array([m, m])) for m in (0.0, 2.0)]
        return bmm.BMMSampler(bmm.mixture(jnp.array([0.3, 0.7]), parts), mi=0.0)
    if kind == "concat":
        return bs.IndependentConcatenationSampler([bs.SplitMultinormal(**normal), bs.AdditiveUniformSampler(0.1)])
    if kind == "transformed":
        return bs.TransformedSampler(bs.SplitMultinormal(**normal), transform_x=jnp.arcsinh)
    return bs.TransformedSampler(bs.AdditiveUniformSampler(0.1), transform_y=lambda y: y**3, vectorise=False)


HUGE = [100_000, 131_072, 150_001, 200_000, 262_145, 300_000]


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(DEPENDENT),
            n=st.one_of(st.sampled_from(HUGE), st.integers(50_000, 400_000)),
            seed=gen.seeds(),
        )
    ),
    examples=lambda: [dict(kind=k, n=HUGE[(5 * i + 3) % len(HUGE)], seed=i) for i, k in enumerate(DEPENDENT)],
    quick=4,
    thorough=400,
    shards=4,
    spread=True,
)
def pairing_of_large_samples(c):
    """In every block of a large sample, X and Y belong together (rank correlation of a block)."""
    s = _dependent(c["kind"])
    n = c["n"]
    x, y = check_sample(*s.sample(n, c["seed"]), n, s.dim_x, s.dim_y, f"sample({n})")
    small = s.sample(500, c["seed"])
    size = 500
    blocks = n // size
    for i in range(s.dim_x):
        def correlations(a, b):
            r = []
            for u in (a, b):
                ranks = np.argsort(np.argsort(u, axis=1), axis=1).astype(float)
                r.append((ranks - ranks.mean(axis=1, keepdims=True)) / ranks.std(axis=1, keepdims=True))
            return (r[0] * r[1]).mean(axis=1)

        def columns(a, m):
            return np.asarray(a)[:m, i].astype(float).reshape(-1, size)

        want = correlations(columns(small[0], size), columns(small[1], size))[0]
        require(want > 0.85, "X and Y of a small sample do not belong together", got=want)
        got = correlations(columns(x, blocks * size), columns(y, blocks * size))
        require(got.min() > 0.8, "X and Y are not paired", coordinate=i, block=int(got.argmin()), got=float(got.min()))
        # ... and at the end, which is not part of a full block
        got = correlations(x[-size:, i].astype(float)[None], y[-size:, i].astype(float)[None])
        require(got[0] > 0.8, "X and Y are not paired at the end", coordinate=i, got=float(got[0]))
    return c["kind"]


# ---------------------------------------------------------------- tasks

def _ops(n, seed, kind):
    return [["sample", n, seed, kind]]


def _catalogue_examples():
    """Every task of the catalogue once; the generated cases vary size, seed and seed type."""
    return [
        dict(task=i, ops=_ops(1 + 4 * (i % 2), 7 * i, ["int", "key"][i % 2]), n=3, seed=i)
        for i in range(40)
    ]


@st.composite
def _catalogue_cases(draw):
    kind = draw(st.sampled_from(["int", "int64", "key"]))
    return dict(
        task=draw(st.sampled_from(range(40))),
        ops=_ops(draw(st.sampled_from([1, 5])), draw(gen.seeds()), kind),
        n=3,
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="every case",
    strategy=_catalogue_cases,
    examples=_catalogue_examples,
    quick=10,
    thorough=400,
    shards=2,
)
def catalogue_tasks(c):
    from bmi.benchmark import BENCHMARK_TASKS

    names = sorted(BENCHMARK_TASKS)
    name = names[c["task"] % len(names)]
    task = BENCHMARK_TASKS[name]
    run_history(c, lambda: task, task.dim_x, task.dim_y)
    # A point drawn alone is also a valid paired sample; the sampler underneath agrees
    got = task.sample(3, c["seed"])
    require(same(got, task.sampler.sample(3, c["seed"])), "task and its sampler differ", task=name)
    return name
