"""P22: MINE value and smoothed gradient follow the published equations."""

import functools
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated training runs against a reference implementation "
    "of the published equations with Adam in double precision; where the run draws a permutation, all "
    "permutations are followed"
)
LEVEL_NOTE = (
    "up to six optimisation steps; bilinear and multi-layer critics with two or three points (all "
    "permutations), critics of one variable with up to 50 points, scores up to 300, smoothing 0.02..0.98."
)


@functools.lru_cache(maxsize=None)
def bilinear_class():
    import equinox as eqx
    import jax

    class Bilinear(eqx.Module):
        w: jax.Array
        a: jax.Array
        b: jax.Array
        c: jax.Array

        def __call__(self, x, y):
            return x @ self.w @ y + self.a @ x + self.b @ y + self.c

    return Bilinear


@functools.lru_cache(maxsize=None)
def jitted(tree):
    """params, xs, ys -> matrix of scores T(x_i, y_j) and its derivatives"""
    import jax

    def f(params, xs, ys):
        critic = jax.tree_util.tree_unflatten(tree, params)
        return jax.vmap(lambda x: jax.vmap(lambda y: critic(x, y))(ys))(xs)

    return jax.jit(lambda p, xs, ys: (f(p, xs, ys), jax.jacrev(f)(p, xs, ys)))


def evaluate(tree, params, xs, ys):
    t, j = jitted(tree)([np.asarray(p, dtype=np.float32) for p in params], xs, ys)
    return np.asarray(t, dtype=float), [np.asarray(v, dtype=float) for v in j]


def lme(v):
    return logsumexp(v) - np.log(len(v))


class State:
    """Parameters, moments of Adam, and the log of the smoothed denominator."""

    def __init__(self, params):
        self.p = [np.asarray(v, dtype=float) for v in params]
        self.m = [0 * v for v in self.p]
        self.v = [0 * v for v in self.p]
        self.log_d = -np.inf
        self.n = 0
        self.smallest = np.inf

    def step(self, t, j, unpaired, alpha, lr):
        """t: scores of all pairs, j: their derivatives, unpaired: list of pairs (i, k)"""
        n = len(t)
        rows, cols = np.array(unpaired).T
        scores = t[rows, cols]
        new = State(self.p)
        new.n = self.n + 1
        new.log_d = np.logaddexp(np.log(1 - alpha) + self.log_d, np.log(alpha) + lme(scores))
        weight = np.exp(scores - logsumexp(scores)) * np.exp(lme(scores) - new.log_d)
        new.smallest = self.smallest
        for i, d in enumerate(j):
            paired = d[np.arange(n), np.arange(n)].mean(0)
            g = np.tensordot(weight, d[rows, cols], axes=1) - paired
            new.m[i] = 0.9 * self.m[i] + 0.1 * g
            new.v[i] = 0.999 * self.v[i] + 0.001 * g**2
            size = np.sqrt(new.v[i] / (1 - 0.999**new.n))
            exact_zero = (np.abs(d).reshape(-1, *g.shape).max(0) == 0) & (size == 0)
            new.smallest = min(new.smallest, np.min(size, where=~exact_zero, initial=np.inf))
            new.p[i] = self.p[i] - lr * (new.m[i] / (1 - 0.9**new.n)) / (size + 1e-8)
        return new


def value(t, unpaired):
    rows, cols = np.array(unpaired).T
    return np.diag(t).mean() - lme(t[rows, cols])


def pairings(n):
    return [list(enumerate(p)) for p in itertools.permutations(range(n))]


def follow(tree, start, xs, ys, xt, yt, observed, alpha, lr, pairs, test_pairs):
    """States which agree with the observed test values after every step."""
    states, maybe = [State(start)], False
    for k, obs in enumerate(observed):
        after, seen, unsure = [], [], False
        for s in states:
            t, j = evaluate(tree, s.p, xs, ys)
            for u in pairs:
                new = s.step(t, j, u, alpha, lr)
                if new.smallest < 1e-4:
                    unsure = True
                    continue
                tt, _ = evaluate(tree, new.p, xt, yt)
                tol = 2e-3 + 1e-5 * np.abs(tt).max()
                options = [value(tt, w) for w in test_pairs]
                seen += options
                if min(abs(v - obs) for v in options) < tol:
                    after.append(new)
        maybe |= unsure
        if maybe and not after:
            return None
        require(
            after,
            f"test value after step {k + 1} is none of those the equations allow",
            got=obs,
            allowed=sorted(set(np.round(seen, 4)))[:12],
        )
        # trajectories which lead to the same point need not be followed separately
        unique = {}
        for s in after:
            key = tuple(np.round(np.concatenate([v.ravel() for v in s.p] + [[s.log_d]]), 6))
            unique.setdefault(key, s)
        states = list(unique.values())
    return states, maybe


def check_end(found, critic):
    import jax

    states, maybe = found
    if maybe:  # a trajectory whose gradients are within rounding of zero was not followed
        return

    got = [np.asarray(v, dtype=float) for v in jax.tree_util.tree_leaves(critic)]
    best = min(max(np.abs(u - v).max() for u, v in zip(s.p, got)) for s in states)
    require(best < 5e-3, "the trained critic is none of those the equations allow", distance=best)


@st.composite
def _small(draw):
    return dict(
        n=draw(st.sampled_from([2, 2, 3])),
        alpha=draw(st.sampled_from([1e-4, 2e-3, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98, 0.999])),
        lr=draw(st.sampled_from([0.1, 0.3])),
        steps=draw(st.sampled_from([1, 2, 3, 4])),
        n_test=draw(st.sampled_from([0, 2])),
        batch=draw(st.booleans()),
        log_scale=draw(st.sampled_from([0, 0, 1])),
        key=draw(st.integers(0, 10**6)),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="no gradient of the reference within rounding of zero",
    strategy=_small,
    quick=12,
    thorough=800,
    shards=4,
    spread=True,
)
def training_of_bilinear_critics(c):
    import jax
    import jax.numpy as jnp

    import bmi.estimators.neural._mine_estimator as mine

    rng = gen.rng_of(c)
    n = c["n"]
    xs, ys = rng.normal(size=(n, 2)).astype("float32"), rng.normal(size=(n, 1)).astype("float32")
    s = 10.0 ** c["log_scale"]
    parts = [s * rng.normal(size=(2, 1)), s * rng.normal(size=2), s * rng.normal(size=1), np.float32(0.3)]
    critic = bilinear_class()(*[jnp.asarray(p, dtype=jnp.float32) for p in parts])
    kw, xt, yt = {}, xs, ys
    if c["n_test"]:
        xt = rng.normal(size=(c["n_test"], 2)).astype("float32")
        yt = rng.normal(size=(c["n_test"], 1)).astype("float32")
        kw = dict(xs_test=jnp.asarray(xt), ys_test=jnp.asarray(yt))
    log, trained = mine.mine_training(
        rng=jax.random.PRNGKey(c["key"]),
        critic=critic,
        xs=jnp.asarray(xs),
        ys=jnp.asarray(ys),
        alpha=c["alpha"],
        batch_size=n if c["batch"] else None,
        test_every_n_steps=1,
        max_n_steps=c["steps"],
        early_stopping=False,
        learning_rate=c["lr"],
        verbose=False,
        **kw,
    )
    observed = [float(v) for _, v in log.additional_information["test_history"]]
    require(len(observed) == c["steps"], "number of evaluations")
    leaves, tree = jax.tree_util.tree_flatten(critic)
    # a batch of all points may be drawn in any order, which matters for the pairs (i, k) only
    states = follow(tree, leaves, xs, ys, xt, yt, observed, c["alpha"], c["lr"], pairings(n), pairings(len(xt)))
    if states is None:
        return None
    check_end(states, trained)
    return f"n={n}, {c['steps']} steps"


@facet(
    FACETS,
    rule="no gradient of the reference within rounding of zero",
    strategy=_small,
    quick=5,
    thorough=400,
    shards=4,
    spread=True,
)
def estimator(c):
    """The same through the estimator, whose critic is found by training at a vanishing rate."""
    import jax

    from bmi.estimators import MINEEstimator

    rng = gen.rng_of(c)
    n = c["n"]
    # points far from the origin, for which few units of the network are constant
    xs, ys = 2 * rng.normal(size=(n, 2)).astype("float32"), 2 * rng.normal(size=(n, 1)).astype("float32")
    kw = dict(
        batch_size=n,
        train_test_split=None,
        test_every_n_steps=1,
        hidden_layers=[4, 3],
        smoothing_alpha=c["alpha"],
        standardize=False,
        verbose=False,
        seed=c["key"],
    )
    start = MINEEstimator(max_n_steps=1, learning_rate=1e-30, **kw)
    start.estimate(xs, ys)
    est = MINEEstimator(max_n_steps=c["steps"], learning_rate=c["lr"], **kw)
    info = est.estimate_with_info(xs, ys).additional_information
    observed = [float(v) for _, v in info["test_history"]]
    leaves, tree = jax.tree_util.tree_flatten(start.trained_critic)
    states = follow(tree, leaves, xs, ys, xs, ys, observed, c["alpha"], c["lr"], pairings(n), pairings(n))
    if states is None:
        return None
    check_end(states, est.trained_critic)
    return f"n={n}, {len(observed)} steps"


@st.composite
def _one_variable(draw):
    return dict(
        n=draw(st.sampled_from([2, 5, 50, 50, 1500])),
        variable=draw(st.sampled_from(["x", "y"])),
        alpha=draw(st.sampled_from([1e-4, 2e-3, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98, 0.999])),
        lr=draw(st.sampled_from([0.1, 0.3])),
        steps=draw(st.sampled_from([1, 3, 6])),
        scale=draw(st.sampled_from([0.3, 1, 1, 10, 100])),
        offset=draw(st.sampled_from([0.0, 0.0, 200.0, -300.0])),
        key=draw(st.integers(0, 10**6)),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="no gradient of the reference within rounding of zero",
    strategy=_one_variable,
    quick=14,
    thorough=1000,
    shards=4,
    spread=True,
)
def critics_of_one_variable(c):
    """The permutation of the unpaired points is irrelevant: the trajectory is determined."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    import bmi.estimators.neural._mine_estimator as mine

    class OneVariable(eqx.Module):
        w: jax.Array

        def __call__(self, x, y):
            v = x if c["variable"] == "x" else y
            return self.w[0] * v[0] + self.w[1] * jnp.sin(v[0]) + self.w[2] * 0.5 + c["offset"]

    rng = gen.rng_of(c)
    xs, ys = rng.normal(size=(c["n"], 1)).astype("float32"), rng.normal(size=(c["n"], 1)).astype("float32")
    w = (c["scale"] * rng.normal(size=3)).astype("float32")
    v = (xs if c["variable"] == "x" else ys).astype(float)
    phi = np.hstack([v, np.sin(v), np.full_like(v, 0.5)])
    log, trained = mine.mine_training(
        rng=jax.random.PRNGKey(c["key"]),
        critic=OneVariable(w=jnp.asarray(w)),
        xs=jnp.asarray(xs),
        ys=jnp.asarray(ys),
        alpha=c["alpha"],
        batch_size=None,
        test_every_n_steps=1,
        max_n_steps=c["steps"],
        early_stopping=False,
        learning_rate=c["lr"],
        verbose=False,
    )
    observed = [float(u) for _, u in log.additional_information["test_history"]]
    s = State([w])
    n = c["n"]
    big = np.abs(phi).sum(1).max() * np.abs(w).max() + abs(c["offset"])
    diagonal = [(i, i) for i in range(n)]
    idx = np.arange(n)
    for obs in observed:
        t = np.zeros((n, n))
        j = np.zeros((n, n, 3))
        t[idx, idx] = phi @ s.p[0] + c["offset"]
        j[idx, idx] = phi
        s = s.step(t, [j], diagonal, c["alpha"], c["lr"])
        if s.smallest < 1e-3 + 1e-5 * big:
            return None
        t[idx, idx] = phi @ s.p[0] + c["offset"]
        close(obs, value(t, diagonal), atol=3e-3 + 3e-6 * big * len(observed), what="test value", scores=big)
    got = np.asarray(jax.tree_util.tree_leaves(trained)[0], dtype=float)
    close(got, s.p[0], atol=5e-3 + 1e-5 * big, what="trained critic")
    return f"{c['variable']}, offset {c['offset']}"


@st.composite
def _draws(draw):
    n = draw(st.sampled_from([6, 10, 15]))
    return dict(
        n=n,
        batch=draw(st.sampled_from([None, n, n // 2, n - 1])),
        alpha=draw(st.sampled_from([0.3, 0.9])),
        steps=60,
        key=draw(st.integers(0, 10**6)),
    )


def random_matching(groups, n, what):
    """groups: pairs (i, j) of one draw each; the partners must look drawn afresh and uniformly"""
    shifts = np.zeros(n)
    size = 0
    for pairs in groups:
        size += len(pairs)
        for i, j in pairs:
            shifts[(j - i) % n] += 1
    mean = size / n
    spread = 6.5 * np.sqrt(1.5 * mean) + 3
    require(
        np.all(np.abs(shifts - mean) < spread),
        f"{what}: the unpaired partners are not drawn at random",
        shifts=shifts.tolist(),
        expected=mean,
        spread=spread,
    )
    again = sum(len(set(a) & set(b)) for a, b in zip(groups, groups[1:]))
    mean = sum(len(a) * len(b) / n**2 for a, b in zip(groups, groups[1:]))
    require(
        again < mean + 6.5 * np.sqrt(1.5 * mean) + 3,
        f"{what}: the unpaired partners are those of the draw before",
        common=again,
        expected=mean,
    )


@facet(FACETS, rule="every run", strategy=_draws, quick=2, thorough=100, shards=4, spread=True)
def unpaired_points_are_drawn_at_random(c):
    """The points the critic is evaluated at, in training and in the evaluations on test points."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    import bmi.estimators.neural._mine_estimator as mine

    calls = []

    def record(t, x, y):
        for row in np.stack([np.ravel(a) for a in np.broadcast_arrays(t, x, y)], axis=1):
            calls.append((float(row[0]), int(round(float(row[1]))), int(round(float(row[2]))) - 1000))

    class Recording(eqx.Module):
        t: jax.Array

        def __call__(self, x, y):
            jax.debug.callback(record, self.t, x[0], y[0])
            return self.t + 0.01 * jnp.sin(self.t * (3.7 * x[0] + 1.3 * y[0]))

    n = c["n"]
    xs = np.arange(n, dtype=np.float32)[:, None]
    xt = xs + 100
    mine.mine_training(
        rng=jax.random.PRNGKey(c["key"]),
        critic=Recording(t=jnp.asarray(0.5)),
        xs=jnp.asarray(xs),
        ys=jnp.asarray(xs + 1000),
        xs_test=jnp.asarray(xt),
        ys_test=jnp.asarray(xt + 1000),
        alpha=c["alpha"],
        batch_size=c["batch"],
        test_every_n_steps=1,
        max_n_steps=c["steps"],
        early_stopping=False,
        learning_rate=0.1,
        verbose=False,
    )
    jax.effects_barrier()
    groups = dict(train={}, test={})
    for t, i, j in calls:
        if i < 100:
            groups["train"].setdefault(t, []).append((i, j))
        else:
            groups["test"].setdefault(t, []).append((i - 100, j - 100))
    for part, found in groups.items():
        m = n if part == "test" or c["batch"] is None else c["batch"]
        unpaired = []
        for pairs in found.values():
            if len(pairs) != 2 * m:  # the parameter came back to the same number
                continue
            rest = list(pairs)
            batch = {i for i, _ in pairs}
            for i in batch:
                require((i, i) in rest, f"{part}: a paired point lost its partner", x=i, pairs=sorted(pairs))
                rest.remove((i, i))
            require(len(rest) == m, f"{part}: paired points are repeated", pairs=sorted(pairs))
            require(len({j for _, j in rest}) == m, f"{part}: unpaired points are repeated", pairs=sorted(rest))
            unpaired.append(rest)
        if len(unpaired) < 0.5 * c["steps"]:
            return None
        random_matching(unpaired, n, part)
        if m < n:
            batches = [{i for i, _ in rest} for rest in unpaired]
            common = sum(len(a & b) for a, b in zip(batches, batches[1:]))
            mean = m * m / n * (len(batches) - 1)
            require(
                abs(common - mean) < 6.5 * np.sqrt(mean) + 3,
                "the batches of subsequent steps are not drawn afresh",
                common=common,
                expected=mean,
            )
    return f"batch {'all' if c['batch'] is None else c['batch'] / n:.4}"
