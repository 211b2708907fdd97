"""P20: neural training follows the documented protocol."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, facet, require
from pbt.props import p19

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated training runs with recording objectives and "
    "scripted test values against a reference model of the protocol; perturbation of single points; "
    "differential against a reference Adam optimiser"
)
LEVEL_NOTE = (
    "6..1100 points (examples up to 12000), up to 100 steps (examples up to 2200), all splits, batch sizes and evaluation intervals in that range; "
    "the public base class with recording critics, and the four real estimators."
)


def scripted_critic(value):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    class Scripted(eqx.Module):
        """Its only parameter grows by the learning rate in every step of the optimiser."""

        t: jax.Array

        def __call__(self, x, y):
            return self.t

    return Scripted(t=jnp.asarray(value, dtype=jnp.float32))


def ids_of(rows, table):
    """indices of the rows in a table with well-separated rows"""
    from scipy.spatial import cKDTree

    d, i = cKDTree(np.asarray(table, dtype=float)).query(np.asarray(rows, dtype=float), p=np.inf)
    require(
        np.max(d, initial=0) < 1e-4,
        "the training saw points which are not those of the (standardised) data",
        distance=np.max(d, initial=0),
    )
    return i


@st.composite
def _protocols(draw):
    n = draw(st.sampled_from([6, 9, 10, 16, 25, 40, 600, 1100]))
    split = draw(st.sampled_from([None, 0.5, 0.5, 0.3, 0.75, 0.8]))
    n_train = n if split is None else int(np.floor(split * n))
    every = draw(st.sampled_from([1, 1, 2, 3, 7]))
    steps = draw(st.sampled_from([1, 2, 5, 12, 12, 20, 100]))
    kind = draw(st.sampled_from(["levels", "levels", "increasing", "decreasing", "constant"]))
    k = steps // every
    script = dict(
        levels=draw(st.lists(st.integers(-2, 4), min_size=k, max_size=k)) if kind == "levels" else None,
        increasing=list(range(k)),
        decreasing=list(range(k, 0, -1)),
        constant=[1] * k,
    )[kind]
    return dict(
        n=n,
        dx=draw(st.integers(1, 2)),
        dy=draw(st.integers(1, 2)),
        split=split,
        batch=draw(st.one_of(st.just(n_train), st.integers(1, n_train))),
        every=every,
        steps=steps,
        script=script,
        standardize=draw(st.booleans()),
        own_test=draw(st.integers(0, 4)) > 0,
        est_seed=draw(st.integers(0, 1000)),
        seed=draw(gen.seeds()),
    )


LR = 0.25


def data_of(c):
    """Distinct, well-separated rows; column 0 alone identifies the point."""
    rng = gen.rng_of(c)
    x = rng.normal(size=(c["n"], c["dx"]))
    y = rng.normal(size=(c["n"], c["dy"]))
    x[:, 0] = rng.permutation(c["n"]) + 3
    y[:, 0] = 2 * rng.permutation(c["n"]) - 7
    return x, y


def expected_history(script, every, steps):
    """-> [(step, value)], number of training steps"""
    best, since, hist = None, 0, []
    for s in range(1, steps + 1):
        if s % every == 0:
            v = float(script[s // every - 1])
            hist.append((s, v))
            if best is None or v > best:
                best, since = v, 0
            else:
                since += 1
        if since >= 2:
            return hist, s
    return hist, steps


def log_binomial(n, k):
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)


def _many_points():
    """Data sets and parts of many points."""
    common = dict(dx=1, dy=2, every=2, script=[1, 3], steps=5, own_test=True, standardize=True)
    return [
        dict(common, n=n, split=split, batch=batch, est_seed=n, seed=n + 1)
        for n, split, batch in [(6001, 0.5, 256), (6001, 0.5, 3000), (12000, 0.8, 9600), (5000, None, 5000)]
    ] + [
        # Long training
        dict(common, n=n, split=split, batch=batch, est_seed=n, seed=n + 1, steps=steps, every=100, script=list(range(30)))
        for n, split, batch, steps in [(120, 0.75, 30, 2200), (300, None, 8, 700)]
    ]


@facet(FACETS, rule="every run", strategy=_protocols, examples=_many_points, quick=12, thorough=1200, shards=6)
def training_protocol(c):
    import jax
    import jax.numpy as jnp

    from bmi.estimators import NeuralEstimatorBase

    x, y = data_of(c)
    seen = dict(train=[], test=[])

    def recorder(kind):
        def record(t, xs, ys):
            seen[kind].append((int(round(float(t) / LR)), np.array(xs), np.array(ys)))

        return record

    table = jnp.asarray([0.0] + [float(v) for v in c["script"]])

    def objective(critic, xs, ys):
        jax.debug.callback(recorder("train"), critic.t, xs, ys)
        return critic(xs[0], ys[0])

    def test_objective(critic, xs, ys):
        jax.debug.callback(recorder("test"), critic.t, xs, ys)
        i = jnp.round(critic.t / LR / c["every"]).astype(int)
        return table[jnp.clip(i, 0, len(table) - 1)]

    made = []

    def factory(key, dim_x, dim_y):
        made.append((dim_x, dim_y))
        return scripted_critic(0.0)

    est = NeuralEstimatorBase(
        mi_formula=objective,
        mi_formula_name="scripted",
        critic_factory=factory,
        mi_formula_test=test_objective if c["own_test"] else None,
        batch_size=c["batch"],
        max_n_steps=c["steps"],
        train_test_split=c["split"],
        test_every_n_steps=c["every"],
        learning_rate=LR,
        standardize=c["standardize"],
        verbose=False,
        seed=c["est_seed"],
    )
    require(est.trained_critic is None, "a critic before training")
    result = est.estimate_with_info(x.copy(), y.copy())
    jax.effects_barrier()
    require(made == [(c["dx"], c["dy"])], "dimensions given to the critic factory", got=made)

    script = c["script"]
    if not c["own_test"]:  # the training objective (the parameter itself) is also the test objective
        script = [LR * c["every"] * (i + 1) for i in range(len(script))]
    hist, n_steps = expected_history(script, c["every"], c["steps"])
    info = result.additional_information
    require(info["n_training_steps"] == n_steps, "number of training steps", got=info["n_training_steps"], want=n_steps)
    got = [(int(s), float(v)) for s, v in info["test_history"]]
    require([s for s, _ in got] == [s for s, _ in hist], "steps of the evaluations", got=got, want=hist)
    close([v for _, v in got], [v for _, v in hist], atol=5e-3, what="test values")
    best = float(result.mi_estimate)
    if hist:
        close(best, max(v for _, v in hist), atol=5e-3, what="reported estimate")
    else:
        require(np.isnan(best), "an estimate without any evaluation", got=best)
    close(est.trained_critic.t, n_steps * LR, atol=5e-3, what="parameter of the trained critic")

    # which points were used
    if c["standardize"]:
        x, y = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
    train, test = seen["train"], seen["test"]
    if not c["own_test"]:
        # evaluations of the shared objective: those which see all of the test part
        n_train = c["n"] if c["split"] is None else int(np.floor(c["split"] * c["n"]))
        if c["batch"] == c["n"] - (n_train if c["split"] is not None else 0):
            return f"shared objective, {len(hist)} evaluations"
        test = [r for r in train if len(r[1]) != c["batch"]]
        train = [r for r in train if len(r[1]) == c["batch"]]
    steps_seen = sorted(t for t, _, _ in train)
    require(steps_seen == list(range(n_steps)), "one optimisation step per step", got=steps_seen, want=n_steps)
    require(
        sorted(t for t, _, _ in test) == [s for s, _ in hist], "critic at the evaluations", got=sorted(t for t, _, _ in test)
    )
    batches, parts = [], []
    for kind, rows, out in (("train", train, batches), ("test", test, parts)):
        for _, a, b in rows:
            i, j = ids_of(a, x), ids_of(b, y)
            require((i == j).all(), f"{kind}: the pairing of X and Y is broken", x=i, y=j)
            require(len(set(i.tolist())) == len(i), f"{kind}: points repeated in a batch", got=i)
            out.append(frozenset(i.tolist()))
    for b in batches:
        require(len(b) == c["batch"], "size of a batch", got=len(b), want=c["batch"])
    require(len(set(parts)) <= 1, "evaluations on different parts")
    used = frozenset().union(*batches)
    if c["split"] is None:
        require(not parts or len(parts[0]) == c["n"], "evaluation on the whole data set", got=parts[:1])
        n_train = c["n"]
    else:
        n_train = int(np.floor(c["split"] * c["n"]))
        if parts:
            require(not (used & parts[0]), "held-out points were used for training", got=sorted(used & parts[0]))
            require(
                abs(len(parts[0]) - (1 - c["split"]) * c["n"]) <= 1.0,
                "size of the held-out part",
                got=len(parts[0]),
                n=c["n"],
                split=c["split"],
            )
            if c["batch"] == n_train:
                require(len(used | parts[0]) == c["n"], "the parts do not cover the data")
    if n_steps * c["batch"] >= 30 * n_train:
        want = c["n"] if c["split"] is None else c["n"] - len(parts[0]) if parts else n_train
        require(len(used) == want, "training points which are never used", got=len(used), want=want)
    # batches and the held-out part are drawn at random
    def unlikely(hits, n, p):
        return abs(hits - n * p) > 7 * np.sqrt(n * p * (1 - p)) + 5

    subsets = log_binomial(n_train, c["batch"])
    if subsets > 25 + 2 * np.log(n_steps):
        require(len(set(batches)) == n_steps, "the same batch in different steps", got=len(set(batches)), want=n_steps)
    if batches:
        share = c["batch"] / n_train
        for i in used:
            times = sum(i in b for b in batches) if n_steps > 100 else n_steps * share
            require(not unlikely(times, n_steps, share), "a point is used too often or rarely", point=i, times=times)
    if c["split"] is not None and parts and c["n"] >= 600:
        held = np.isin(np.arange(c["n"]), list(parts[0]))
        for name, where in (("first half", slice(0, c["n"] // 2)), ("even", slice(0, None, 2))):
            some = held[where]
            require(not unlikely(some.sum(), some.size, held.mean()), f"held-out points in the {name} of the data", got=some.mean())
    if n_steps >= 12 and 3 <= c["batch"] <= n_train - 3 and n_train >= 8:
        require(len(set(batches)) > 1, "the same batch in every step")
    return f"{len(hist)} evaluations, split {c['split']}"


# ------------------------------------------------------------------ real estimators

FAMILIES = ["infonce", "nwj", "dv", "mine"]


def real(family, **kw):
    from bmi import estimators as e

    cls = dict(mine=e.MINEEstimator, infonce=e.InfoNCEEstimator, nwj=e.NWJEstimator, dv=e.DonskerVaradhanEstimator)
    return cls[family](verbose=False, **kw)


def leaves(critic):
    import jax

    return [np.asarray(v, dtype=float) for v in jax.tree_util.tree_leaves(critic)]


@st.composite
def _perturbations(draw):
    return dict(
        family=draw(st.sampled_from(FAMILIES)),
        n=draw(st.sampled_from([7, 8, 10])),
        split=draw(st.sampled_from([0.5, 0.75, None])),
        backend=draw(st.sampled_from(["linear", "quadratic"])),
        est_seed=draw(st.integers(0, 1000)),
        dx=2,
        dy=1,
        seed=draw(gen.seeds()),
    )


def _perturbation_examples():
    base = dict(n=8, backend="linear", est_seed=3, dx=2, dy=1)
    out = [dict(base, family=f, split=0.75, seed=11 + i) for i, f in enumerate(FAMILIES)]
    return out + [dict(base, family=f, split=[None, 0.5][i % 2], seed=5 + i, n=7) for i, f in enumerate(FAMILIES[::-1])]


@facet(
    FACETS,
    rule="every case",
    strategy=_perturbations,
    quick=0,
    thorough=60,
    shards=8,
    spread=True,
    examples=_perturbation_examples,
)
def critic_depends_on_the_training_part_only(c):
    whole = c["split"] is None
    n_train = c["n"] if whole else int(np.floor(c["split"] * c["n"]))
    rng = gen.rng_of(c)
    x, y = rng.normal(size=(c["n"], 2)), rng.normal(size=(c["n"], 1))
    kw = dict(
        batch_size=n_train,
        max_n_steps=2,
        test_every_n_steps=1,
        train_test_split=c["split"],
        hidden_layers=[8],
        standardize=False,
        seed=c["est_seed"],
    )
    if c["family"] != "mine":
        kw["_train_backend"] = c["backend"]

    def run(a, b):
        est = real(c["family"], **kw)
        info = est.estimate_with_info(a, b).additional_information
        return leaves(est.trained_critic), [v for _, v in info["test_history"]]

    critic, history = run(x, y)
    in_train, seen = [], 0
    for i in range(c["n"]):
        x2, y2 = x.copy(), y.copy()
        x2[i] += 2.0
        y2[i] -= 3.0
        other, h = run(x2, y2)
        changed = any(not np.array_equal(u, v) for u, v in zip(critic, other))
        in_train.append(changed)
        if not changed:
            seen += h != history
    require(
        abs(sum(in_train) - (1.0 if whole else c["split"]) * c["n"]) < (1e-9 if whole else 1.0),
        "number of points on which the trained critic depends",
        got=sum(in_train),
        split=c["split"],
        n=c["n"],
    )
    require(whole or seen > 0, "the evaluations do not depend on any of the held-out points")
    return c["family"]


def jnp_objective(family):
    """The published definitions, for the gradients."""
    import jax
    import jax.numpy as jnp
    from jax.scipy.special import logsumexp

    def f(critic, xs, ys):
        s = jax.vmap(lambda a: jax.vmap(lambda b: critic(a, b))(ys))(xs)
        n = s.shape[0]
        pos = jnp.mean(jnp.diagonal(s))
        if family == "infonce":
            return pos - jnp.mean(logsumexp(s, axis=1)) + jnp.log(n)
        lse = logsumexp(jnp.where(jnp.eye(n, dtype=bool), -1e30, s)) - jnp.log(n * (n - 1))
        return pos - (lse if family == "dv" else jnp.exp(lse - 1))

    return f


@st.composite
def _trajectories(draw):
    return dict(
        family=draw(st.sampled_from(["infonce", "nwj", "dv"])),
        n=12,
        backend=draw(st.sampled_from(["linear", "quadratic"])),
        hidden=draw(st.sampled_from([[5], [6, 4]])),
        lr=draw(st.sampled_from([0.1, 0.03])),
        est_seed=draw(st.integers(0, 1000)),
        standardize=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


NAMES = dict(infonce="infonce", nwj="nwj", dv="donsker_varadhan")


@facet(
    FACETS,
    rule="gradients of the reference are not within rounding of zero",
    strategy=_trajectories,
    quick=3,
    thorough=250,
    shards=6,
    spread=True,
)
def trajectory_of_the_estimators(c):
    """Full-batch training equals gradient ascent with Adam on the estimator's own objective."""
    import jax
    import jax.numpy as jnp

    rng = gen.rng_of(c)
    x = rng.normal(size=(c["n"], 2))
    y = (x[:, :1] + 0.5 * rng.normal(size=(c["n"], 1))) * 1.5
    steps = 4
    kw = dict(
        batch_size=c["n"],
        test_every_n_steps=1,
        train_test_split=None,
        hidden_layers=c["hidden"],
        standardize=c["standardize"],
        seed=c["est_seed"],
        _train_backend=c["backend"],
    )
    start = real(c["family"], max_n_steps=1, learning_rate=1e-30, **kw)
    start.estimate(x, y)
    est = real(c["family"], max_n_steps=steps, learning_rate=c["lr"], **kw)
    info = est.estimate_with_info(x, y).additional_information

    if c["standardize"]:
        x, y = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
    xs, ys = jnp.asarray(x), jnp.asarray(y)
    shapes = sorted(v.size for v in leaves(est.trained_critic))
    widths = [3] + c["hidden"] + [1]
    want = sorted([a * b for a, b in zip(widths, widths[1:])] + widths[1:])
    require(shapes == want, "shape of the network", got=shapes, want=want)

    params, tree = jax.tree_util.tree_flatten(start.trained_critic)
    params = [np.asarray(v, dtype=float) for v in params]
    f = jax.jit(jax.value_and_grad(jnp_objective(c["family"])))
    m, v = [0 * p for p in params], [0 * p for p in params]
    done = info["n_training_steps"]
    smallest = np.inf
    history = []
    for s in range(1, done + 1):
        critic = jax.tree_util.tree_unflatten(tree, [jnp.asarray(p, dtype=jnp.float32) for p in params])
        value, grad = f(critic, xs, ys)
        history.append(float(value))
        g = [np.asarray(u, dtype=float) for u in jax.tree_util.tree_leaves(grad)]
        for i, gi in enumerate(g):
            m[i] = 0.9 * m[i] + 0.1 * gi
            v[i] = 0.999 * v[i] + 0.001 * gi**2
            size = np.sqrt(v[i] / (1 - 0.999**s))
            if c["family"] != "nwj" and gi.shape == (1,):
                # the objective does not depend on the last bias: its computed gradient is noise
                params[i] = np.full((1,), np.nan) if i == len(g) - 1 else params[i]
            nz = size[size > 0]
            if i < len(g) - 1 or c["family"] == "nwj":
                smallest = min(smallest, nz.min(initial=np.inf))
            params[i] = params[i] + c["lr"] * (m[i] / (1 - 0.9**s)) / (size + 1e-8)
        params = [np.where(np.isnan(p), 0.0, p) for p in params]
    critic = jax.tree_util.tree_unflatten(tree, [jnp.asarray(p, dtype=jnp.float32) for p in params])
    history.append(float(f(critic, xs, ys)[0]))
    got = [float(u) for _, u in info["test_history"]]
    require(len(got) == done, "evaluations", got=got)

    # the test value is the objective of the trained critic, whatever the training did
    s = np.array(jax.vmap(lambda a: jax.vmap(lambda b: est.trained_critic(a, b))(ys))(xs), dtype=float)
    close(got[-1], p19.reference(NAMES[c["family"]], s)[0], atol=1e-4, rtol=1e-4, what="test value of the trained critic")
    if smallest < 1e-4:
        return None
    close(got, history[1:], atol=5e-3, rtol=5e-3, what="test values along the trajectory")
    return f"{c['family']} ({c['backend']})"


@st.composite
def _too_large(draw):
    n = draw(st.integers(4, 30))
    split = draw(st.sampled_from([None, 0.5, 0.25, 0.8]))
    n_train = n if split is None else int(np.floor(split * n))
    return dict(
        family=draw(st.sampled_from(FAMILIES)),
        n=n,
        split=split,
        batch=n_train + draw(st.sampled_from([0, 1, 1, 2, 100])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every case", strategy=_too_large, quick=15, thorough=400, shards=1)
def too_large_batches(c):
    rng = gen.rng_of(c)
    x, y = rng.normal(size=(c["n"], 1)), rng.normal(size=(c["n"], 1))
    n_train = c["n"] if c["split"] is None else int(np.floor(c["split"] * c["n"]))
    est = real(
        c["family"],
        batch_size=c["batch"],
        train_test_split=c["split"],
        max_n_steps=1,
        test_every_n_steps=1,
        hidden_layers=[2],
    )
    n_test = c["n"] if c["split"] is None else c["n"] - n_train
    if c["batch"] < 2 or n_test < 2:
        return None  # the objectives need two points
    r = est.estimate_with_info(x, y)
    flag = r.additional_information.get("batch_size_larger_than_train", False)
    if c["batch"] > n_train:
        require(np.isnan(r.mi_estimate) and flag is True, "a batch larger than the training part", got=r)
        require(np.isnan(est.estimate(x, y)), "plain estimate")
        return f"{c['family']}: larger"
    require(not flag and not np.isnan(r.mi_estimate), "an admissible batch was refused", got=r)
    return f"{c['family']}: equal"


@st.composite
def _runs(draw):
    return dict(
        family=draw(st.sampled_from(FAMILIES)),
        steps=draw(st.sampled_from([1, 7, 20, 60])),
        every=draw(st.sampled_from([1, 2, 3, 10])),
        batch=draw(st.sampled_from([4, 10])),
        lr=draw(st.sampled_from([0.01, 0.1, 0.5])),
        split=draw(st.sampled_from([None, 0.5, 0.75])),
        correlation=draw(st.sampled_from([0.0, 0.9, 0.99])),
        est_seed=draw(st.integers(0, 1000)),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every run", strategy=_runs, quick=5, thorough=400, shards=4, spread=True)
def reports_are_consistent_with_the_protocol(c):
    """The recorded test values determine when the training stopped and the estimate."""
    rng = gen.rng_of(c)
    x = rng.normal(size=(24, 1))
    y = c["correlation"] * x + np.sqrt(1 - c["correlation"] ** 2) * rng.normal(size=(24, 1))
    est = real(
        c["family"],
        batch_size=c["batch"],
        max_n_steps=c["steps"],
        test_every_n_steps=c["every"],
        learning_rate=c["lr"],
        train_test_split=c["split"],
        hidden_layers=[4],
        seed=c["est_seed"],
    )
    r = est.estimate_with_info(x, y)
    info = r.additional_information
    values = [float(v) for _, v in info["test_history"]]
    if not np.isfinite(values).all():
        return None
    known = values + [0.0] * (c["steps"] // c["every"] - len(values))
    hist, n = expected_history(known, c["every"], c["steps"])
    require(info["n_training_steps"] == n, "number of training steps", got=info["n_training_steps"], want=n, values=values)
    require([int(s) for s, _ in info["test_history"]] == [s for s, _ in hist], "steps of the evaluations")
    if values:
        close(float(r.mi_estimate), max(values), atol=1e-6, what="estimate")
    else:
        require(np.isnan(float(r.mi_estimate)), "an estimate without any evaluation")
    require(
        ("early_stopping_not_triggered" in info) == (n == c["steps"] and not stopped(values)),
        "flag of early stopping",
        got=info,
    )
    return f"{c['family']}: {'stopped' if n < c['steps'] else 'complete'}"


def stopped(values):
    best = max(values) if values else 0
    return bool(values) and len(values) - 1 - values.index(best) >= 2


# ------------------------------------------------------------------ MINE


@st.composite
def _mine_runs(draw):
    n = draw(st.sampled_from([6, 10, 16]))
    return dict(
        n=n,
        batch=draw(st.one_of(st.none(), st.integers(2, n))),
        steps=draw(st.sampled_from([1, 3])),
        n_test=draw(st.sampled_from([0, 5])),
        alpha=draw(st.sampled_from([0.3, 0.9])),
        key=draw(st.integers(0, 10**6)),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every run", strategy=_mine_runs, quick=3, thorough=200, shards=4, spread=True)
def mine_batches(c):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    import bmi.estimators.neural._mine_estimator as mine

    calls = []

    def record(t, x, y):
        for row in np.stack([np.ravel(a) for a in np.broadcast_arrays(t, x, y)], axis=1):
            calls.append((float(row[0]), int(round(float(row[1]))), int(round(float(row[2])))))

    class Recording(eqx.Module):
        t: jax.Array

        def __call__(self, x, y):
            jax.debug.callback(record, self.t, x[0], y[0])
            return self.t * (1.0 + 0.5 * jnp.sin(3.7 * x[0] + 1.3 * y[0]))

    xs = np.arange(c["n"], dtype=np.float32)[:, None]
    ys = xs + 1000
    kw = {}
    test_ids = set(range(c["n"]))
    if c["n_test"]:
        xt = np.arange(100, 100 + c["n_test"], dtype=np.float32)[:, None]
        kw = dict(xs_test=jnp.asarray(xt), ys_test=jnp.asarray(xt + 1000))
        test_ids = set(range(100, 100 + c["n_test"]))
    log, critic = mine.mine_training(
        rng=jax.random.PRNGKey(c["key"]),
        critic=Recording(t=jnp.asarray(0.5)),
        xs=jnp.asarray(xs),
        ys=jnp.asarray(ys),
        alpha=c["alpha"],
        batch_size=c["batch"],
        test_every_n_steps=c["steps"],
        max_n_steps=c["steps"],
        learning_rate=0.1,
        verbose=False,
        **kw,
    )
    jax.effects_barrier()
    require(log.additional_information["n_training_steps"] == c["steps"], "number of steps")
    groups = {}
    for t, i, j in calls:
        groups.setdefault(t, []).append((i, j - 1000))
    if len(groups) != c["steps"] + 1:
        return None  # the parameter did not move: steps cannot be told apart
    final = float(critic.t)
    size = c["n"] if c["batch"] is None else c["batch"]
    shuffled = False
    for t, pairs in groups.items():
        pool, m = (test_ids, len(test_ids)) if t == final else (set(range(c["n"])), size)
        require(len(pairs) == 2 * m, "number of evaluations of the critic", got=len(pairs), want=2 * m)
        rest = list(pairs)
        xs_used = sorted({i for i, _ in pairs})
        require(len(xs_used) == m and set(xs_used) <= pool, "points of the batch", got=xs_used)
        for i in xs_used:
            require((i, i) in rest, "a paired point of the batch lost its partner", x=i, pairs=sorted(pairs))
            rest.remove((i, i))
        require(sorted(i for i, _ in rest) == xs_used, "X of the unpaired batch", got=sorted(rest))
        unpaired = [j for _, j in rest]
        require(len(set(unpaired)) == m and set(unpaired) <= pool, "unpaired Y", got=sorted(unpaired))
        shuffled |= any(i != j for i, j in rest)
    if size >= 10:
        require(shuffled, "the unpaired points are the paired ones in every step")
    return f"batch {c['batch'] is not None}, test {bool(c['n_test'])}"


@st.composite
def _loops(draw):
    n = draw(st.integers(3, 30))
    return dict(
        n=n,
        batch=draw(st.none() | st.integers(1, n)),
        n_test=draw(st.sampled_from([0, 0, 4, 9])),
        own_test=draw(st.booleans()),
        every=draw(st.integers(1, 4)),
        steps=draw(st.integers(1, 12)),
        stop=draw(st.booleans()),
        falling=draw(st.booleans()),
        lr=draw(st.sampled_from([0.01, 0.1, 0.5])),
        key=draw(st.integers(0, 10**6)),
    )


@facet(FACETS, rule="an option is left out", strategy=_loops, quick=8, thorough=600, shards=2)
def training_loop_on_its_own(c):
    """The loop without test points, test objective, batches or early stopping."""
    import jax
    import jax.numpy as jnp

    from bmi.estimators.neural._basic_training import basic_training

    seen = dict(train=[], test=[])

    def objective(name, slope):
        def record(t, xs, ys):
            seen[name].append((float(t), np.array(xs), np.array(ys)))

        def formula(critic, xs, ys):
            jax.debug.callback(record, critic.t, xs, ys)
            return slope * critic(xs[0], ys[0])

        return formula

    x = np.arange(c["n"], dtype=np.float32)[:, None]
    pool = dict(train=x, test=x)
    kw = {}
    if c["n_test"]:
        xt = np.arange(100, 100 + c["n_test"], dtype=np.float32)[:, None]
        pool["test"] = xt
        kw.update(xs_test=jnp.asarray(xt), ys_test=jnp.asarray(xt + 1000))
    if c["own_test"]:
        kw.update(mi_formula_test=objective("test", -1.0 if c["falling"] else 1.0))
    log, critic = basic_training(
        rng=jax.random.PRNGKey(c["key"]),
        critic=scripted_critic(0.0),
        mi_formula=objective("train", 1.0),
        xs=jnp.asarray(x),
        ys=jnp.asarray(x + 1000),
        batch_size=c["batch"],
        test_every_n_steps=c["every"],
        max_n_steps=c["steps"],
        early_stopping=c["stop"],
        learning_rate=c["lr"],
        verbose=False,
        **kw,
    )
    jax.effects_barrier()
    steps, at = 0, []
    while steps < c["steps"]:
        steps += 1
        if steps % c["every"] == 0:
            at.append(steps)
        if c["stop"] and c["own_test"] and c["falling"] and len(at) == 3:
            break
    info = log.additional_information
    require(info["n_training_steps"] == steps, "number of steps", got=info["n_training_steps"], want=steps)
    sign = -1.0 if c["own_test"] and c["falling"] else 1.0
    # Adam moves a parameter with a constant gradient by the learning rate in each step
    want = [(k, sign * k * c["lr"]) for k in at]
    got = [(int(k), float(v)) for k, v in info["test_history"]]
    require([k for k, _ in got] == at, "steps of the evaluations", got=got, want=want)
    close([v for _, v in got], [v for _, v in want], rtol=2e-3, what="evaluations")
    close(float(critic.t), steps * c["lr"], rtol=2e-3, what="critic at the end of the training")
    if c["own_test"]:
        calls = dict(train=seen["train"], test=seen["test"])
    else:  # both are calls of the same objective
        calls = dict(train=[s for s in seen["train"] if len(s[1]) and s[1].min() < 100], test=[])
        if c["n_test"]:
            calls["test"] = [s for s in seen["train"] if s[1].max() >= 100]
    size = dict(train=c["n"] if c["batch"] is None else c["batch"], test=len(pool["test"]))
    for name, records in calls.items():
        if name == "test" and (c["own_test"] or c["n_test"]):
            require(len(records) == len(at), "evaluations of the test objective", got=len(records), want=len(at))
        for t, xs, ys in records:
            ids = list(np.ravel(xs))
            require(np.array_equal(ys, xs + 1000), "pairs are broken", part=name)
            require(len(set(ids)) == len(ids) and set(ids) <= set(pool[name].ravel()), "points", part=name, got=ids)
            allowed = {size[name]} if c["own_test"] or c["n_test"] else {size["train"], size["test"]}
            require(len(ids) in allowed, "number of points", part=name, got=len(ids), want=allowed)
    return None if c["own_test"] and c["n_test"] and c["batch"] and c["stop"] else "an option is left out"
