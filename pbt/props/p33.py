"""P33: critics are the documented networks, and estimators expose the ones they trained."""

import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated architectures, parameters and points against a "
    "double-precision evaluation of the documented network; the critic exposed after generated training "
    "runs is evaluated by the definition of the objective and compared with the recorded test value"
)
LEVEL_NOTE = (
    "0..4 hidden layers of 1..9 units, 1..6 + 1..6 dimensions, parameters and inputs of magnitude 1e-3..1e3; "
    "training runs of up to 12 steps on up to 24 points."
)


def leaves(critic):
    import jax

    return [np.asarray(v) for v in jax.tree_util.tree_leaves(critic)]


def widths_of(c):
    return [c["dx"] + c["dy"]] + list(c["hidden"]) + [1]


def layers(critic, widths, what="critic"):
    """[(weights, biases)] in the order of the layers; the shapes are the documented ones."""
    ls = leaves(critic)
    want = []
    for a, b in zip(widths, widths[1:]):
        want += [(b, a), (b,)]
    require([v.shape for v in ls] == want, f"{what}: shapes of the parameters", got=[v.shape for v in ls], want=want)
    return [(ls[2 * i].astype(float), ls[2 * i + 1].astype(float)) for i in range(len(ls) // 2)]


def forward(ls, x, y):
    """-> value, magnitude of the terms which make it up"""
    z = np.concatenate([x, y]).astype(float)
    m = np.abs(z)
    for i, (w, b) in enumerate(ls):
        z, m = w @ z + b, np.abs(w) @ m + np.abs(b)
        if i < len(ls) - 1:
            z = np.maximum(z, 0.0)
    return z[0], m[0]


@st.composite
def _networks(draw):
    return dict(
        dx=draw(st.integers(1, 6)),
        dy=draw(st.integers(1, 6)),
        hidden=draw(st.lists(st.integers(1, 9), min_size=0, max_size=4)),
        container=draw(st.sampled_from(["list", "tuple"])),
        parameters=draw(st.sampled_from(["initial", "normal", "large", "integer"])),
        magnitude=draw(st.sampled_from([1e-3, 1.0, 10.0, 1e3])),
        key=draw(st.integers(0, 10_000)),
        seed=draw(gen.seeds()),
    )


def build(c, key=None):
    import jax
    from bmi.estimators.neural._critics import MLP

    hidden = tuple(c["hidden"]) if c["container"] == "tuple" else list(c["hidden"])
    return MLP(
        key=jax.random.PRNGKey(c["key"] if key is None else key), dim_x=c["dx"], dim_y=c["dy"], hidden_layers=hidden
    )


@facet(
    FACETS,
    rule="a network with at least one hidden layer, some of whose units are active and some are not",
    strategy=_networks,
    quick=60,
    thorough=3000,
    shards=4,
)
def network_is_the_documented_one(c):
    import jax
    import jax.numpy as jnp

    critic = build(c)
    widths = widths_of(c)
    start = layers(critic, widths)
    again = leaves(build(c))
    require(all(np.array_equal(a, b) for a, b in zip(leaves(critic), again)), "the same key gives different networks")
    other = leaves(build(c, key=c["key"] + 1))
    require(
        all(not np.array_equal(a, b) for a, b in zip(leaves(critic), other) if a.size > 1), "another key gives the same weights"
    )
    for (i, a), (j, b) in itertools.combinations(enumerate(start), 2):
        if a[0].shape == b[0].shape and a[0].size > 1:
            require(not np.array_equal(a[0], b[0]), "two layers start with the same weights", layers=(i, j))
    require(all(np.isfinite(v).all() for v in leaves(critic)), "initial parameters are not finite")

    rng = gen.rng_of(c)
    flat, tree = jax.tree_util.tree_flatten(critic)
    if c["parameters"] != "initial":
        scale = 30.0 if c["parameters"] == "large" else 1.0
        flat = [rng.normal(size=v.shape) * scale for v in flat]
        if c["parameters"] == "integer":
            flat = [np.round(2 * v) for v in flat]
        critic = jax.tree_util.tree_unflatten(tree, [jnp.asarray(v, dtype=jnp.float32) for v in flat])
    ls = layers(critic, widths)
    n = 8
    xs = (rng.normal(size=(n, c["dx"])) * c["magnitude"]).astype(np.float32)
    ys = (rng.normal(size=(n, c["dy"])) * c["magnitude"]).astype(np.float32)
    xs[0], ys[1] = 0.0, 0.0
    pairs = [forward(ls, x, y) for x, y in zip(xs, ys)]
    want, size = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
    single = critic(jnp.asarray(xs[2]), jnp.asarray(ys[2]))
    require(np.shape(single) == (), "the value of the critic is not a scalar", got=np.shape(single))
    tol = 1e-5 * max(widths) * size + 1e-30
    batch = np.asarray(jax.vmap(critic)(jnp.asarray(xs), jnp.asarray(ys)), dtype=float)
    for what, got, i in [("single point", float(single), [2]), ("vectorised", batch, list(range(n)))]:
        err = np.abs(np.asarray(got) - want[i])
        require((err <= tol[i]).all(), f"{what}: value of the critic", got=got, want=want[i], tolerance=tol[i])
    hidden = np.concatenate([ls[0][0] @ np.concatenate([x, y]) + ls[0][1] for x, y in zip(xs, ys)])
    if not c["hidden"]:
        return None
    return f"hidden{len(c['hidden'])}" if (hidden > 0).any() and (hidden < 0).any() else None


# --- the critic exposed by estimators ---------------------------------------------------------------

FAMILIES = dict(infonce="InfoNCEEstimator", nwj="NWJEstimator", dv="DonskerVaradhanEstimator", mine="MINEEstimator")


def objective(family, s):
    """Definition of the objective on the matrix of scores, in double precision."""
    n = len(s)
    paired = np.diag(s)
    if family == "infonce":
        return np.mean(paired - logsumexp(s, axis=1)) + np.log(n)
    off = s[~np.eye(n, dtype=bool)]
    lme = logsumexp(off) - np.log(off.size)
    if family == "dv":
        return paired.mean() - lme
    return paired.mean() - np.exp(lme - 1.0)


@st.composite
def _runs(draw):
    family = draw(st.sampled_from(sorted(FAMILIES)))
    n = draw(st.sampled_from([2, 3])) if family == "mine" else draw(st.sampled_from([4, 10, 24]))
    every = draw(st.sampled_from([1, 2, 3]))
    return dict(
        family=family,
        n=n,
        dx=draw(st.sampled_from([1, 2])),
        dy=draw(st.sampled_from([1, 2])),
        hidden=draw(st.sampled_from([[], [3], [4, 4], [2, 3, 2]])),
        every=every,
        steps=every * draw(st.integers(1, 4)),
        standardize=draw(st.booleans()),
        lr=draw(st.sampled_from([0.01, 0.1, 1.0])),
        again=draw(st.booleans()),
        est_seed=draw(st.integers(0, 100)),
        seed=draw(gen.seeds()),
    )


def _data(c, salt):
    rng = gen.rng_of(c, salt)
    x = rng.normal(size=(c["n"], c["dx"])) * 2 + 1
    y = rng.normal(size=(c["n"], c["dy"])) + x[:, :1]
    return x, y


@facet(
    FACETS,
    rule="a training run which ends with an evaluation on the whole data",
    strategy=_runs,
    quick=6,
    thorough=250,
    shards=6,
    spread=True,
)
def trained_critic_is_the_one_evaluated_last(c):
    import bmi.estimators.neural as neural

    est = getattr(neural, FAMILIES[c["family"]])(
        batch_size=c["n"],
        max_n_steps=c["steps"],
        test_every_n_steps=c["every"],
        train_test_split=None,
        learning_rate=c["lr"],
        hidden_layers=c["hidden"],
        standardize=c["standardize"],
        seed=c["est_seed"],
        verbose=False,
    )
    require(est.trained_critic is None, "a critic before training", got=est.trained_critic)
    if c["again"]:
        est.estimate(*_data(c, 1))
    x, y = _data(c, 0)
    info = est.estimate_with_info(x, y).additional_information
    step, last = info["test_history"][-1]
    require(step == info["n_training_steps"], "training ended between evaluations", got=info)
    ls = layers(est.trained_critic, widths_of(c), "trained critic")
    if c["standardize"]:
        x, y = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
    x, y = x.astype(np.float32), y.astype(np.float32)
    both = [[forward(ls, a, b) for b in y] for a in x]
    s, size = np.array([[p[0] for p in r] for r in both]), np.max([[p[1] for p in r] for r in both])
    tol = 1e-4 * (1 + size)
    if c["family"] == "mine":
        wants = [
            np.diag(s).mean() - (logsumexp([s[i, j] for i, j in enumerate(p)]) - np.log(c["n"]))
            for p in itertools.permutations(range(c["n"]))
        ]
        require(min(abs(last - w) for w in wants) <= tol, "last test value of the exposed critic", got=last, want=wants)
    else:
        want = objective(c["family"], s)
        if c["family"] == "nwj":
            tol = tol * (1 + abs(np.diag(s).mean() - want))
        close(last, want, atol=tol, what="last test value of the exposed critic")
    return c["family"]
