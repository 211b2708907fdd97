"""P19: neural variational objectives equal their definitions in both backends."""

import functools

import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

from pbt import core, gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): differential of value and analytic gradient against the "
    "published definitions evaluated in double precision on the score matrix; metamorphic relations "
    "and inequalities between the objectives"
)
LEVEL_NOTE = (
    "batches of 2..64 points, bilinear, distance and multi-layer critics with scores from 1e-3 to 1e4, "
    "coinciding points and constant critics; both backends, with and without compilation; linear-memory "
    "objectives of additive critics also for batches of up to 60,000 points."
)
LOSSES = ["infonce", "donsker_varadhan", "nwj"]
# Few shapes, as every one of them is compiled for every objective and backend.
SHAPES = dict(
    bilinear=[(2, 2, 3), (3, 1, 2), (16, 2, 2), (64, 1, 3)],
    distance=[(2, 2, 3), (16, 2, 2)],
    network=[(3, 1, 2), (16, 2, 2)],
)


def modules():
    import bmi.estimators.neural._backend_linear_memory as lin
    import bmi.estimators.neural._backend_quadratic_memory as quad

    return dict(linear=lin, quadratic=quad)


# Critics: parameters p = (W, a, b, c) and score a function of them.


def jax_critic(kind, p):
    import jax.numpy as jnp

    w, a, b, c = p

    def bilinear(x, y):
        return x @ w @ y + a @ x + b @ y + c

    def distance(x, y):
        return c - jnp.sum((w.T @ x - y) ** 2) + a @ x * (b @ y)

    def network(x, y):
        return jnp.sum(jnp.tanh(w * x[:, None] + y[None, :])) + jnp.dot(a, x) + jnp.dot(b, y) + c

    return dict(bilinear=bilinear, distance=distance, network=network)[kind]


def scores(kind, p, xs, ys):
    """-> score matrix in double precision, magnitude of its terms"""
    w, a, b, c = p
    ax, by = xs @ a, ys @ b
    big = 1 + np.abs(xs) @ np.abs(w) @ np.abs(ys).T + (np.abs(xs) @ np.abs(a))[:, None] + (np.abs(ys) @ np.abs(b))[None] + abs(c)
    if kind == "bilinear":
        s = xs @ w @ ys.T + ax[:, None] + by[None] + c
    elif kind == "distance":
        d = (xs @ w)[:, None, :] - ys[None]
        s = c - (d**2).sum(-1) + ax[:, None] * by[None]
        m = (np.abs(xs) @ np.abs(w))[:, None, :] + np.abs(ys)[None]
        big = 1 + abs(c) + (m**2).sum(-1) + np.outer(np.abs(xs) @ np.abs(a), np.abs(ys) @ np.abs(b))
    else:
        s = np.tanh(w[None, None] * xs[:, None, :, None] + ys[None, :, None, :]).sum((-1, -2))
        s = s + ax[:, None] + by[None] + c
        big = big + w.size
    return s, big.max()


def reference(loss, s):
    """-> value, derivative with respect to the scores, exponential part"""
    n = len(s)
    off = ~np.eye(n, dtype=bool)
    pos = np.diag(s).mean()
    if loss == "infonce":
        v = pos - logsumexp(s, axis=1).mean() + np.log(n)
        g = np.eye(n) / n - np.exp(s - logsumexp(s, axis=1, keepdims=True)) / n
        return v, g, 0.0
    lse = logsumexp(s[off])
    if loss == "donsker_varadhan":
        w = np.where(off, np.exp(s - lse), 0.0)
        return pos - (lse - np.log(n * (n - 1))), np.eye(n) / n - w, 0.0
    log_e = lse - np.log(n * (n - 1)) - 1
    with np.errstate(over="ignore"):
        e = np.exp(log_e)
        w = np.where(off, np.exp(s - 1) / (n * (n - 1)), 0.0)
    return pos - e, np.eye(n) / n - w, e


def bilinear_gradient(g, xs, ys):
    return xs.T @ g @ ys, (g.sum(1)[:, None] * xs).sum(0), (g.sum(0)[:, None] * ys).sum(0), g.sum()


@functools.lru_cache(maxsize=None)
def compiled(loss, backend, kind):
    import jax

    fn = getattr(modules()[backend], loss)

    def value(p, xs, ys):
        return fn(jax_critic(kind, p), xs, ys)

    return jax.jit(jax.value_and_grad(value))


@st.composite
def _cases(draw, shapes=None):
    kind = draw(st.sampled_from(["bilinear", "bilinear", "distance", "network"]))
    n, dx, dy = draw(st.sampled_from(shapes or SHAPES[kind]))
    return dict(
        n=n,
        dx=dx,
        dy=dy,
        kind=kind,
        log_scale=draw(st.sampled_from([-3, -1, 0, 0, 0.5, 1, 2, 3, 5])),
        offset=draw(st.sampled_from([0.0, 0.0, 1.0, -5.0, 40.0, -80.0, 1000.0, -1000.0])),
        zero=draw(st.sampled_from(["no", "no", "no", "no", "all", "only x", "only y", "no offset"])),
        points=draw(st.sampled_from(["distinct", "distinct", "repeated", "all equal", "diagonal"])),
        seed=draw(gen.seeds()),
    )


def make(c):
    rng = gen.rng_of(c)
    n, dx, dy = c["n"], c["dx"], c["dy"]
    s = 10.0 ** c["log_scale"]
    w, a, b = s * rng.normal(size=(dx, dy)), s * rng.normal(size=dx), s * rng.normal(size=dy)
    off = c["offset"]
    if c["zero"] in ("all", "only x", "only y"):
        w = 0 * w
        if c["zero"] != "only x":
            a = 0 * a
        if c["zero"] != "only y":
            b = 0 * b
    if c["zero"] == "no offset":
        off = 0.0
    xs, ys = rng.normal(size=(n, dx)), rng.normal(size=(n, dy))
    if c["points"] == "repeated":
        xs, ys = xs[rng.integers(0, n, size=n)], ys[rng.integers(0, n, size=n)]
    elif c["points"] == "all equal":
        xs, ys = np.repeat(xs[:1], n, 0), np.repeat(ys[:1], n, 0)
    elif c["points"] == "diagonal":
        m = min(dx, dy)
        ys[:, :m] = xs[:, :m]
        w[:m, :m] = np.abs(w[:m, :m]) * np.eye(m)
    p = [np.asarray(v, dtype=np.float32) for v in (w, a, b, off)]
    return p, xs.astype(np.float32), ys.astype(np.float32)


def double(values):
    return [np.asarray(v, dtype=float) for v in values]


@facet(
    FACETS,
    rule="objective and its exponentials within the single-precision range",
    strategy=_cases,
    quick=70,
    thorough=6000,
    shards=8,
)
def equals_the_definition(c):
    p, xs, ys = make(c)
    s, big = scores(c["kind"], double(p), *double([xs, ys]))
    err = 1.5e-6 * big
    grads = {}
    label = None
    for loss in LOSSES:
        want, g, e = reference(loss, s)
        if not e < 1e30:
            continue
        label = label or f"n={c['n']}, {c['kind']}"
        tol = 4 * err + 1e-5 + e * np.expm1(min(1.0, 4 * err)) + 2e-6 * e
        lists = []
        for backend in ("linear", "quadratic"):
            v, grad = compiled(loss, backend, c["kind"])(tuple(p), xs, ys)
            close(v, want, atol=tol, what=f"{loss} ({backend})")
            lists.append(double(grad))
            if loss == "infonce":
                require(float(v) <= np.log(c["n"]) + 4 * err + 1e-5, "InfoNCE exceeds log(batch size)", got=v)
        span = 1 + np.abs(xs).max() * (1 + np.abs(ys).max()) + np.abs(ys).max()
        if c["kind"] == "distance":
            span *= 1 + 4 * np.sqrt(big)
        gtol = (1 + e) * span * (1e-4 + np.expm1(min(1.0, 8 * err)))
        for name, u, v in zip("Wabc", *lists):
            close(u, v, atol=gtol, what=f"gradient of {loss} with respect to {name} in the two backends")
        if c["kind"] == "bilinear":
            for backend, got in zip(("linear", "quadratic"), lists):
                for name, u, v in zip("Wabc", got, bilinear_gradient(g, *double([xs, ys]))):
                    close(u, v, atol=gtol, what=f"gradient of {loss} with respect to {name} ({backend})")
        grads[loss] = lists
    return label


@st.composite
def _relations(draw):
    c = draw(_cases(shapes=[(2, 2, 3), (16, 2, 2)]))
    c["log_scale"] = min(c["log_scale"], 1)
    c["offset"] = draw(st.sampled_from([0.0, 1.0, -5.0]))
    c["relation"] = draw(st.sampled_from(["permute", "constant", "order", "eager"]))
    c["shift"] = draw(st.sampled_from([0.5, -3.0, 20.0, -500.0]))
    return c


@facet(FACETS, rule="objective within the single-precision range", strategy=_relations, quick=40, thorough=3000, shards=4)
def relations(c):
    p, xs, ys = make(c)
    s, big = scores(c["kind"], double(p), *double([xs, ys]))
    e = reference("nwj", s)[2]
    if not e < 1e30:
        return None
    err = 6e-6 * (big + abs(c["shift"])) + 1e-5
    rng = gen.rng_of(c, 1)
    perm = rng.permutation(c["n"])
    rel = c["relation"]
    shifted = p[:3] + [np.float32(p[3] + c["shift"])]
    value = {}
    for backend in ("linear", "quadratic"):
        for loss in LOSSES:
            f = compiled(loss, backend, c["kind"])
            v = value[loss, backend] = float(f(tuple(p), xs, ys)[0])
            tol = err + (e * np.expm1(min(1.0, 4 * err)) if loss == "nwj" else 0)
            if rel == "permute":
                close(f(tuple(p), xs[perm], ys[perm])[0], v, atol=2 * tol, what=f"{loss} of permuted pairs")
            elif rel == "constant" and loss != "nwj":
                close(f(tuple(shifted), xs, ys)[0], v, atol=2 * tol, what=f"{loss} of a shifted critic")
            elif rel == "eager":
                fn = getattr(modules()[backend], loss)
                close(fn(jax_critic(c["kind"], tuple(p)), xs, ys), v, atol=2 * tol, what=f"{loss} without compilation")
        tol = 2 * err + e * np.expm1(min(1.0, 4 * err))
        require(
            value["nwj", backend] <= value["donsker_varadhan", backend] + tol,
            "NWJ exceeds Donsker-Varadhan",
            value=value,
        )
    return rel


@st.composite
def _large(draw):
    n = draw(st.one_of(st.integers(65, 1000), st.integers(65, 4000)))
    return dict(
        n=n,
        losses=LOSSES,
        quadratic=n <= 1500,
        scale=draw(st.sampled_from([0.0, 0.3, 1.0, 3.0])),
        offset=draw(st.sampled_from([0.0, 2.0, -60.0, 300.0])),
        seed=draw(gen.seeds()),
    )


def _very_large():
    # More pairs than a 32-bit integer counts
    return [dict(n=47123, losses=["nwj"], quadratic=False, scale=1.0, offset=-3.0, seed=5)]


def _very_large_thorough():
    out = []
    for i, n in enumerate([16_385, 32_769, 46_341, 46_342, 50_001, 65_537]):
        for loss in LOSSES:
            out.append(dict(n=n, losses=[loss], quadratic=False, scale=[0.3, 1.0, 2.0][i % 3], offset=[-3.0, 0.0, 5.0][i % 3], seed=i))
    return out


@facet(
    FACETS,
    rule="objective within the single-precision range",
    strategy=_large,
    quick=6,
    thorough=300,
    shards=3,
    examples=lambda: _very_large_thorough() if core.tier() == "thorough" else _very_large(),
)
def large_batches(c):
    """For f(x, y) = u(x) + v(y) the sum over the pairs factorises, so the exact value is cheap."""
    import jax.numpy as jnp

    rng = gen.rng_of(c)
    n = c["n"]
    xs = rng.normal(size=(n, 1)).astype(np.float32)
    ys = (0.6 * xs + 0.8 * rng.normal(size=(n, 1))).astype(np.float32)
    s, off = np.float32(c["scale"]), np.float32(c["offset"])
    u, v = float(s) * xs[:, 0].astype(float), 0.5 * float(s) * ys[:, 0].astype(float) + float(off)

    def critic(x, y):
        return s * x[0] + 0.5 * s * y[0] + off

    lu, lv, ld = logsumexp(u), logsumexp(v), logsumexp(u + v)
    lse = lu + lv + np.log1p(-np.exp(ld - lu - lv))
    pos = (u + v).mean()
    log_pairs = np.log(n) + np.log(n - 1)
    err = 5e-6 * (1 + np.abs(u).max() + np.abs(v).max()) + 1e-4
    label = None
    for loss in c["losses"]:
        if loss == "infonce":
            want, tol = pos - (u.mean() + lv) + np.log(n), err
        elif loss == "donsker_varadhan":
            want, tol = pos - (lse - log_pairs), err
        else:
            log_e = lse - log_pairs - 1
            if log_e > 80:
                continue
            want, tol = pos - np.exp(log_e), err + np.exp(log_e) * np.expm1(2 * err)
        for backend in ("linear", "quadratic") if c["quadratic"] else ("linear",):
            fn = getattr(modules()[backend], loss)
            got = float(fn(critic, jnp.asarray(xs), jnp.asarray(ys)))
            close(got, want, atol=tol, what=f"{loss} ({backend}) of {n} points")
        label = "more than 46341 points" if n > 46341 else "more than 1500 points" if n > 1500 else "at most 1500 points"
    return label
