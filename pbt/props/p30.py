"""P30: marginal and spatial transforms are the documented diffeomorphisms."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import tasks as bt
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): closed forms in double precision (SciPy's matrix exponential "
    "for rotations), order, norms, inverses and determinants as metamorphic relations; chosen points "
    "are sent through the tasks with a stand-in sampler; brackets for the inverse"
)
LEVEL_NOTE = (
    "points from 1e-20 to 1e8 in magnitude, exact zeros, ties and neighbouring floats; up to 6 "
    "dimensions; rotation angles up to about 30 radians."
)

# --- points through the transforms of the tasks -----------------------------------------------


def points(c, n, d, rng):
    """Single-precision points of a style, as float32."""
    style = c["style"]
    if style == "normal":
        a = rng.normal(size=(n, d))
    elif style == "wide":
        a = rng.normal(size=(n, d)) * 30
    elif style == "magnitudes":
        a = rng.choice([-1, 1], size=(n, d)) * 10.0 ** rng.uniform(-20, 8, size=(n, d))
    elif style == "tail":
        a = rng.uniform(-8, 8, size=(n, d))
    elif style == "special":
        a = rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, math.pi, -math.pi, 4.0], size=(n, d))
    elif style == "unit":
        a = np.linspace(0, 1, n)[:, None] + np.zeros(d)
    else:  # one coordinate only
        a = np.zeros((n, d))
        a[:, rng.integers(d)] = rng.normal(size=n)
    a = a.astype(np.float32)
    a[1] = a[0]  # a repeated point
    # neighbouring numbers (not denormal ones, which are flushed to zero)
    a[2] = np.where(np.abs(a[0]) > 1e-30, np.nextafter(a[0], np.float32(np.inf)), a[0])
    return a


def stub_task(x, y):
    from bmi.benchmark.task import Task
    from bmi.samplers import BaseSampler

    class Stub(BaseSampler):
        def sample(self, n_points, rng):
            return x[:n_points], y[:n_points]

        def mutual_information(self):
            return 0.5

    return Task(sampler=Stub(dim_x=x.shape[1], dim_y=y.shape[1]), task_id="stub", task_name="Stub")


N = 24


def expm_error(size):
    """Accuracy of JAX's single-precision matrix exponential, by the norm of the matrix."""
    return np.where(size < 3.9, 2e-6 + 1e-6 * size, 1e-3 * size)


MARGINAL = ("wiggly", "normal_cdf", "half_cube", "asinh", "power")


@st.composite
def _task_points(draw):
    t = draw(st.sampled_from([*MARGINAL, "swissroll", "spiral", "rotate"]))
    styles = ["normal", "wide", "special", "axis"]
    if t in MARGINAL:
        styles += ["magnitudes", "tail"]
    dims = dict(swissroll=(1, 1), spiral=(2, 3), rotate=(3, 3)).get(t, (1, 1))
    c = dict(
        t=t,
        dx=1 if t == "swissroll" else draw(st.integers(dims[0], dims[0] + 3)),
        dy=draw(st.integers(dims[1], dims[1] + 3)),
        style="unit" if t == "swissroll" else draw(st.sampled_from(styles)),
        seed=draw(gen.seeds()),
    )
    if t == "spiral":
        c["speed"] = draw(st.sampled_from([None, 0.0, 0.25, 1.0, -0.7, math.pi, 1 / 3]))
        c["normalize"] = draw(st.sampled_from([None, True, False]))
    if t == "power":
        c["alpha"] = draw(st.one_of(st.sampled_from([1, 2, 0.5, 3]), gen.flt(0.05, 4)))
    return c


def check_increasing(x, z, resolution, what):
    """Coordinate-wise increasing beyond the resolution of single precision."""
    for j in range(x.shape[1]):
        order = np.argsort(x[:, j], kind="stable")
        dx, dz = np.diff(x[order, j].astype(float)), np.diff(z[order, j].astype(float))
        res = resolution(x[order, j].astype(float), z[order, j].astype(float))
        require(np.all(dz >= -res[1:]), f"{what}: not increasing", worst=dz.min())
        require(np.all(np.abs(dz[dx == 0]) == 0), f"{what}: equal points are sent to different ones")


@facet(FACETS, rule="every transform", strategy=_task_points, quick=40, thorough=2500, shards=4, spread=True,
       examples=lambda: [dict(t=t, dx=3 if t == "rotate" else 2, dy=3, style=s, seed=5, **(dict(alpha=1.5) if t == "power" else {}))
                         for t in (*MARGINAL, "rotate", "spiral") for s in ("tail", "normal")
                         if s == "normal" or t in MARGINAL])  # fmt: skip
def transformed_tasks(c):
    rng = gen.rng_of(c)
    x, y = points(c, N, c["dx"], rng), points(dict(c, style="normal") if c["t"] == "swissroll" else c, N, c["dy"], rng)
    tr = dict(c, name="Task" if c["t"] == "swissroll" else None)
    x0, y0 = x.copy(), y.copy()
    got = bt.apply(stub_task(x, y), tr).sample(N, 0)
    require(np.array_equal(x, x0) and np.array_equal(y, y0), "input was modified")
    want = bt.reference_map(tr, x, y)
    for a, z, w, name in zip((x, y), got, want, "XY"):
        what = f"{c['t']} of {name}"
        z = np.asarray(z, dtype=float)
        require(z.shape == w.shape, f"{what}: shape", got=z.shape, want=w.shape)
        norm = np.linalg.norm(a.astype(float), axis=1, keepdims=True)
        if c["t"] == "normal_cdf":
            tol = np.full_like(w, 1e-6)
        elif c["t"] == "swissroll":
            tol = np.full_like(w, 3e-6) if name == "X" else np.zeros_like(w)
        elif c["t"] == "wiggly":
            # the argument of a sine loses absolute precision with its size
            tol = 1e-6 * (1 + 5 * np.abs(a.astype(float)))
        elif c["t"] == "spiral":
            p = bt.recorded_by_transform(tr)
            angle = abs(p["speed"]) * norm**2
            tol = norm * (2e-6 + expm_error(1.01 * angle))
            tol[np.broadcast_to(angle > 300, tol.shape)] = np.inf
        elif c["t"] == "rotate":
            tol = np.broadcast_to(1e-5 * norm, w.shape)
        else:
            tol = 1e-5 * np.abs(w) + 1e-37
        gap = np.abs(z - w)
        require(np.all(gap <= tol), f"{what}: formula", worst=float(np.max(gap)), point=a[np.argmax(np.max(gap, axis=1))])
        if c["t"] in MARGINAL:
            scale = dict(normal_cdf=lambda v, f: np.full_like(v, 1e-6), wiggly=lambda v, f: 5e-7 * (1 + np.abs(v)))
            # symmetric formulas are evaluated monotonically up to an ulp
            res = scale.get(c["t"], lambda v, f: 4e-7 * np.abs(f) + 1e-37)
            check_increasing(a, z, res, what)
        if c["t"] == "spiral":
            small = angle[:, 0] < 40
            close(np.linalg.norm(z, axis=1)[small], norm[small, 0], rtol=5e-2, atol=1e-12, what=f"{what}: norms")
    return c["t"]


@st.composite
def _dims(draw):
    return dict(dx=draw(st.integers(3, 7)), dy=draw(st.integers(3, 7)))


@facet(FACETS, rule="every dimension", strategy=_dims, quick=8, thorough=25, spread=True)
def task_rotations(c):
    """The image of the coordinate vectors is a rotation matrix."""
    n = max(c["dx"], c["dy"])
    x, y = (np.eye(n, d).astype(np.float32) for d in (c["dx"], c["dy"]))
    for z, d in zip(bt.apply(stub_task(x, y), dict(t="rotate")).sample(n, 0), (c["dx"], c["dy"])):
        r = np.asarray(z, dtype=float)[:d]
        close(r @ r.T, np.eye(d), atol=1e-5, what="orthogonal")
        require(abs(np.linalg.det(r) - 1) < 1e-4, "orientation", got=np.linalg.det(r))
    return "rotation"


# --- functions ------------------------------------------------------------------------------------


@st.composite
def _elementary(draw):
    return dict(
        fn=draw(st.sampled_from(["half_cube", "normal_cdf"])),
        style=draw(st.sampled_from(["normal", "wide", "magnitudes", "tail", "special"])),
        shape=draw(st.sampled_from([[], [7], [3, 4]])),
        how=draw(st.sampled_from(["jax", "numpy", "jit"])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="every input", strategy=_elementary, quick=60, thorough=4000)
def elementary_functions(c):
    import jax
    import jax.numpy as jnp
    from scipy.special import ndtr

    from bmi import transforms

    a = points(c, 12, 1, gen.rng_of(c))[:, 0]
    a = a[0] if c["shape"] == [] else np.resize(a, c["shape"])
    fn = getattr(transforms, c["fn"])
    z = np.asarray((jax.jit(fn) if c["how"] == "jit" else fn)(a if c["how"] == "numpy" else jnp.asarray(a)), dtype=float)
    require(z.shape == a.shape, "shape", got=z.shape)
    a = a.astype(float)
    if c["fn"] == "half_cube":
        close(z, np.sign(a) * np.abs(a) ** 1.5, rtol=1e-6, atol=1e-30, what="half-cube")
    else:
        close(z, ndtr(a), atol=1e-6, what="normal CDF")
        require(np.all((z >= -1e-6) & (z <= 1 + 1e-6)), "outside [0, 1]", got=z)
    return c["fn"]


@st.composite
def _rolls(draw):
    return dict(n=draw(st.sampled_from([2, 50])), seed=draw(gen.seeds()), wide=draw(st.booleans()))


@facet(FACETS, rule="every sample", strategy=_rolls, quick=40, thorough=1500)
def swiss_roll(c):
    import jax
    import jax.numpy as jnp

    from bmi.transforms import swissroll2d

    rng = gen.rng_of(c)
    u = np.sort(rng.uniform(0, 1, size=c["n"])).astype(np.float32)
    u[0], u[-1] = 0.0, 1.0
    z = np.asarray(jax.vmap(swissroll2d)(jnp.asarray(u)[:, None]), dtype=float)
    t = 1.5 * np.pi * (1 + 2 * u.astype(float))
    close(z, np.stack([t * np.cos(t), t * np.sin(t)], axis=1) / 21, atol=3e-6, what="Swiss roll")
    radius = np.linalg.norm(z, axis=1)
    far = np.diff(u) > 1e-5
    require(np.all(np.diff(radius)[far] > 0), "not injective")
    return "curve"


@st.composite
def _spirals(draw):
    n = draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.sampled_from([9, 16])))
    return dict(
        n=n,
        whole=draw(st.booleans()),
        generator=draw(st.sampled_from(["canonical", "skew", "zero"])),
        initial=draw(st.sampled_from([None, None, "rotation", "reflection", "invertible", "singular"])),
        speed=draw(st.one_of(st.none(), st.sampled_from([1, 2, 0.0, -1.0, math.pi / 2]), gen.flt(-3, 3))),
        container=draw(st.sampled_from(["numpy", "jax", "list"])),
        log_radius=draw(st.sampled_from([-3, -1, 0, 0, 0.5])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="the point moves", strategy=_spirals, quick=50, thorough=3000, shards=4,
       examples=lambda: [dict(n=2, generator="canonical", initial=i, speed=math.pi / 2, container="numpy", log_radius=0, seed=s)
                         for s, i in enumerate([None, "rotation", "invertible"])])  # fmt: skip
def spirals(c):
    import jax
    import jax.numpy as jnp
    from scipy.linalg import expm

    from bmi import transforms

    rng = gen.rng_of(c)
    n = c["n"]
    if c["generator"] == "canonical":
        i, j = sorted(rng.choice(n, size=2, replace=False))
        g = np.zeros((n, n))
        g[i, j], g[j, i] = -1, 1
    elif c["generator"] == "skew":
        a = rng.normal(size=(n, n))
        g = a - a.T
    else:
        g = np.zeros((n, n))
    if c.get("whole") and c["generator"] != "skew":
        g = g.astype(int)
    initial = None
    if c["initial"] in ("rotation", "reflection"):
        initial = gen.orthogonal(rng, n)
        if (np.linalg.det(initial) > 0) != (c["initial"] == "rotation"):
            initial[0] *= -1
    elif c["initial"] == "invertible":
        initial = gen.orthogonal(rng, n) @ np.diag(rng.uniform(0.5, 2, size=n)) @ gen.orthogonal(rng, n)
    elif c["initial"] == "singular":
        initial = np.zeros((n, n))
        initial[0] = 1.0
    pack = dict(numpy=np.asarray, jax=jnp.asarray, list=lambda a: a.tolist())[c["container"]]
    kw = {} if c["speed"] is None else dict(speed=c["speed"])
    if initial is not None:
        kw["initial"] = pack(initial)
    speed = 1.0 if c["speed"] is None else c["speed"]
    spiral = transforms.Spiral(generator=pack(g), **kw)
    start = np.eye(n) if initial is None else initial
    x = rng.normal(size=(5, n)).astype(np.float32) * np.float32(10.0 ** c["log_radius"])
    x[-1] = 0.0
    z = np.array([np.asarray(spiral(jnp.asarray(p)), dtype=float) for p in x])
    require(z.shape == x.shape, "shape", got=z.shape)
    xs = x.astype(float)
    r2 = np.sum(xs**2, axis=1)
    angle = np.abs(speed) * np.linalg.norm(g, 1) * r2
    want = np.array([start @ expm(g * speed * r) @ p for r, p in zip(r2, xs)])
    error = 5e-6 + expm_error(1.01 * angle)
    tol = error * np.linalg.norm(start, 2) * np.sqrt(r2)
    require(np.all(np.abs(z - want) <= tol[:, None] + 1e-12), "formula", got=z, want=want)
    close(np.asarray(jax.vmap(spiral)(jnp.asarray(x)), dtype=float), z, atol=1e-4 * (1 + np.max(np.abs(z))), what="vectorised")
    if c["initial"] in (None, "rotation", "reflection"):
        gap = np.abs(np.linalg.norm(z, axis=1) - np.sqrt(r2))
        require(np.all(gap <= error * np.sqrt(r2) + 1e-7), "norm", got=z, point=xs)
    if c["initial"] != "singular":
        # undone by the opposite speed; the inverse of the initial map first
        back = transforms.Spiral(generator=pack(g), speed=-speed)
        w = np.array([np.asarray(back(jnp.asarray(p)), dtype=float) for p in np.linalg.solve(start, z.T).T.astype(np.float32)])
        # an error of the norm changes the angle of the way back
        gap = np.max(np.abs(w - xs), axis=1)
        bound = (2 * error * (1 + 2 * angle) * np.linalg.cond(start) + 2e-5) * np.sqrt(r2)
        require(np.all(gap[angle < 40] <= bound[angle < 40]), "inverse", got=w, point=xs)
    moved = np.max(np.abs(z[:-1] - xs[:-1])) > 1e-3
    return f"{c['generator']}, initial {c['initial']}" if moved else None


@st.composite
def _wrong_spirals(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, k=draw(st.integers(1, 4).filter(lambda k: k != n)), what=draw(st.sampled_from(["generator", "initial", "vector"])))


@facet(FACETS, rule="every shape", strategy=_wrong_spirals, quick=20, thorough=200)
def spirals_of_wrong_shapes(c):
    from bmi import transforms

    g = np.zeros((c["n"], c["n"]))
    if c["what"] == "generator":
        make = lambda: transforms.Spiral(np.zeros((c["n"], c["k"])))  # noqa: E731
    elif c["what"] == "vector":
        make = lambda: transforms.Spiral(np.zeros(c["n"]))  # noqa: E731
    else:
        make = lambda: transforms.Spiral(g, initial=np.eye(c["k"]))  # noqa: E731
    expect_raises(ValueError, make, "wrong shape")
    return c["what"]


@st.composite
def _matrices(draw):
    n = draw(st.one_of(st.integers(2, 9), st.integers(2, 9), st.sampled_from([20, 60])))
    return dict(
        n=n,
        i=draw(st.integers(-1, n)),
        j=draw(st.integers(-1, n)),
        jax=draw(st.booleans()),
        whole=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="a valid pair of indices", strategy=_matrices, quick=150, thorough=5000)
def generators(c):
    import jax.numpy as jnp

    from bmi import transforms

    n, i, j = c["n"], c["i"], c["j"]
    a = gen.rng_of(c).integers(-50, 50, size=(n, n))
    if not c["whole"]:
        a = a / 4
    s = transforms.skew_symmetrize(jnp.asarray(a) if c["jax"] else a)
    require(np.array_equal(np.asarray(s, dtype=float), (a - a.T) / 2), "skew-symmetric part", got=s)
    if not 0 <= i < j < n:
        expect_raises(ValueError, lambda: transforms.so_generator(n, i, j), "wrong indices")
        return None
    g = np.asarray(transforms.so_generator(n, i, j), dtype=float)
    want = np.zeros((n, n))
    want[i, j], want[j, i] = -1, 1
    require(np.array_equal(g, want), "generator", got=g)
    if (i, j) == (0, 1):
        require(np.array_equal(np.asarray(transforms.so_generator(n)), want), "default generator")
    return f"so({n})"


# --- inverses ---------------------------------------------------------------------------------------

FUNCTIONS = {
    "normal": (lambda jnp, e: (lambda x: 0.5 * (1 + e(x / 2**0.5))), 5.0),
    "logistic": (lambda jnp, e: (lambda x: 1 / (1 + jnp.exp(-x))), 12.0),
    "tanh": (lambda jnp, e: (lambda x: jnp.tanh(x)), 5.0),
    "cube": (lambda jnp, e: (lambda x: x * x * x), 100.0),
    "affine": (lambda jnp, e: (lambda x: 3.0 * x - 7.0), 1000.0),
    "exponential": (lambda jnp, e: (lambda x: jnp.exp(x)), 20.0),
    "steps": (lambda jnp, e: (lambda x: x + jnp.floor(x)), 50.0),
    "asinh": (lambda jnp, e: (lambda x: jnp.arcsinh(x)), 1000.0),
}


@st.composite
def _inverses(draw):
    name = draw(st.sampled_from(sorted(FUNCTIONS)))
    default = draw(st.integers(0, 3)) == 0
    half = FUNCTIONS[name][1]
    lo = -10.0 if default else draw(gen.flt(-half, half * 0.9))
    hi = 10.0 if default else lo + draw(st.floats(0.01, 1)) * (half - lo)
    return dict(
        fn=name, default=default, lo=lo, hi=hi, delta=draw(st.sampled_from([None, None, 0.5, 1e-3, 1e-6])),
        shape=draw(st.sampled_from([[], [16], [4, 4]])), seed=draw(gen.seeds()),
    )  # fmt: skip


@facet(FACETS, rule="every function", strategy=_inverses, quick=25, thorough=2500, shards=3)
def inverse(c):
    """The value returned for y is where the function passes y."""
    import jax.numpy as jnp
    from jax.scipy.special import erf

    from bmi.transforms import invert_cdf

    f = FUNCTIONS[c["fn"]][0](jnp, erf)
    kw = {} if c["default"] else dict(x_min=c["lo"], x_max=c["hi"])
    if c["delta"] is not None:
        kw["delta"] = c["delta"]
    rng = gen.rng_of(c)
    lo, hi = np.float32(c["lo"]), np.float32(c["hi"])
    x = rng.uniform(lo, hi, size=c["shape"]).astype(np.float32)
    y = np.asarray(f(jnp.asarray(x)))
    got = np.asarray(invert_cdf(f, **kw)(jnp.asarray(y)), dtype=np.float64)
    require(got.shape == tuple(c["shape"]), "shape", got=got.shape)
    size = max(abs(float(lo)), abs(float(hi)))
    ulp = 4e-7 * np.maximum(np.abs(got), 1e-6 * size)
    require(np.all((got >= lo - ulp) & (got <= hi + ulp)), "outside the bracket", got=got)
    delta = (1e-12 if c["delta"] is None else c["delta"]) + ulp
    below = np.asarray(f(jnp.asarray(np.maximum(got - delta, lo), jnp.float32)), dtype=float)
    above = np.asarray(f(jnp.asarray(np.minimum(got + delta, hi), jnp.float32)), dtype=float)
    slack = 1e-6 * (np.abs(y) + (7.0 if c["fn"] == "affine" else 1.0))
    require(np.all((below <= y + slack) & (y <= above + slack)), "inverse", got=got, point=x, value=y)
    return c["fn"]
