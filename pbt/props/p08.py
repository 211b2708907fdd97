"""P08: mixture-model densities and pointwise MI are exact."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, zoo
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated construction trees (normal, Student, product, "
    "mixture, transform) evaluated by an independent double-precision reference at generated points"
)
LEVEL_NOTE = (
    "Trees to depth 3, up to 3 components per mixture, dims 1..3 per side, coordinate-wise and "
    "matrix bijectors; float32 tolerance 2e-3."
)
ASSUMPTIONS = [
    "transforms whose image is not the whole line are only used outermost (TFP evaluates "
    "densities outside of the image to NaN)"
]
N = 12
INNER = ["none", "shift", "scale", "sinh"]
OUTER = INNER + ["exp", "softplus", "chain", "matrix"]

# forward map, inverse map, log of the derivative as a function of the *input*
MAPS = {
    "none": (lambda u: u, lambda v: v, lambda u: 0 * u),
    "shift": (lambda u: u + 1.5, lambda v: v - 1.5, lambda u: 0 * u),
    "scale": (lambda u: -0.5 * u, lambda v: v / -0.5, lambda u: 0 * u + np.log(0.5)),
    "sinh": (np.sinh, np.arcsinh, lambda u: np.log(np.cosh(u))),
    "exp": (np.exp, np.log, lambda u: u),
    "softplus": (
        lambda u: np.logaddexp(0, u),
        lambda v: v + np.log(-np.expm1(-v)),
        lambda u: -np.logaddexp(0, -u),
    ),
    "chain": (
        lambda u: 2 * np.logaddexp(0, u) - 1,
        lambda v: (v + 1) / 2 + np.log(-np.expm1(-(v + 1) / 2)),
        lambda u: np.log(2) - np.logaddexp(0, -u),
    ),
}


def matrix_of(dim):
    """Lower-triangular matrix of the "matrix" bijector."""
    a = np.tril(np.fromfunction(lambda i, j: 0.3 * (i + 1) - 0.2 * j, (dim, dim)))
    return a + np.diag(0.7 + 0.4 * np.arange(dim) - np.diag(a))


def bijector(name, dim, lift):
    from tensorflow_probability.substrates import jax as tfp

    tfb = tfp.bijectors
    if name == "matrix":
        return tfb.ScaleMatvecTriL(scale_tril=matrix_of(dim).astype(np.float32))
    return zoo.bijector(name)


@st.composite
def _tree(draw, dim, depth):
    kinds = ["bmm_normal", "bmm_student"]
    if depth > 0:
        kinds += ["product", "mixture", "mixture", "transform", "transform"]
    kind = draw(st.sampled_from(kinds))
    if kind in ("bmm_normal", "bmm_student"):
        return draw(zoo.gaussian_like(kind, dims=[dim]))
    if kind == "product":
        return dict(kind=kind, of=draw(_tree(dim, depth - 1)))
    if kind == "transform":
        return dict(
            kind=kind,
            of=draw(_tree(dim, depth - 1)),
            fx=draw(st.sampled_from(INNER)),
            fy=draw(st.sampled_from(INNER)),
        )
    k = draw(st.integers(1, 3))
    return dict(
        kind=kind,
        weights=draw(st.lists(st.integers(1, 9) | st.sampled_from([1e-4, 0.003, 0.05]), min_size=k, max_size=k)),
        of=[draw(_tree(dim, depth - 1)) for _ in range(k)],
    )


@st.composite
def _cases(draw, depth=2):
    dim = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (3, 2)]))
    tree = draw(_tree(dim, depth))
    if draw(st.booleans()):
        fx, fy = draw(st.sampled_from(OUTER)), draw(st.sampled_from(OUTER))
        tree = dict(kind="transform", of=tree, fx=fx, fy=fy)
    return dict(tree=tree, dx=dim[0], dy=dim[1], spread=draw(st.sampled_from([1.0, 3.0])), seed=draw(gen.seeds()))


def build(c, dx, dy):
    from bmi.samplers import bmm

    kind = c["kind"]
    if kind == "transform":
        kw = {}
        if c["fx"] != "none":
            kw["x_transform"] = bijector(c["fx"], dx, c["fy"] == "matrix")
        if c["fy"] != "none":
            kw["y_transform"] = bijector(c["fy"], dy, c["fx"] == "matrix")
        return bmm.transform(build(c["of"], dx, dy), **kw)
    if kind == "mixture":
        w = np.asarray(c["weights"], dtype=float)
        return bmm.mixture(proportions=w / w.sum(), components=[build(x, dx, dy) for x in c["of"]])
    if kind == "product":
        d = build(c["of"], dx, dy)
        return bmm.ProductDistribution(d.dist_x, d.dist_y)
    return zoo.build_dist(c)


def log_density(c, x, y):
    """log p of (x, y); either may be None for the marginal of the other."""
    from scipy import special

    kind = c["kind"]
    if kind == "product":
        if x is None or y is None:
            return log_density(c["of"], x, y)
        return log_density(c["of"], x, None) + log_density(c["of"], None, y)
    if kind == "mixture":
        w = np.log(np.asarray(c["weights"], dtype=float))
        w -= special.logsumexp(w)
        parts = np.stack([wi + log_density(o, x, y) for wi, o in zip(w, c["of"])])
        return special.logsumexp(parts, axis=0)
    if kind == "transform":
        total = 0.0
        new = []
        for v, name in ((x, c["fx"]), (y, c["fy"])):
            if v is None:
                new.append(None)
                continue
            if name == "matrix":
                a = matrix_of(v.shape[1])
                u = np.linalg.solve(a, v.T).T
                total = total - np.log(np.abs(np.linalg.det(a)))
            else:
                _, inv, log_slope = MAPS[name]
                u = inv(v)
                total = total - np.sum(log_slope(u), axis=1)
            new.append(u)
        return log_density(c["of"], *new) + total
    s = gen.build_block_covariance(c["cov"])[0]
    m = zoo._mean(c)
    m = np.zeros(len(s)) if m is None else m
    dx = c["cov"]["dx"]
    if x is None:
        s, m, rows = s[dx:, dx:], m[dx:], y
    elif y is None:
        s, m, rows = s[:dx, :dx], m[:dx], x
    else:
        rows = np.hstack([x, y])
    k = len(s)
    z = np.linalg.solve(np.linalg.cholesky(s), (rows - m).T)
    q = np.sum(z * z, axis=0)
    logdet = np.linalg.slogdet(s)[1]
    if kind == "bmm_normal":
        return -0.5 * (q + logdet + k * np.log(2 * np.pi))
    df = c["df"]
    return (
        special.gammaln(0.5 * (df + k))
        - special.gammaln(0.5 * df)
        - 0.5 * (k * np.log(df * np.pi) + logdet)
        - 0.5 * (df + k) * np.log1p(q / df)
    )


def points(c):
    """Points (float32-representable) in the image of the outermost transform."""
    rng = gen.rng_of(c, 5)
    out = []
    tree = c["tree"]
    for dim, key in ((c["dx"], "fx"), (c["dy"], "fy")):
        u = np.clip(rng.normal(size=(N, dim)) * c["spread"], -4, 4)
        name = tree.get(key, "none") if tree["kind"] == "transform" else "none"
        if name == "matrix":
            v = u @ matrix_of(dim).T
        else:
            v = MAPS[name][0](u)
        out.append(v.astype(np.float32).astype(float))
    return out


def tol(ref):
    return dict(atol=2e-3, rtol=1e-3) if np.ndim(ref) else dict(atol=2e-3)


@facet(
    FACETS,
    rule="the tree is not a single normal distribution",
    strategy=_cases,
    quick=32,
    thorough=1200,
    shards=8,
)
def trees(c):
    x, y = points(c)
    d = build(c["tree"], c["dx"], c["dy"])
    require((d.dim_x, d.dim_y) == (c["dx"], c["dy"]), "dimensions", got=(d.dim_x, d.dim_y))
    joint, px, py = (
        log_density(c["tree"], x, y),
        log_density(c["tree"], x, None),
        log_density(c["tree"], None, y),
    )
    fx, fy = x.astype(np.float32), y.astype(np.float32)
    close(d.dist_x.log_prob(fx), px, **tol(px), what="log p(x)")
    close(d.dist_y.log_prob(fy), py, **tol(py), what="log p(y)")
    close(d.dist_joint.log_prob(np.hstack([fx, fy])), joint, **tol(joint), what="log p(x, y)")
    pmi = np.asarray(d.pmi(fx, fy))
    scale = np.max(np.abs(joint) + np.abs(px) + np.abs(py))
    close(pmi, joint - px - py, atol=4e-3 + 1e-3 * scale, what="pointwise MI")
    # Tighter where the densities are moderate
    ok = np.abs(joint) + np.abs(px) + np.abs(py) < 30
    close(pmi[ok], (joint - px - py)[ok], atol=1e-2, what="pointwise MI")
    one = np.asarray(d.pmi(fx[:1], fy[:1]))
    require(one.shape == (1,), "PMI of a single point", got=one.shape)
    if c["tree"]["kind"] == "product":
        close(pmi, np.zeros(N), atol=1e-4 + 1e-5 * scale, what="PMI of a product")
        require(d.analytic_mi == 0, "MI of a product", got=d.analytic_mi)
    kinds = sorted(set(zoo.kinds_in(c["tree"])))
    return None if kinds == ["bmm_normal"] else "+".join(kinds)


@st.composite
def _invariance_cases(draw):
    c = draw(_cases(depth=1))
    while c["tree"]["kind"] == "transform":
        c["tree"] = c["tree"]["of"]
    c["fx"], c["fy"] = draw(st.sampled_from(OUTER)), draw(st.sampled_from(OUTER))
    c["more"] = [draw(st.sampled_from(INNER)), draw(st.sampled_from(INNER))]
    return c


@facet(
    FACETS,
    rule="a transform other than the identity",
    strategy=_invariance_cases,
    quick=16,
    thorough=500,
    shards=8,
)
def invariance(c):
    """PMI(f(x), g(y)) of the transformed model is PMI(x, y) of the base; analytic MI is kept."""
    dx, dy = c["dx"], c["dy"]
    base = build(c["tree"], dx, dy)
    inner = dict(kind="transform", of=c["tree"], fx=c["more"][0], fy=c["more"][1])
    outer = dict(kind="transform", of=inner, fx=c["fx"], fy=c["fy"])
    d = build(outer, dx, dy)
    rng = gen.rng_of(c, 6)
    x = np.clip(rng.normal(size=(N, dx)), -2, 2)
    y = np.clip(rng.normal(size=(N, dy)), -2, 2)
    expected = np.asarray(base.pmi(x.astype(np.float32), y.astype(np.float32)))
    tx, ty = x, y
    for fx, fy in (c["more"], (c["fx"], c["fy"])):
        tx = tx @ matrix_of(dx).T if fx == "matrix" else MAPS[fx][0](tx)
        ty = ty @ matrix_of(dy).T if fy == "matrix" else MAPS[fy][0](ty)
    got = d.pmi(tx.astype(np.float32), ty.astype(np.float32))
    scale = max(1.0, float(np.max(np.abs(expected))))
    close(got, expected, atol=2e-2 * scale, what="PMI after the transforms")
    require(
        d.analytic_mi == base.analytic_mi, "analytic MI", got=(d.analytic_mi, base.analytic_mi)
    )
    if c["fx"] == c["fy"] == "none" and c["more"] == ["none", "none"]:
        return None
    return f"{c['fx']}/{c['fy']}"


@st.composite
def _separated(draw):
    k = draw(st.integers(2, 8))
    return dict(
        dx=draw(st.integers(1, 4)),
        dy=draw(st.integers(1, 4)),
        log_weights=draw(st.lists(gen.flt(-6, 0), min_size=k, max_size=k)),
        dfs=draw(st.lists(st.sampled_from([None, None, 1, 3.5, 20, 60, 200, 1000]), min_size=k, max_size=k)),
        distance=draw(st.sampled_from([0.5, 3.0, 12.0])),
        unit=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e-6, 1e5])),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="the smallest weight is below 0.05 and the components are apart",
    strategy=_separated,
    quick=12,
    thorough=700,
    shards=8,
)
def separated_components(c):
    """Mixtures of up to eight components, also rare ones, at points near each of them."""
    w = check_separated(c)
    if w.min() > 0.05 or c["distance"] < 1:
        return None
    return f"{len(w)} components, smallest weight {'below' if w.min() < 1e-3 else 'above'} 0.001"


@st.composite
def _large(draw):
    many_points = draw(st.booleans())
    k = draw(st.integers(1, 4) if many_points else st.integers(12, 60))
    return dict(
        dx=draw(st.integers(1, 2)),
        dy=draw(st.integers(1, 2)),
        log_weights=draw(st.lists(gen.flt(-3, 0), min_size=k, max_size=k)),
        dfs=draw(st.lists(st.sampled_from([None, None, 2.5, 20]), min_size=k, max_size=k)),
        distance=draw(st.sampled_from([0.5, 3.0])),
        points=draw(st.sampled_from([1000, 1025, 4097, 10_001, 33_000]) if many_points else st.just(4)),
        seed=draw(gen.seeds()),
    )


@facet(
    FACETS,
    rule="every case",
    strategy=_large,
    quick=6,
    thorough=250,
    shards=4,
)
def many_components_and_points(c):
    """Mixtures of dozens of components, and pointwise values of many points at once."""
    check_separated(c, c["points"])
    return "many points" if c["points"] > 4 else "many components"


def check_separated(c, per_component=4):
    from scipy import stats
    from scipy.special import logsumexp

    from bmi.samplers import bmm

    dx, dy, k, unit = c["dx"], c["dy"], len(c["dfs"]), c.get("unit", 1.0)
    n = dx + dy
    rng = gen.rng_of(c)
    w = 10.0 ** np.asarray(c["log_weights"])
    w /= w.sum()
    parts, laws, pts = [], [], []
    for df in c["dfs"]:
        a = np.eye(n) + 0.3 * rng.normal(size=(n, n)) / np.sqrt(n)
        cov = (unit**2 * (a @ a.T)).astype(np.float32).astype(float)
        cov = (cov + cov.T) / 2
        mean = (unit * c["distance"] * rng.normal(size=n)).astype(np.float32).astype(float)
        kw = dict(dim_x=dx, dim_y=dy, mean=mean)
        if df is None:
            parts.append(bmm.MultivariateNormalDistribution(covariance=cov, **kw))
        else:
            parts.append(bmm.MultivariateStudentDistribution(dispersion=cov, df=df, **kw))
        laws.append((df, mean, cov))
        pts.append(mean + unit * rng.normal(size=(per_component, n)))
    pts = np.vstack(pts).astype(np.float32)

    def log_p(keep):
        out = []
        for df, mean, cov in laws:
            m, s = mean[keep], cov[np.ix_(keep, keep)]
            q = np.atleast_2d(pts.astype(float)[:, keep])
            if df is None:
                out.append(stats.multivariate_normal(m, s).logpdf(q))
            else:
                out.append(stats.multivariate_t(m, s, df=df).logpdf(q))
        return logsumexp(np.stack([np.reshape(o, -1) for o in out]) + np.log(w)[:, None], axis=0)

    ix, iy = np.arange(dx), np.arange(dx, n)
    want = [log_p(np.arange(n)), log_p(ix), log_p(iy)]
    d = bmm.mixture(proportions=w.astype(np.float32), components=parts)
    x, y = pts[:, :dx], pts[:, dx:]
    got = [d.dist_joint.log_prob(pts), d.dist_x.log_prob(x), d.dist_y.log_prob(y)]
    size = 1 + 2e-3 * c["distance"]  # single precision of squared distances
    for name, u, v in zip(("x, y", "x", "y"), got, want):
        close(u, v, atol=4e-3 * size, rtol=1e-4, what=f"log p({name})")
    pmi = np.asarray(d.pmi(x, y))
    close(pmi, want[0] - want[1] - want[2], atol=1.2e-2 * size, rtol=1e-3, what="pointwise MI")
    # most points are far from the limits of single precision
    typical = float(np.median(np.abs(pmi - (want[0] - want[1] - want[2]))))
    require(typical <= 1e-4 * size, "typical error of the pointwise MI", got=typical)
    return w
