"""Generated descriptions of samplers (and combinators of them), and their construction.

A description is plain JSON: {"kind": ..., parameters...}."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen


def _cov(c):
    """Well-conditioned covariance derived from c["cov"] (see gen.block_covariances)."""
    return gen.build_block_covariance(c["cov"])[0]


def _mean(c):
    if c["mean"] is None:
        return None
    n = c["cov"]["dx"] + c["cov"]["dy"]
    return gen.rng_of(c["cov"], 7).normal(size=n) * c["mean"]


DIMS = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)]


@st.composite
def gaussian_like(draw, kind, dims=DIMS, max_rho=0.9):
    c = dict(
        kind=kind,
        cov=draw(gen.block_covariances(dims=dims, max_rho=max_rho, max_log_cond=0.6, max_log_scale=0.5)),
        mean=draw(st.sampled_from([None, 0.5, 3.0])),
    )
    if "student" in kind:
        c["df"] = draw(
            st.one_of(st.integers(1, 12), st.sampled_from([2.5, 0.9, 30, 7.3, 1.5]), gen.flt(0.8, 5))
        )
    return c


def bivariates():
    return st.fixed_dictionaries(
        dict(
            kind=st.just("bivariate"),
            rho=gen.flt(-0.95, 0.95),
            std_x=gen.flt(0.2, 5),
            std_y=gen.flt(0.2, 5),
            mean_x=gen.flt(-5, 5),
            mean_y=gen.flt(-5, 5),
        )
    )


def simple_samplers(dims=DIMS, jax_only=False):
    options = [
        gaussian_like("multinormal", dims=dims),
        bivariates(),
        st.fixed_dictionaries(dict(kind=st.just("additive"), eps=gen.flt(0.05, 3))),
        st.fixed_dictionaries(
            dict(kind=st.just("dum"), n=st.integers(1, 12), discrete=st.booleans())
        ),
        st.fixed_dictionaries(
            dict(
                kind=st.just("mdum"),
                ns=st.lists(st.integers(1, 8), min_size=1, max_size=3),
                discrete=st.booleans(),
            )
        ),
        st.fixed_dictionaries(
            dict(kind=st.just("zip"), p=gen.flt(0, 0.95), discrete=st.booleans())
        ),
        gaussian_like("bmm_normal", dims=dims),
    ]
    if not jax_only:
        options.append(gaussian_like("student", dims=dims))
    return st.one_of(options)


@st.composite
def bmm_dists(draw, dims=DIMS, students=True, depth=1, transforms=False):
    """Description of a JointDistribution (normal, Student, product, mixture, transform)."""
    dim = draw(st.sampled_from(dims))
    return draw(_bmm_of(dim, students, depth, transforms))


# Maps onto the whole line: TFP evaluates densities outside of the image to NaN, hence maps
# onto a part of it are not mixed with other components
BIJECTORS = ["none", "shift", "scale", "sinh"]


@st.composite
def _bmm_of(draw, dim, students, depth, transforms):
    kinds = ["bmm_normal", "bmm_normal"]
    if students:
        kinds += ["bmm_student", "bmm_student"]
    kinds.append("product")
    if depth > 0:
        kinds += ["mixture", "mixture", "mixture"]
        if transforms:
            kinds += ["transform", "transform", "transform"]
    kind = draw(st.sampled_from(kinds))
    if kind in ("bmm_normal", "bmm_student"):
        return draw(gaussian_like(kind, dims=[dim], max_rho=0.9))
    if kind == "product":
        return dict(kind="product", of=draw(gaussian_like("bmm_normal", dims=[dim])))
    if kind == "transform":
        return dict(
            kind="transform",
            of=draw(_bmm_of(dim, students, depth - 1, transforms)),
            fx=draw(st.sampled_from(BIJECTORS)),
            fy=draw(st.sampled_from(BIJECTORS)),
        )
    k = draw(st.integers(1, 3))
    return dict(
        kind="mixture",
        weights=draw(
            st.lists(st.integers(1, 6) | st.sampled_from([1, 0.001, 0.03]), min_size=k, max_size=k)
        ),
        of=[draw(_bmm_of(dim, students, depth - 1, transforms)) for _ in range(k)],
    )


def dims_of(c):
    kind = c["kind"]
    if "cov" in c:
        return c["cov"]["dx"], c["cov"]["dy"]
    if kind in ("bivariate", "additive", "dum", "zip"):
        return 1, 1
    if kind == "mdum":
        return len(c["ns"]), len(c["ns"])
    if kind in ("mixture",):
        return dims_of(c["of"][0])
    if kind in ("product", "transform", "bmm"):
        return dims_of(c["of"])
    if kind == "concat":
        ds = [dims_of(x) for x in c["of"]]
        return sum(d[0] for d in ds), sum(d[1] for d in ds)
    if kind == "transformed":
        dx, dy = dims_of(c["of"])
        return dx + (c["fx"] in EMBEDDINGS), dy + (c["fy"] in EMBEDDINGS)
    raise KeyError(kind)


def build_dist(c):
    """JointDistribution from its description."""
    from bmi.samplers import bmm

    kind = c["kind"]
    dx, dy = dims_of(c)
    if kind == "bmm_normal":
        return bmm.MultivariateNormalDistribution(
            dim_x=dx, dim_y=dy, covariance=_cov(c), mean=_mean(c)
        )
    if kind == "bmm_student":
        return bmm.MultivariateStudentDistribution(
            dim_x=dx, dim_y=dy, dispersion=_cov(c), mean=_mean(c), df=c["df"]
        )
    if kind == "product":
        d = build_dist(c["of"])
        return bmm.ProductDistribution(d.dist_x, d.dist_y)
    if kind == "mixture":
        w = np.asarray(c["weights"], dtype=float)
        return bmm.mixture(proportions=w / w.sum(), components=[build_dist(x) for x in c["of"]])
    if kind == "transform":
        return bmm.transform(
            build_dist(c["of"]), x_transform=bijector(c["fx"]), y_transform=bijector(c["fy"])
        )
    raise KeyError(kind)


def bijector(name):
    from tensorflow_probability.substrates import jax as tfp

    tfb = tfp.bijectors
    return {
        "none": lambda: None,
        "shift": lambda: tfb.Shift(1.5),
        "scale": lambda: tfb.Scale(-0.5),
        "exp": lambda: tfb.Exp(),
        "sinh": lambda: tfb.Sinh(),
        "softplus": lambda: tfb.Softplus(),
        "chain": lambda: tfb.Chain([tfb.Shift(-1.0), tfb.Scale(2.0), tfb.Softplus()]),
    }[name]()


# ------------------------------------------------------------ transforms of samples

EMBEDDINGS = ("append_norm", "append_zero")


def point_transform(name):
    """Maps of a single point (shape (d,)) in JAX; None stands for the default."""
    import jax.numpy as jnp

    return {
        "default": None,
        "identity": lambda x: x,
        "affine": lambda x: 2.0 * x + 1.0,
        "cube": lambda x: x**3,
        "reverse": lambda x: x[::-1],
        "index_scaled": lambda x: x * (1.0 + jnp.arange(x.shape[0])),
        "norm_scaled": lambda x: x * (1.0 + jnp.sum(x * x)),
        "append_norm": lambda x: jnp.concatenate([x, jnp.sum(x * x)[None]]),
        "append_zero": lambda x: jnp.concatenate([jnp.zeros(1), x]),
    }[name]


def row_reference(name, rows):
    """The same maps on (n, d) arrays, in double-precision NumPy."""
    a = np.asarray(rows, dtype=float)
    sq = np.sum(a * a, axis=1, keepdims=True)
    return {
        "default": lambda: a,
        "identity": lambda: a,
        "affine": lambda: 2 * a + 1,
        "cube": lambda: a**3,
        "reverse": lambda: a[:, ::-1],
        "index_scaled": lambda: a * (1.0 + np.arange(a.shape[1])),
        "norm_scaled": lambda: a * (1 + sq),
        "append_norm": lambda: np.hstack([a, sq]),
        "append_zero": lambda: np.hstack([np.zeros((len(a), 1)), a]),
    }[name]()


POINT_TRANSFORMS = [
    "default",
    "identity",
    "affine",
    "cube",
    "reverse",
    "index_scaled",
    "norm_scaled",
    "append_norm",
    "append_zero",
]


@st.composite
def samplers(draw, depth=2, dims=DIMS):
    """Any sampler: simple, mixture model, concatenation, transformed."""
    kinds = ["simple", "simple", "bmm"]
    if depth > 0:
        kinds += ["concat", "transformed", "transformed"]
    kind = draw(st.sampled_from(kinds))
    if kind == "simple":
        return draw(simple_samplers(dims=dims))
    if kind == "bmm":
        return dict(kind="bmm", of=draw(bmm_dists(dims=dims)), mi=draw(st.sampled_from([None, 0.25])))
    if kind == "concat":
        k = draw(st.integers(1, 3))
        return dict(kind="concat", of=[draw(samplers(depth=depth - 1, dims=dims)) for _ in range(k)])
    return dict(
        kind="transformed",
        of=draw(samplers(depth=depth - 1, dims=dims)),
        fx=draw(st.sampled_from(POINT_TRANSFORMS)),
        fy=draw(st.sampled_from(POINT_TRANSFORMS)),
        vectorise=draw(st.booleans()),
    )


def build(c):
    """Sampler from its description."""
    import bmi.samplers as bs

    kind = c["kind"]
    dx, dy = dims_of(c)
    if kind == "multinormal":
        return bs.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=_cov(c), mean=_mean(c))
    if kind == "student":
        return bs.SplitStudentT(dim_x=dx, dim_y=dy, dispersion=_cov(c), mean=_mean(c), df=c["df"])
    if kind == "bivariate":
        return bs.BivariateNormalSampler(
            correlation=c["rho"],
            std_x=c["std_x"],
            std_y=c["std_y"],
            mean_x=c["mean_x"],
            mean_y=c["mean_y"],
        )
    if kind == "additive":
        return bs.AdditiveUniformSampler(epsilon=c["eps"])
    if kind == "dum":
        return bs.DiscreteUniformMixtureSampler(n_discrete=c["n"], use_discrete_x=c["discrete"])
    if kind == "mdum":
        return bs.MultivariateDiscreteUniformMixtureSampler(
            ns_discrete=c["ns"], use_discrete_x=c["discrete"]
        )
    if kind == "zip":
        return bs.ZeroInflatedPoissonizationSampler(p=c["p"], use_discrete_y=c["discrete"])
    if kind in ("bmm_normal", "bmm_student"):
        return bs.bmm.BMMSampler(build_dist(c), mi_estimate_sample=64)
    if kind == "bmm":
        return bs.bmm.BMMSampler(build_dist(c["of"]), mi=c["mi"], mi_estimate_sample=64)
    if kind == "concat":
        return bs.IndependentConcatenationSampler([build(x) for x in c["of"]])
    if kind == "transformed":
        import jax

        fx, fy = point_transform(c["fx"]), point_transform(c["fy"])
        kw = dict(add_dim_x=int(c["fx"] in EMBEDDINGS), add_dim_y=int(c["fy"] in EMBEDDINGS))
        if not c["vectorise"]:
            fx = fx and jax.vmap(fx)
            fy = fy and jax.vmap(fy)
        return bs.TransformedSampler(
            build(c["of"]), transform_x=fx, transform_y=fy, vectorise=c["vectorise"], **kw
        )
    raise KeyError(kind)


def kinds_in(c):
    """All kinds which occur in a description (for labels)."""
    out = [c["kind"]]
    of = c.get("of")
    for x in of if isinstance(of, list) else [of] if of else []:
        out += kinds_in(x)
    return out


def scale_of(a):
    """Largest magnitude of an array (at least 1)."""
    return max(1.0, float(np.max(np.abs(np.asarray(a, dtype=float)))) if np.size(a) else 1.0)


def has_continuous(c):
    return True


__all__ = [n for n in dir() if not n.startswith("_")]
assert math
