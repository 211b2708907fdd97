"""P06: transformed samplers push the base sample forward row by row."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen, zoo
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated chains of transforms over generated base "
    "samplers; differential against a NumPy reference applied to the base sample"
)
LEVEL_NOTE = (
    "Chains of up to 3 transformed samplers over every sampler kind, 9 maps per side (including "
    "maps mixing coordinates and embeddings), per-point and vectorised; float32 tolerance."
)

NS = [1, 4, 9, 33]


@st.composite
def _chains(draw):
    base = draw(zoo.samplers(depth=0, dims=[(1, 1), (1, 2), (2, 1), (3, 2)]))
    links = draw(
        st.lists(
            st.fixed_dictionaries(
                dict(
                    fx=st.sampled_from(zoo.POINT_TRANSFORMS),
                    fy=st.sampled_from(zoo.POINT_TRANSFORMS),
                    vectorise=st.booleans(),
                )
            ),
            min_size=1,
            max_size=3,
        )
    )
    return dict(base=base, links=links, n=draw(st.sampled_from(NS)), seed=draw(gen.seeds()))


def magnitude(a):
    return float(max(1.0, np.max(np.abs(a))))


@facet(
    FACETS,
    rule="some transform differs from the identity",
    strategy=_chains,
    quick=45,
    thorough=1500,
    shards=4,
)
def chains(c):
    s = zoo.build(c["base"])
    base = s
    x, y = (np.asarray(v, dtype=float) for v in base.sample(c["n"], c["seed"]))
    mi = None
    if "mi" in c["base"] or c["base"]["kind"] not in ("bmm", "bmm_normal"):
        mi = float(base.mutual_information())
    dx, dy = zoo.dims_of(c["base"])
    desc = c["base"]
    mag_x = mag_y = 1.0
    for link in c["links"]:
        desc = dict(kind="transformed", of=desc, **link)
        # The sampler is built on the previous *instance*
        import jax

        import bmi.samplers as bs

        fx, fy = zoo.point_transform(link["fx"]), zoo.point_transform(link["fy"])
        if not link["vectorise"]:
            fx, fy = fx and jax.vmap(fx), fy and jax.vmap(fy)
        ex, ey = int(link["fx"] in zoo.EMBEDDINGS), int(link["fy"] in zoo.EMBEDDINGS)
        kwargs = dict(add_dim_x=ex, add_dim_y=ey)
        if not (ex or ey):
            kwargs = {}
        if fx is not None:
            kwargs["transform_x"] = fx
        if fy is not None:
            kwargs["transform_y"] = fy
        if not link["vectorise"]:
            kwargs["vectorise"] = False
        prev, s = s, bs.TransformedSampler(s, **kwargs)
        px, py = (np.asarray(v) for v in prev.sample(c["n"], c["seed"]))
        tx, ty = s.transform(px, py)
        ref_x, ref_y = zoo.row_reference(link["fx"], px), zoo.row_reference(link["fy"], py)
        # Intermediate products of the maps bound the rounding error
        mag_x, mag_y = magnitude(ref_x), magnitude(ref_y)
        close(tx, ref_x, rtol=2e-5, atol=1e-5 * mag_x, what="transform of X")
        close(ty, ref_y, rtol=2e-5, atol=1e-5 * mag_y, what="transform of Y")
        sx, sy = s.sample(c["n"], c["seed"])
        close(sx, ref_x, rtol=2e-5, atol=1e-5 * mag_x, what="sample of f(X)")
        close(sy, ref_y, rtol=2e-5, atol=1e-5 * mag_y, what="sample of g(Y)")
        dx, dy = dx + ex, dy + ey
        require((s.dim_x, s.dim_y) == (dx, dy), "dimensions", got=(s.dim_x, s.dim_y), want=(dx, dy))
        require(s.dim_total == dx + dy, "total dimension", got=s.dim_total)
        if link["fx"] in ("default", "identity"):
            require(np.array_equal(np.asarray(sx), px), "X changed by an identity")
        if link["fy"] in ("default", "identity"):
            require(np.array_equal(np.asarray(sy), py), "Y changed by an identity")
    if mi is not None:
        require(float(s.mutual_information()) == mi, "MI differs from the base", base=mi)
    # The base sampler is not influenced
    bx, by = base.sample(c["n"], c["seed"])
    require(np.array_equal(np.asarray(bx, dtype=float), x), "the base sample changed")
    require(np.array_equal(np.asarray(by, dtype=float), y), "the base sample changed")
    maps = {m for link in c["links"] for m in (link["fx"], link["fy"])}
    if maps <= {"default", "identity"}:
        return None
    kind = "embedding" if maps & set(zoo.EMBEDDINGS) else "same dims"
    return f"{len(c['links'])} links, {kind}"


LARGE = [1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 65536]


@st.composite
def _large_chains(draw):
    base = st.one_of(zoo.bivariates(), st.just(dict(kind="additive", eps=0.4)))
    n = draw(st.sampled_from(LARGE)) + draw(st.sampled_from([0, 0, 0, -1, 1]))
    return dict(draw(_chains()), base=draw(base), n=n)


@facet(
    FACETS,
    rule="some transform differs from the identity",
    strategy=_large_chains,
    quick=12,
    thorough=300,
    shards=4,
    spread=True,
)
def large_samples(c):
    return chains(c)


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            base=zoo.samplers(depth=0, dims=[(3, 4), (4, 4), (1, 1), (2, 3)]),
            dx=st.integers(-2, 3),
            dy=st.integers(-2, 3),
        )
    ),
    quick=60,
    thorough=500,
)
def dimensions_never_decrease(c):
    import bmi.samplers as bs

    base = zoo.build(c["base"])
    bx, by = zoo.dims_of(c["base"])

    def make():
        return bs.TransformedSampler(base, add_dim_x=c["dx"], add_dim_y=c["dy"])

    if min(c["dx"], c["dy"]) < 0:
        expect_raises(ValueError, make, "decreased dimensionality")
        return "rejected"
    s = make()
    want = (bx + c["dx"], by + c["dy"])
    require((s.dim_x, s.dim_y) == want, "declared dimensions", got=(s.dim_x, s.dim_y), want=want)
    return "accepted"


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            base=zoo.simple_samplers(dims=[(1, 1), (1, 2), (2, 2)]),
            k=st.integers(1, 4),
            n=st.sampled_from([2, 5]),
            seed=gen.seeds(),
        )
    ),
    quick=60,
    thorough=1000,
)
def whole_sample_transforms(c):
    """Already vectorised transforms receive the whole (n, dim) arrays, unchanged."""
    import bmi.samplers as bs

    base = zoo.build(c["base"])
    seen = []

    def f(a):
        seen.append(("x", np.asarray(a)))
        return np.cumsum(np.asarray(a, dtype=float), axis=0) * c["k"]

    def g(a):
        seen.append(("y", np.asarray(a)))
        return np.asarray(a, dtype=float)[::-1] + c["k"]

    s = bs.TransformedSampler(base, transform_x=f, transform_y=g, vectorise=False)
    sx, sy = s.sample(c["n"], c["seed"])
    bx, by = (np.asarray(v) for v in base.sample(c["n"], c["seed"]))
    for side, arg in seen:
        want = bx if side == "x" else by
        require(np.array_equal(arg, want), f"the transform of {side} received another array")
    close(sx, np.cumsum(bx.astype(float), axis=0) * c["k"], rtol=1e-6, atol=1e-6, what="f(X)")
    close(sy, by.astype(float)[::-1] + c["k"], rtol=1e-6, atol=1e-6, what="g(Y)")
    return c["base"]["kind"]
