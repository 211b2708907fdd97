"""P32: tasks generated for a desired mutual information attain it."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, workflows
from pbt import tasks as bt
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated increasing functions (with rejected parts of the "
    "bracket, jumps and plateaus) for the search; generated attainable targets for the task generators, "
    "checked against the mutual information of the documented Gaussian model"
)
LEVEL_NOTE = (
    "8 families of functions, brackets up to 1e4, rejected parts up to the half of the bracket; targets "
    "over the attainable range for 2..30 dimensions."
)

_MODULES = {}


def modules():
    if not _MODULES:
        _MODULES["high"] = workflows.load("_high_mi_utils", "projects", "Beyond_Normal", "_high_mi_utils.py")
        _MODULES["sparse"] = workflows.load("_sparsity_utils", "projects", "Beyond_Normal", "_sparsity_utils.py")
    return _MODULES["high"], _MODULES["sparse"]


# --- the search --------------------------------------------------------------------------------

FUNCTIONS = {
    "affine": lambda u: 2 * u - 3,
    "cube": lambda u: (u - 0.4) ** 3,
    "exp": lambda u: math.exp(6 * u),
    "root": lambda u: math.sqrt(max(u, 0)),
    "logistic": lambda u: 5 / (1 + math.exp(-12 * (u - 0.5))),
    "blowup": lambda u: -math.log1p(-min(u, 1 - 1e-12)),
    "kink": lambda u: u if u < 0.3 else 0.3 + 20 * (u - 0.3),
    "jump": lambda u: u if u < 0.6 else u + 1,
}


@st.composite
def _searches(draw):
    return dict(
        fn=draw(st.sampled_from(sorted(FUNCTIONS))),
        lo=draw(st.sampled_from([0.0, -1.0, 3.0, -1e3])),
        width=draw(st.sampled_from([1.0, 0.01, 10.0, 1e4])),
        at=draw(gen.flt(0.0, 1.0)),
        outside=draw(st.sampled_from([None] * 4 + ["above", "below"])),
        reject=draw(st.sampled_from([None, None, "top", "bottom", "both"])),
        part=draw(gen.flt(0.01, 0.5)),
        delta=draw(st.sampled_from([None, None, 1e-2, 1e-6])),
        seed=draw(st.one_of(st.none(), st.integers(0, 1000))),
    )


@facet(FACETS, rule="the target is attained", strategy=_searches, quick=250, thorough=15000, shards=2)
def search(c):
    binsearch = modules()[0].binsearch
    lo, hi = c["lo"], c["lo"] + c["width"]
    f = FUNCTIONS[c["fn"]]
    # where the function accepts its argument
    a = c["part"] if c["reject"] in ("bottom", "both") else 0.0
    b = 1 - c["part"] if c["reject"] in ("top", "both") else 1.0
    b = max(b, a + 0.05)
    calls = []

    def func(x):
        u = (x - lo) / c["width"]
        require(-1e-9 <= u <= 1 + 1e-9, "evaluated outside of the bracket", got=x, bracket=(lo, hi))
        calls.append(x)
        if not a <= u <= b:
            raise ValueError("not defined here")
        return f(u)

    u = a + (b - a) * c["at"]
    target = f(u)
    if c["outside"]:
        target = f(b) + 0.5 if c["outside"] == "above" else f(a) - 0.5
    delta = 1e-4 if c["delta"] is None else c["delta"]
    kw = {} if c["delta"] is None else dict(delta=delta)
    if c["seed"] is not None:
        kw["seed"] = c["seed"]
    kw["max_iter"] = 5000 if not c["outside"] else 300
    got = binsearch(func, target, lo, hi, **kw)
    again = binsearch(func, target, lo, hi, **kw)
    require(got == again, "not reproducible", got=(got, again))
    if c["outside"]:
        require(got is None, "a solution of an unattainable equation", got=got, target=target)
        return None
    if got is None:
        # values next to a jump, and those finer than a float can resolve, need not be found
        fine = abs(f(min(u + 1e-13, b)) - f(max(u - 1e-13, a))) > delta / 2
        # next to rejected values, the search depends on hits by chance
        end = [1e-9 if side == 0.0 else 0.01 for side in (a, 1 - b)]
        require(c["fn"] == "jump" or fine or not a + end[0] < u < b - end[1], "no solution was found", target=target, at=u)
        return None
    require(lo <= got <= hi, "solution outside of the bracket", got=got, bracket=(lo, hi))
    require(abs(func(got) - target) <= delta, "not a solution", got=got, value=func(got), target=target)
    return f"{c['fn']}, {'whole' if c['reject'] is None else c['reject']}"


# --- tasks of desired mutual information -----------------------------------------------------------


@st.composite
def _gaussian(draw):
    kind = draw(st.sampled_from(["gaussian", "gaussian", "spiral", "half_cube"]))
    return dict(
        kind=kind,
        dim=draw(st.integers(3 if kind == "spiral" else 2, 30)),
        mi=draw(st.one_of(gen.flt(0.001, 6), st.sampled_from([0.0, 0.02, 1.0, 2.5, 5.0, 12.0]))),
        speed=draw(st.sampled_from([None, 0.25, 1.0])),
        family=draw(st.sampled_from(["family", "Gaussian (sparse)"])),
    )


@facet(FACETS, rule="positive target", strategy=_gaussian, quick=30, thorough=800, shards=3)
def gaussian_tasks(c):
    """Two pairs of coordinates of one correlation."""
    high = modules()[0]
    fn = dict(gaussian=high.generate_sparse_gaussian_task, spiral=high.generate_spiral_task, half_cube=high.generate_half_cube_task)
    kw = dict(mi=c["mi"], family_name=c["family"], dim=c["dim"])
    if c["kind"] == "spiral" and c["speed"] is not None:
        kw["speed"] = c["speed"]
    task = fn[c["kind"]](**kw)
    require(task is not None, "no task of an attainable mutual information", got=c)
    mi = float(task.mutual_information)
    require(abs(mi - c["mi"]) <= 1.01e-4, "mutual information", got=mi, want=c["mi"])
    require((task.dim_x, task.dim_y) == (c["dim"], c["dim"]), "dimensions")
    p = task.params
    for k, v in dict(desired_mi=c["mi"], dim=c["dim"], family_name=c["family"]).items():
        require(p.get(k) == v, "recorded parameters", key=k, got=p.get(k), want=v)
    require(abs(p["true_mi"] - mi) < 1e-9, "recorded mutual information", got=p["true_mi"], want=mi)
    rho = p["correlation"]
    require(0 <= rho < 1, "correlation", got=rho)
    close(mi, -math.log1p(-rho * rho), atol=1e-9, rtol=1e-9, what="mutual information of two pairs")
    if c["kind"] == "spiral":
        want = 1 / 3 if c["speed"] is None else c["speed"]
        require(p.get("speed") == want, "recorded speed", got=p.get("speed"), want=want)
    # the sample has this structure
    n, d = 4000, c["dim"]
    if c["kind"] != "gaussian" and d > 6:
        return f"{c['kind']}" if c["mi"] > 0 else None
    x, y = (np.asarray(a, dtype=float) for a in task.sample(n, 5))
    require(x.shape == y.shape == (n, d), "shape of the sample", got=x.shape)
    if c["kind"] == "half_cube":
        x, y = (np.sign(a) * np.abs(a) ** (2 / 3) for a in (x, y))
    elif c["kind"] == "spiral":
        s = p["speed"] / d if p["normalize_speed"] else p["speed"]
        x, y = bt.rotate_pair(x, 0, 1, -s * (x**2).sum(1)), bt.rotate_pair(y, 1, 2, -s * (y**2).sum(1))
    want = np.eye(2 * d)
    for i in range(2):
        want[i, d + i] = want[d + i, i] = rho
    got = np.cov(np.hstack([x, y]).T)
    require(np.max(np.abs(got - want)) <= 6.5 * math.sqrt(2 / n) + 2e-3, "covariance of the sample", worst=np.max(np.abs(got - want)))
    return f"{c['kind']}" if c["mi"] > 0 else None


def lvm_mi(dim, k, alpha, lambd):
    # without a value for eta, coordinates which do not interact have the same strength
    return bt.gaussian_mi(bt.lvm_correlation(dim, dim, k, alpha, lambd, 0.0, lambd), dim)


@st.composite
def _sparse(draw):
    dim = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["alpha", "lambda", "n_interacting"]))
    return dict(
        kind=kind,
        dim=dim,
        k=draw(st.integers(1, dim)),
        alpha=draw(gen.flt(0, 1.5)),
        at=draw(gen.flt(0.02, 4.0)),
    )


@facet(FACETS, rule="every target", strategy=_sparse, quick=40, thorough=1500, shards=3)
def sparsity_tasks(c):
    """Strengths of the dense and of the sparse interactions for a given mutual information."""
    sparse = modules()[1]
    dim, k = c["dim"], c["k"]
    if c["kind"] == "alpha":
        mi = lvm_mi(dim, 0, c["at"], 0.0)
        alpha = sparse.get_initial_alpha(mi, dim)
        got = lvm_mi(dim, 0, alpha, 0.0)
        require(0 < alpha <= 10 and abs(got - mi) <= 1.05e-4, "dense interaction", alpha=alpha, got=got, want=mi)
        return "alpha"
    if c["kind"] == "lambda":
        mi = lvm_mi(dim, dim, c["alpha"], c["at"])
        if mi < lvm_mi(dim, dim, c["alpha"], 0.0) + 1e-3:
            return None
        task = sparse.get_lambda_task(mi, dim, c["alpha"])
        want = dict(alpha=c["alpha"], n_interacting=dim)
    else:
        mi = lvm_mi(dim, k, 0.0, c["at"])
        task = sparse.get_n_interacting_task(mi, dim, k)
        want = dict(alpha=0.0, n_interacting=k)
    require(abs(float(task.mutual_information) - mi) <= 1.05e-4, "mutual information", got=task.mutual_information, want=mi)
    require((task.dim_x, task.dim_y) == (dim, dim), "dimensions")
    for key, v in want.items():
        require(task.params.get(key) == v, "recorded parameters", key=key, got=task.params.get(key), want=v)
    own = lvm_mi(dim, want["n_interacting"], want["alpha"], task.params["lambd"])
    close(own, mi, atol=2e-4, what="mutual information of the recorded parameters")
    return c["kind"]


@st.composite
def _hopeless(draw):
    return dict(dim=draw(st.integers(2, 5)), mi=draw(st.sampled_from([80.0, 500.0])))


@facet(FACETS, rule="every target", strategy=_hopeless, quick=1, thorough=6)
def unattainable_tasks(c):
    """Nothing is returned for a target beyond the precision of a correlation."""
    high = modules()[0]
    for fn in (high.generate_sparse_gaussian_task, high.generate_half_cube_task):
        task = fn(mi=c["mi"], family_name="f", dim=c["dim"])
        require(task is None, "a task for an unattainable target", got=getattr(task, "mutual_information", None))
    return "nothing"

