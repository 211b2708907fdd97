"""P07: covariance parametrisations produce the structure they document."""

import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): reference matrices derived from the documented "
    "generative model (per latent label), entry by entry"
)
LEVEL_NOTE = (
    "All dims 1..8 (unequal; also 13..110), 0..min interacting pairs, weights including zero, negative and "
    "unequal X/Y, in units from 1e-10 to 1e10; exact entries to 1e-12."
)


def dims():
    return st.one_of(*[st.integers(1, 8)] * 9, st.sampled_from([13, 33, 60, 110]))


def weights():
    return st.one_of(
        st.sampled_from([0.0, 1.0, 2.0, 0.5]), gen.flt(-3, 3), st.integers(0, 3)
    )


def positive():
    return st.one_of(st.just(1.0), gen.flt(0.1, 3.0))


@st.composite
def _lvm_cases(draw):
    dx, dy = draw(dims()), draw(dims())
    optional = {}
    for name, strategy in [
        ("epsilon_x", positive()),
        ("epsilon_y", st.none() | positive()),
        ("beta_x", weights()),
        ("beta_y", st.none() | weights()),
        ("eta_x", weights()),
        ("eta_y", st.none() | weights()),
    ]:
        if draw(st.booleans()):
            optional[name] = draw(strategy)
    case = dict(
        dim_x=dx,
        dim_y=dy,
        n_interacting=draw(st.integers(0, min(dx, dy))),
        alpha=draw(weights()),
        lambd=draw(weights()),
        **optional,
    )
    # The same model in other units
    unit = draw(st.sampled_from(UNITS))
    if unit != 1.0:
        case.setdefault("epsilon_x", 1.0)
        for name in {"alpha", "lambd", "epsilon_x", *optional}:
            if case[name] is not None:
                case[name] *= unit
    return case


UNITS = [1.0, 1.0, 1.0, 1e-2, 1e-4, 1e-6, 1e-10, 1e3, 1e6, 1e10]


def _filled(c):
    w = dict(epsilon_x=1.0, beta_x=0.0, eta_x=0.0)
    w.update({k: v for k, v in c.items() if v is not None})
    for name in ("epsilon", "beta", "eta"):
        w.setdefault(f"{name}_y", w[f"{name}_x"])
    return w


def _influence(label, w):
    """Column of the mixing matrix according to the documentation of the latent variable."""
    dx, dy, k = w["dim_x"], w["dim_y"], w["n_interacting"]
    col = np.zeros(dx + dy)
    m = re.fullmatch(r"\$([UZEFVW])_\{?(\\mathrm\{all\}|[XY]|\d+)\}?\$", label)
    require(m, "unknown latent variable", label=label)
    kind, index = m.group(1), m.group(2)
    if kind == "U":
        if index == "\\mathrm{all}":
            col[:] = w["alpha"]
        elif index == "X":
            col[:dx] = w["beta_x"]
        else:
            col[dx:] = w["beta_y"]
        return col
    i = int(index) - 1
    if kind == "Z":
        require(0 <= i < k, "index of Z", label=label)
        col[i] = col[dx + i] = w["lambd"]
    elif kind == "E":
        col[i] = w["epsilon_x"]
    elif kind == "F":
        col[dx + i] = w["epsilon_y"]
    elif kind == "V":
        require(k <= i < dx, "index of V", label=label)
        col[i] = w["eta_x"]
    else:
        require(k <= i < dy, "index of W", label=label)
        col[dx + i] = w["eta_y"]
    return col


@facet(
    FACETS,
    rule="some interaction between X and Y",
    strategy=_lvm_cases,
    quick=1200,
    thorough=30000,
    shards=2,
)
def latent_variable_model(c):
    from bmi.samplers import GaussianLVMParametrization, SplitMultinormal

    p = GaussianLVMParametrization(**c)
    w = _filled(c)
    dx, dy, k = w["dim_x"], w["dim_y"], w["n_interacting"]
    n = dx + dy
    for name in ("epsilon_x", "epsilon_y", "beta_x", "beta_y", "eta_x", "eta_y"):
        require(getattr(p, name) == w[name], f"parameter {name}", got=getattr(p, name), want=w[name])
    labels = p.latent_variable_labels
    require(len(set(labels)) == len(labels), "labels repeat", labels=labels)
    require(p.n_latent == 3 + 2 * n - k, "number of latent variables", got=p.n_latent)
    require(len(labels) == p.n_latent, "labels and latent variables differ in number")
    expected = np.stack([_influence(label, w) for label in labels], axis=1)
    close(p.mixing, expected, rtol=1e-13, atol=0.0, what="mixing matrix")
    cov = np.asarray(p.covariance)
    size = float(np.max(expected**2))
    close(cov, expected @ expected.T, rtol=1e-12, atol=1e-12 * size, what="covariance")
    require(np.array_equal(cov, cov.T), "covariance is not symmetric")
    std = np.sqrt(np.sum(expected**2, axis=1))
    corr = np.asarray(p.correlation)
    close(corr, (expected @ expected.T) / std[:, None] / std[None, :], rtol=1e-10, atol=1e-12, what="correlation")
    close(np.diag(corr), np.ones(n), atol=1e-12, what="diagonal of the correlation")
    require(np.linalg.eigvalsh(cov).min() > -1e-9 * size, "covariance is not positive semi-definite")
    want = [f"$X_{i + 1}$" for i in range(dx)] + [f"$Y_{i + 1}$" for i in range(dy)]
    require(list(p.xy_labels) == want, "labels of X and Y", got=p.xy_labels)
    # It is usable as a covariance
    SplitMultinormal(dim_x=dx, dim_y=dy, covariance=corr)
    if w["alpha"] == 0 and (w["lambd"] == 0 or k == 0):
        return None
    return f"{'dx=dy' if dx == dy else 'dx!=dy'}, {'no' if k == 0 else 'some' if k < min(dx, dy) else 'all'} pairs"


@st.composite
def _dense_cases(draw):
    unit = draw(st.sampled_from(UNITS))
    return dict(
        dim_x=draw(dims()),
        dim_y=draw(dims()),
        alpha=draw(weights()) * unit,
        epsilon=draw(positive()) * unit,
    )


@facet(FACETS, rule="non-zero alpha", strategy=_dense_cases, quick=500, thorough=10000)
def dense(c):
    from bmi.samplers import DenseLVMParametrization

    p = DenseLVMParametrization(**c)
    n = c["dim_x"] + c["dim_y"]
    rho = c["alpha"] ** 2 / (c["alpha"] ** 2 + c["epsilon"] ** 2)
    close(p.correlation_strength, rho, rtol=1e-12, atol=1e-14, what="correlation strength")
    close(p.correlation, np.full((n, n), rho) + (1 - rho) * np.eye(n), atol=1e-12, what="correlation")
    close(
        p.covariance,
        np.full((n, n), c["alpha"] ** 2) + c["epsilon"] ** 2 * np.eye(n),
        rtol=1e-12,
        atol=1e-12 * c["epsilon"] ** 2,
        what="covariance",
    )
    return "dense" if c["alpha"] else None


@st.composite
def _sparse_cases(draw):
    dx, dy = draw(dims()), draw(dims())
    c = dict(dim_x=dx, dim_y=dy, n_interacting=draw(st.integers(0, min(dx, dy))))
    for name, strategy in [
        ("beta", weights()),
        ("lambd", weights()),
        ("epsilon", positive()),
        ("eta", st.none() | weights()),
    ]:
        if draw(st.booleans()):
            c[name] = draw(strategy)
    unit = draw(st.sampled_from(UNITS))
    if unit != 1.0:
        c.setdefault("epsilon", 1.0)
        c.setdefault("lambd", 1.0)
        for name in ("beta", "lambd", "epsilon", "eta"):
            if c.get(name) is not None:
                c[name] *= unit
    return c


@facet(FACETS, rule="an interacting pair with lambda != 0", strategy=_sparse_cases, quick=700, thorough=15000)
def sparse(c):
    from bmi.samplers import SparseLVMParametrization

    p = SparseLVMParametrization(**c)
    dx, dy, k = c["dim_x"], c["dim_y"], c["n_interacting"]
    lam, beta, eps = c.get("lambd", 1.0), c.get("beta", 0.0), c.get("epsilon", 1.0)
    eta = c.get("eta")
    eta = lam if eta is None else eta
    corr, cov = np.asarray(p.correlation), np.asarray(p.covariance)
    rho = lam**2 / (beta**2 + eps**2 + lam**2)
    close(p.correlation_interacting, rho, rtol=1e-12, atol=1e-14, what="interacting correlation")
    cross = np.zeros((dx, dy))
    for i in range(k):
        cross[i, i] = rho
    close(corr[:dx, dx:], cross, atol=1e-12, what="correlations of X and Y")
    for block, m in ((cov[:dx, :dx], dx), (cov[dx:, dx:], dy)):
        extra = np.array([lam**2 if i < k else eta**2 for i in range(m)])
        want = beta**2 + np.diag(eps**2 + extra)
        close(block, want, rtol=1e-12, atol=1e-12 * eps**2, what="covariance block")
    return "sparse" if k and lam else None


@st.composite
def _correlation_cases(draw):
    dx, dy = draw(dims()), draw(dims())
    c = dict(dim_x=dx, dim_y=dy)
    if draw(st.booleans()):
        c["k"] = draw(st.integers(1, min(dx, dy)))
    for name in ("correlation", "correlation_x", "correlation_y"):
        if draw(st.booleans()):
            c[name] = draw(st.one_of(gen.flt(-1, 1), st.sampled_from([0.0, 1.0, -1.0])))
    return c


@facet(FACETS, rule="more than one coordinate", strategy=_correlation_cases, quick=800, thorough=15000)
def parametrised_correlation(c):
    from bmi.samplers import parametrised_correlation_matrix

    got = np.asarray(parametrised_correlation_matrix(**c))
    dx, dy, k = c["dim_x"], c["dim_y"], c.get("k", 1)
    rho, rx, ry = c.get("correlation", 0.5), c.get("correlation_x", 0.0), c.get("correlation_y", 0.0)
    want = np.zeros((dx + dy, dx + dy))
    want[:dx, :dx] = rx
    want[dx:, dx:] = ry
    for i in range(dx + dy):
        want[i, i] = 1
    for i in range(k):
        want[i, dx + i] = want[dx + i, i] = rho
    close(got, want, atol=0.0, what="correlation matrix")
    return f"{'dx=dy' if dx == dy else 'dx!=dy'}" if dx + dy > 2 else None


@facet(
    FACETS,
    rule="a non-zero canonical correlation",
    strategy=lambda: st.fixed_dictionaries(
        dict(
            rho=st.lists(gen.flt(-0.99, 0.99), min_size=1, max_size=6),
            extra=st.integers(0, 5),
            array=st.booleans(),
        )
    ),
    quick=500,
    thorough=10000,
)
def canonical(c):
    from bmi.samplers import SplitMultinormal, canonical_correlation

    rho, extra = c["rho"], c["extra"]
    arg = np.asarray(rho) if c["array"] else list(rho)
    got = np.asarray(canonical_correlation(arg, extra) if extra else canonical_correlation(arg))
    dx = len(rho)
    want = np.eye(2 * dx + extra)
    for i, r in enumerate(rho):
        want[i, dx + i] = want[dx + i, i] = r
    close(got, want, atol=0.0, what="covariance")
    mi = SplitMultinormal(dim_x=dx, dim_y=dx + extra, covariance=got).mutual_information()
    close(mi, -0.5 * np.sum(np.log1p(-np.square(rho))), atol=1e-9, what="MI")
    return ("extra Y" if extra else "square") if any(rho) else None
