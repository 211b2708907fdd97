"""P18: estimators are pure functions of data and configuration."""

import numpy as np
from hypothesis import strategies as st

from pbt import data, gen
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated histories of calls (containers, memory layouts, "
    "read-only and shared buffers, other data in between) against the estimate of a fresh estimator"
)
LEVEL_NOTE = (
    "all in-process estimators, generated configurations, up to 40 points (64 for the neural ones, "
    "which are trained for a few steps), histories of up to six calls."
)
METRICS = ["euclidean", "manhattan", "chebyshev"]


def _maybe(draw, options, name, strategy):
    if draw(st.booleans()):
        options[name] = draw(strategy)


@st.composite
def classical(draw, families=("ksg", "ksg_slow", "histogram", "kde", "cca", "function")):
    fam = draw(st.sampled_from(families))
    o = {}
    if fam in ("ksg", "ksg_slow"):
        ks = st.lists(st.integers(1, 4), min_size=1, max_size=3)
        o["neighborhoods"] = draw(ks)
        _maybe(draw, o, "metric_x", st.sampled_from(METRICS))
        _maybe(draw, o, "metric_y", st.sampled_from(METRICS))
        _maybe(draw, o, "standardize", st.booleans())
        if fam == "ksg":
            _maybe(draw, o, "chunk_size", st.integers(1, 50))
    elif fam == "histogram":
        _maybe(draw, o, "n_bins_x", st.integers(1, 4))
        _maybe(draw, o, "n_bins_y", st.integers(1, 4))
        _maybe(draw, o, "standardize", st.booleans())
    elif fam == "kde":
        kern = st.sampled_from(["gaussian", "tophat", "epanechnikov", "exponential", "linear"])
        bw = st.sampled_from(["scott", "silverman", 0.5, 1.5])
        for k in ("kernel_xy", "kernel_x", "kernel_y"):
            _maybe(draw, o, k, kern)
        for k in ("bandwidth_xy", "bandwidth_x", "bandwidth_y"):
            _maybe(draw, o, k, bw)
        _maybe(draw, o, "standardize", st.booleans())
    elif fam == "cca":
        _maybe(draw, o, "scale", st.booleans())
    return dict(family=fam, options=o)


def neural_options(draw):
    o = dict(
        batch_size=draw(st.sampled_from([2, 8, 16])),
        max_n_steps=draw(st.sampled_from([1, 3, 5])),
        test_every_n_steps=draw(st.sampled_from([1, 2])),
        hidden_layers=draw(st.sampled_from([[3], [4, 2]])),
        verbose=False,
    )
    _maybe(draw, o, "train_test_split", st.sampled_from([None, 0.5, 0.7]))
    _maybe(draw, o, "learning_rate", st.sampled_from([0.1, 0.02]))
    _maybe(draw, o, "standardize", st.booleans())
    _maybe(draw, o, "seed", st.integers(0, 100))
    return o


@st.composite
def neural(draw):
    fam = draw(st.sampled_from(["mine", "infonce", "nwj", "dv"]))
    o = neural_options(draw)
    if fam == "mine":
        _maybe(draw, o, "smoothing_alpha", st.sampled_from([0.1, 0.5]))
    else:
        _maybe(draw, o, "_train_backend", st.sampled_from(["linear", "quadratic"]))
    return dict(family=fam, options=o)


def a_function(x, y):
    """a statistic in which the two arguments play different roles"""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return float(np.sum(x[:, 0] * y[:, -1]) + 0.1 * np.abs(y).sum())


def build(c):
    from bmi import estimators as e
    from bmi.estimators.function_wrapper import FunctionalEstimator

    cls = dict(
        ksg=e.KSGEnsembleFirstEstimator,
        ksg_slow=e.KSGEnsembleFirstEstimatorSlow,
        histogram=e.HistogramEstimator,
        kde=e.KDEMutualInformationEstimator,
        cca=e.CCAMutualInformationEstimator,
        mine=e.MINEEstimator,
        infonce=e.InfoNCEEstimator,
        nwj=e.NWJEstimator,
        dv=e.DonskerVaradhanEstimator,
    )
    if c["family"] == "function":
        return FunctionalEstimator(a_function)
    return cls[c["family"]](**{k: list(v) if isinstance(v, list) else v for k, v in c["options"].items()})


CALLS = ["same", "info", "list", "fortran", "strided", "read-only", "reversed view", "other", "fresh", "swapped"]


@st.composite
def _data(draw, sizes=(12, 25, 40), max_dim=3):
    d = draw(
        data.datasets(
            max_dim=max_dim, sizes=sizes, styles=("normal", "correlated", "heavy"), dtypes=("float64", "float32")
        )
    )
    d.update(log_scale=0, shift=draw(st.sampled_from([0, 3])))
    if d["dtype"] == "float32":
        d["shift"] = 0
    return d


@st.composite
def _classical_histories(draw):
    c = draw(classical())
    c["data"] = draw(_data(max_dim=2 if c["family"] == "histogram" else 3))
    c["calls"] = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=6))
    return c


@st.composite
def _neural_histories(draw):
    c = draw(neural())
    d = dict(draw(_data(sizes=(64,), max_dim=2)))
    c["data"] = d
    c["calls"] = draw(st.lists(st.sampled_from(CALLS), min_size=2, max_size=3))
    return c


def run_history(c, atol):
    x, y = data.make(c["data"])
    other = data.make(dict(c["data"], seed=c["data"]["seed"] // 2 + 1))
    kept = x.copy(), y.copy()
    est = build(c)
    before = est.parameters().dict()
    want = float(build(c).estimate(x.copy(), y.copy()))
    require(np.isfinite(want) or c["family"] not in ("ksg", "histogram"), "not finite", want=want)

    def same(value, what):
        value = float(value)
        if np.isnan(want):
            require(np.isnan(value), f"{what}: not NaN as before", got=value)
        else:
            close(value, want, atol=atol, rtol=atol, what=what)

    same(est.estimate(x, y), "first call")
    for call in c["calls"]:
        a, b, target = x, y, est
        if call == "list":
            if x.dtype != np.float64:
                continue
            a, b = x.tolist(), y.tolist()
        elif call == "fortran":
            a, b = np.asfortranarray(x), np.asfortranarray(y)
        elif call == "strided":
            big = np.full((2 * len(x), x.shape[1] + 2), 7.5, dtype=x.dtype)
            big[::2, 1:-1] = x
            a = big[::2, 1:-1]
        elif call == "read-only":
            a, b = x.copy(), y.copy()
            a.flags.writeable = b.flags.writeable = False
        elif call == "reversed view":
            a, b = x[::-1].copy()[::-1], y[::-1].copy()[::-1]
        elif call == "fresh":
            target = build(c)
        elif call == "other":
            est.estimate(*other)
            continue
        elif call == "swapped":
            est.estimate(y, x)
            continue
        if call == "info":
            info = est.estimate_with_info(a, b)
            same(info.mi_estimate, "estimate with info")
            require(isinstance(info.additional_information, dict), "additional information")
        else:
            ka, kb = np.array(a), np.array(b)
            same(target.estimate(a, b), call)
            require(
                np.array_equal(np.array(a), ka) and np.array_equal(np.array(b), kb),
                f"the arguments were modified ({call})",
            )
        require(
            np.array_equal(x, kept[0]) and np.array_equal(y, kept[1]), f"the caller's arrays were modified ({call})"
        )
    # the last call of a history on the original data
    same(est.estimate(x, y), "last call")
    require(np.array_equal(x, kept[0]) and np.array_equal(y, kept[1]), "the caller's arrays were modified")
    require(est.parameters().dict() == before, "estimating changed the parameters")
    return c["family"]


@facet(FACETS, rule="every history", strategy=_classical_histories, quick=120, thorough=8000, shards=3)
def classical_histories(c):
    return run_history(c, 1e-4 if c["family"] == "cca" or c["data"]["dtype"] == "float32" else 1e-9)


@facet(FACETS, rule="every history", strategy=_neural_histories, quick=3, thorough=150, shards=6, spread=True)
def neural_histories(c):
    return run_history(c, 2e-3)


# ------------------------------------------------------------------ parameters

DEFAULTS = dict(
    ksg=dict(neighborhoods=[5, 10], standardize=True, metric_x="euclidean"),
    histogram=dict(n_bins_x=5, standardize=True),
    kde=dict(kernel_xy="tophat", bandwidth_xy="scott", standardize=True),
    neural=dict(
        batch_size=256,
        max_n_steps=10_000,
        train_test_split=0.5,
        test_every_n_steps=250,
        learning_rate=0.1,
        hidden_layers=[16, 8],
        standardize=True,
        seed=42,
    ),
)
FOLLOW = dict(
    ksg=[("metric_y", "metric_x")],
    histogram=[("n_bins_y", "n_bins_x")],
    kde=[(f"{a}_{v}", f"{a}_xy") for a in ("kernel", "bandwidth") for v in "xy"],
    neural=[],
)
NAMES = dict(infonce="InfoNCE", nwj="NWJ", dv="Donsker-Varadhan")


@st.composite
def _configurations(draw):
    c = draw(st.one_of(classical(("ksg", "ksg_slow", "histogram", "kde")), neural()))
    for k in sorted(c["options"]):
        if draw(st.integers(0, 3)) == 0:
            del c["options"][k]
    return c


@facet(FACETS, rule="every configuration", strategy=_configurations, quick=150, thorough=10000, shards=1)
def reported_parameters(c):
    fam, o = c["family"], c["options"]
    kind = "ksg" if fam == "ksg_slow" else fam if fam in DEFAULTS else "neural"
    want = dict(DEFAULTS[kind])
    if fam == "mine":
        want["smoothing_alpha"] = 0.9
    hidden = {"_train_backend", "verbose", "chunk_size"}
    want.update({k: v for k, v in o.items() if k not in hidden})
    for k, source in FOLLOW[kind]:
        want.setdefault(k, want[source])
    if fam in NAMES:
        want["mi_formula"] = NAMES[fam]
    est = build(c)
    p = est.parameters()
    got = p.dict()
    if "critic_params" in got:
        got.update(got.pop("critic_params"))
    for k, v in want.items():
        require(k in got, f"parameter {k} is not reported", got=got)
        g = list(got[k]) if isinstance(v, list) else got[k]
        if k == "neighborhoods":
            g, v = sorted(g), sorted(v)
        require(g == v and type(g) in (type(v), float), f"parameter {k}", got=g, want=v)
    again = build(c).parameters()
    require(again == p, "equal configurations report different parameters")
    return fam


@st.composite
def _later_changes(draw):
    return draw(st.sampled_from(["ksg", "ksg_slow", "mine", "infonce", "nwj", "dv"]))


@facet(
    FACETS,
    rule="every case",
    strategy=lambda: st.fixed_dictionaries(dict(family=_later_changes(), size=st.integers(1, 3), seed=gen.seeds())),
    quick=20,
    thorough=200,
)
def configuration_is_copied(c):
    """Changing the list given to the constructor later does not reach the estimator."""
    from bmi import estimators as e

    values = [int(v) for v in gen.rng_of(c).integers(1, 4, size=c["size"])]
    mine = list(values)
    if c["family"] in ("ksg", "ksg_slow"):
        cls = e.KSGEnsembleFirstEstimator if c["family"] == "ksg" else e.KSGEnsembleFirstEstimatorSlow
        est = cls(neighborhoods=mine)
        require(mine == values, "the caller's list was modified", got=mine)
        before = est.parameters().json()
        mine.append(9)
        mine[0] = 11
        require(est.parameters().json() == before, "parameters follow the caller's list")
        d = data.make(dict(dx=1, dy=1, n=14, style_x="normal", style_y="normal", dtype="float64", log_scale=0, shift=0, seed=c["seed"]))
        close(est.estimate(*d), cls(neighborhoods=values).estimate(*d), atol=1e-12, what="estimate")
    else:
        cls = dict(mine=e.MINEEstimator, infonce=e.InfoNCEEstimator, nwj=e.NWJEstimator, dv=e.DonskerVaradhanEstimator)
        est = cls[c["family"]](hidden_layers=mine, verbose=False)
        before = est.parameters().json()
        mine.append(9)
        mine[0] = 11
        require(est.parameters().json() == before, "parameters follow the caller's list")
    return c["family"]


@st.composite
def _mismatches(draw):
    c = draw(st.one_of(classical(("ksg", "ksg_slow", "histogram", "kde", "cca")), neural()))
    c["data"] = draw(_data(sizes=(40,), max_dim=2))
    c["drop"] = draw(st.integers(1, 20))
    c["from_x"] = draw(st.booleans())
    c["info"] = draw(st.booleans())
    return c


@facet(FACETS, rule="every case", strategy=_mismatches, quick=100, thorough=2000, shards=1)
def different_lengths_are_rejected(c):
    x, y = data.make(c["data"])
    a, b = (x[c["drop"] :], y) if c["from_x"] else (x, y[c["drop"] :])
    est = build(c)
    run = est.estimate_with_info if c["info"] else est.estimate
    expect_raises((ValueError, AssertionError, TypeError, IndexError), lambda: run(a, b), "samples of different lengths")
    return c["family"]


@st.composite
def _functional(draw):
    return dict(
        data=draw(_data()),
        params=draw(
            st.none()
            | st.dictionaries(
                st.sampled_from(["k", "alpha", "name"]), st.integers(-3, 3) | gen.flt(-2, 2) | st.text(max_size=3), max_size=3
            )
        ),
        lists=draw(st.booleans()),
        value=draw(st.floats(allow_nan=False, allow_infinity=True)),
    )


@facet(FACETS, rule="parameters are given", strategy=_functional, quick=60, thorough=2000)
def wrapped_functions(c):
    """A wrapped function receives X and Y as arrays, and its parameters and value are reported."""
    import pydantic

    from bmi.estimators.function_wrapper import FunctionalEstimator

    x, y = data.make(c["data"])
    seen = []

    def f(a, b):
        seen.append((a, b))
        return c["value"]

    kw = {}
    if c["params"] is not None:
        model = pydantic.create_model("Given", **{k: (type(v), ...) for k, v in c["params"].items()})
        kw["params"] = model(**c["params"])
    est = FunctionalEstimator(f, **kw)
    args = (x.tolist(), y.tolist()) if c["lists"] else (x, y)
    require(float(est.estimate(*args)) == c["value"], "estimate")
    require(float(est.estimate_with_info(*args).mi_estimate) == c["value"], "estimate with information")
    for a, b in seen:
        require(isinstance(a, np.ndarray) and isinstance(b, np.ndarray), "the function is not given arrays")
        require(np.array_equal(a, x) and np.array_equal(b, y), "the function is given other data")
    require(len(seen) == 2, "number of calls of the function", got=len(seen))
    p = est.parameters()
    require(p.dict() == (c["params"] or {}), "parameters", got=p)
    return "with parameters" if c["params"] else None
