"""P21: the training log reports history, best value and diagnostics correctly."""

import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "model-based property testing (Hypothesis): generated histories of logging calls and queries "
    "against a reference model of the log"
)
LEVEL_NOTE = (
    "up to 20000 training and 40 test values per history (plateaus, ties, rises and falls, negative "
    "values, units from 1e-9 to 1e8), all options, queries at any point, values as Python, NumPy or JAX numbers."
)


def tidy(values):
    # single precision, in which JAX numbers are kept
    return [float(np.float32(v)) for v in values]


@st.composite
def _options(draw):
    return dict(
        early_stopping=draw(st.booleans()),
        train_smooth_factor=draw(st.sampled_from([None, 0.1, 0.25, 0.5, 0.3, 0.01])),
        verbose=draw(st.sampled_from([False, False, True])),
        enable_tqdm=draw(st.booleans()),
        train_history=draw(st.sampled_from([None, True, False])),
        test_history=draw(st.sampled_from([None, True, False])),
    )


def build(o, max_n_steps=1000):
    from bmi.estimators.neural._training_log import TrainingLog

    kw = dict(max_n_steps=max_n_steps, early_stopping=o["early_stopping"], verbose=o["verbose"])
    kw["enable_tqdm"] = o["enable_tqdm"]
    if o["train_smooth_factor"] is not None:
        kw["train_smooth_factor"] = o["train_smooth_factor"]
    if o["train_history"] is not None:
        kw["train_history_in_additional_information"] = o["train_history"]
    if o["test_history"] is not None:
        kw["test_history_in_additional_information"] = o["test_history"]
    return TrainingLog(**kw)


def number(v, kind):
    if kind == "numpy":
        return np.float32(v)
    if kind == "jax":
        import jax.numpy as jnp

        return jnp.asarray(v, dtype=jnp.float32)
    return float(v)


def diagnostics(values, factor):
    """-> flags, and whether a comparison is within rounding of its threshold"""
    n = len(values)
    w = int(factor * n)
    if w < 1:
        return {"training_too_short_for_diagnostics"}, False
    v = np.asarray(values, dtype=float)
    smooth = np.array([v[i : i + w].mean() for i in range(n - w + 1)])
    last, top, before = smooth[-1], smooth.max(), smooth[-1 - w]
    flags = set()
    if top > 1.05 * last:
        flags.add("max_training_mi_decreased")
    if last > 1.05 * before:
        flags.add("training_mi_still_increasing")
    slack = 1e-6 * (1 + np.abs(v).sum()) + 1e-4 * np.abs(smooth).max()
    return flags, abs(top - 1.05 * last) < slack or abs(last - 1.05 * before) < slack


FLAGS = {
    "training_too_short_for_diagnostics",
    "max_training_mi_decreased",
    "training_mi_still_increasing",
    "early_stopping_not_triggered",
}


def query(log, model, o, finished=None):
    test = [v for _, v in model["test"]]
    if test:
        close(float(log.final_mi), max(test), atol=0, what="best test value")
        best = test.index(max(test))
        stop = o["early_stopping"] and len(test) - 1 - best >= 2
    else:
        require(math.isnan(float(log.final_mi)), "a best value without test values")
        stop = False
    require(bool(log.early_stop()) == stop, "early stopping", got=log.early_stop(), test=test)
    info = log.additional_information
    steps = model["train"][-1][0] if model["train"] else 0
    require(info["n_training_steps"] == steps, "number of training steps", got=info["n_training_steps"], want=steps)
    for key, flag, default, want in (
        ("training_history", o["train_history"], False, model["train"]),
        ("test_history", o["test_history"], True, model["test"]),
    ):
        shown = default if flag is None else flag
        require((key in info) == shown, f"{key} is {'missing' if shown else 'present'}")
        if shown:
            got = info[key]
            require(len(got) == len(want), f"length of {key}", got=len(got), want=len(want))
            require([int(s) for s, _ in got] == [s for s, _ in want], f"steps in {key}")
            close([v for _, v in got], [v for _, v in want], atol=0, what=key)
            require(all(type(v) is float for _, v in got), f"{key} holds no plain numbers", got=got[:3])
    flags = {k for k in FLAGS if info.get(k)}
    if finished is None:
        require(not flags, "diagnostics before the end", got=flags)
        return
    want, close_call = finished
    if o["early_stopping"] and not stop:
        want = want | {"early_stopping_not_triggered"}
    if close_call:
        free = {"max_training_mi_decreased", "training_mi_still_increasing"}
        want, flags = want - free, flags - free
    require(flags == want, "diagnostics", got=sorted(flags), want=sorted(want))


@st.composite
def _histories(draw):
    levels = st.sampled_from([-1.5, 0.0, 0.25, 0.5, 1.0, 1.0, 2.0])
    value = st.one_of(levels, gen.flt(-3, 5))
    op = st.one_of(
        st.tuples(st.just("train"), value),
        st.tuples(st.just("test"), value),
        st.tuples(st.just("query"), st.just(0.0)),
    )
    return dict(
        options=draw(_options()),
        ops=[list(v) for v in draw(st.lists(op, max_size=40))],
        first=draw(st.sampled_from([1, 1, 0, 5])),
        stride=draw(st.sampled_from([1, 1, 3])),
        number=draw(st.sampled_from(["float", "float", "numpy", "jax"])),
        unit=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-4, 1e-9, 300.0, 1e8])),
    )


@facet(FACETS, rule="at least one test value", strategy=_histories, quick=200, thorough=12000, shards=2)
def histories(c):
    o = c["options"]
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        log = build(o)
        model = dict(train=[], test=[])
        step = c["first"]
        for op, v in c["ops"]:
            v = tidy([v * c["unit"]])[0]
            if op == "query":
                query(log, model, o)
            elif op == "train":
                step += c["stride"]
                log.log_train_mi(step, number(v, c["number"]))
                model["train"].append((step, v))
            else:
                log.log_test_mi(step, number(v, c["number"]))
                model["test"].append((step, v))
        query(log, model, o)
        # the diagnostics of histories with negative values are not part of the documentation
        if all(v >= 0 for _, v in model["train"]):
            log.finish()
            factor = 0.1 if o["train_smooth_factor"] is None else o["train_smooth_factor"]
            query(log, model, o, finished=diagnostics([v for _, v in model["train"]], factor))
    if not o["verbose"]:
        require(not out.getvalue() and not err.getvalue(), "output of a silent log", got=(out.getvalue() + err.getvalue())[:200])
    return f"{min(len(model['test']), 3)} test values" if model["test"] else None


LENGTHS = [1, 2, 3, 4, 9, 10, 11, 19, 20, 37, 100, 101, 250, 400, 1000, 1001, 2049, 5003, 10_010, 20_000]


@st.composite
def _trends(draw):
    return dict(
        options=dict(draw(_options()), verbose=False),
        n=draw(st.sampled_from(LENGTHS)),
        shape=draw(st.sampled_from(["constant", "rise", "fall", "peak", "late rise", "plateau", "noise", "jump"])),
        level=draw(st.sampled_from([0.1, 1.0, 3.0, 50.0, 1e-3, 1e4])),
        change=draw(st.sampled_from([0.02, 0.04, 0.06, 0.1, 0.5])),
        at=draw(st.sampled_from([0.3, 0.7, 0.85, 0.95])),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="no comparison within rounding of its threshold", strategy=_trends, quick=200, thorough=12000, shards=2)
def trends(c):
    """The shapes of training curves the diagnostics are there for."""
    n, a, r = c["n"], c["level"], c["change"]
    t = np.arange(1, n + 1) / n
    v = {
        "constant": lambda: np.full(n, a),
        "rise": lambda: a * (1 + 5 * r * t),
        "fall": lambda: a * (1 + 5 * r * (1 - t)),
        "peak": lambda: a * (1 + r * np.exp(-(((t - c["at"]) / 0.1) ** 2))),
        "late rise": lambda: a * (1 + r * np.maximum(0, t - c["at"]) / (1 - c["at"])),
        "plateau": lambda: a * np.minimum(1, t / c["at"]),
        "noise": lambda: a * (1 + r * gen.rng_of(c).uniform(-0.9, 1, size=n)),
        "jump": lambda: a * (1 + r * (t > c["at"])),
    }[c["shape"]]()
    v = tidy(v)
    o = c["options"]
    log = build(o)
    for i, x in enumerate(v, start=1):
        log.log_train_mi(i, x)
    log.finish()
    factor = 0.1 if o["train_smooth_factor"] is None else o["train_smooth_factor"]
    want, close_call = diagnostics(v, factor)
    query(log, dict(train=[(i, x) for i, x in enumerate(v, start=1)], test=[]), o, finished=(want, close_call))
    return None if close_call else f"{c['shape']}: {sorted(f.split('_')[1] for f in want)}"


@facet(
    FACETS,
    rule="every factor",
    strategy=lambda: st.fixed_dictionaries(dict(factor=st.one_of(gen.flt(0.51, 3), gen.flt(0.01, 0.5)))),
    quick=30,
    thorough=500,
)
def windows_above_half_are_rejected(c):
    from bmi.estimators.neural._training_log import TrainingLog

    def make():
        return TrainingLog(max_n_steps=10, early_stopping=True, verbose=False, train_smooth_factor=c["factor"])

    if c["factor"] > 0.5:
        expect_raises((AssertionError, ValueError), make, "a smoothing window above half of the history")
        return "rejected"
    make()
    return "accepted"
