"""P12: running an estimator always yields a faithful result record."""

import copy
import math
import os
import subprocess
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis) with injected faults: scripted estimators with generated "
    "outcomes (values, times, information, exceptions), run singly and in histories on stored "
    "samples"
)
LEVEL_NOTE = (
    "Histories of up to 5 runs over 3 stored samples; 11 kinds of exceptions, also raised after "
    "modifying the arrays; nested information; self-reported and measured times."
)

VALUES = [0.0, 1.25, -0.5, 3, 1e-300, 1e30, "nan", "inf", "-inf", "np32", "np64", "jax", "int64"]
EXCEPTIONS = [
    "ValueError", "KeyError", "AssertionError", "ZeroDivisionError", "MemoryError", "Custom",
    "CustomOutput", "CalledProcessError", "CalledProcessErrorText", "NotImplementedError",
    "StopIteration", "FloatingPointError", "Timeout",
]


def _value(v):
    import jax.numpy as jnp

    if isinstance(v, str):
        return {
            "nan": float("nan"), "inf": math.inf, "-inf": -math.inf, "np32": np.float32(0.75),
            "np64": np.float64(0.3), "jax": jnp.asarray(0.625), "int64": np.int64(2),
        }[v]
    return v


class Custom(Exception):
    pass


class CustomOutput(Exception):
    def __init__(self, msg, output):
        super().__init__(msg)
        self.output = output


def _exception(kind, msg):
    if kind == "CustomOutput":
        return CustomOutput(msg, ["some", "output"])
    if kind == "CalledProcessError":
        return subprocess.CalledProcessError(3, ["prog", "arg"], output=b"bytes " + msg.encode())
    if kind == "CalledProcessErrorText":
        return subprocess.CalledProcessError(-9, ["prog"], output="text " + msg)
    if kind == "Timeout":
        return subprocess.TimeoutExpired("prog", 3, output=b"partial")
    if kind == "Custom":
        return Custom(msg)
    return getattr(__import__("builtins"), kind)(msg)


KEYS = st.sampled_from(["a", "b", "note", "error_rate", "seed", "nested"])
LEAVES = st.one_of(
    st.integers(-5, 5), st.booleans(), st.none(), st.sampled_from(["", "text", "it's", 0.5, 1e-9]),
    st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.sampled_from(["x", "y"]), st.integers(0, 3), max_size=2),
)


def infos(min_size=0):
    return st.dictionaries(KEYS, LEAVES, min_size=min_size, max_size=3)


@st.composite
def _runs(draw):
    fails = draw(st.integers(0, 2)) == 0
    run = dict(
        sample=draw(st.integers(0, 2)),
        style=draw(st.sampled_from(["info", "plain", "functional"])),
        est_id=draw(st.sampled_from(["est", "KSG-5", "", "a b/c", "é"])),
        task_id=draw(st.sampled_from(["task", "1v1-normal-0.75", "x", ""])),
        seed=draw(st.sampled_from([None, 0, 1, 17, 2**31])),
        info=draw(st.one_of(st.none(), st.just({}), infos(), infos(min_size=1))),
        meddle=draw(st.booleans()),
    )
    if fails:
        run["error"] = draw(st.sampled_from(EXCEPTIONS))
        run["message"] = draw(st.sampled_from(["", "plain message", "two\nlines", "quote ' \" {x}", "é"]))
        run["sleep"] = 0
    else:
        run["value"] = draw(st.sampled_from(VALUES))
        run["time"] = draw(st.sampled_from([None, None, 0.0, 1e-6, 123.5])) if run["style"] == "info" else None
        run["est_info"] = draw(infos()) if run["style"] == "info" else {}
        run["sleep"] = draw(st.sampled_from([0, 0, 0, 0.03]))
    return run


@st.composite
def _cases(draw):
    return dict(runs=draw(st.lists(_runs(), min_size=1, max_size=5)), seed=draw(gen.seeds()))


def _estimator(run, seen):
    import bmi
    from bmi.estimators.function_wrapper import FunctionalEstimator
    from bmi.interface import EstimateResult

    def work(x, y):
        seen.append((np.array(x, copy=True), np.array(y, copy=True)))
        if run["meddle"]:  # an estimator which overwrites the arrays which it was given
            try:
                x[...] = -1
                y[...] = -1
            except (ValueError, TypeError):
                pass
        if run["sleep"]:
            time.sleep(run["sleep"])
        if "error" in run:
            raise _exception(run["error"], run["message"])
        return _value(run["value"])

    class Plain(bmi.IMutualInformationPointEstimator):
        def estimate(self, x, y):
            return work(x, y)

        def parameters(self):
            return None

    class Informed(Plain):
        def estimate_with_info(self, x, y):
            return EstimateResult(
                mi_estimate=work(x, y),
                time_in_seconds=run.get("time"),
                additional_information=copy.deepcopy(run.get("est_info", {})),
            )

    return {"plain": Plain, "info": Informed, "functional": lambda: FunctionalEstimator(work)}[run["style"]]()


def _samples(c, tmp):
    from bmi.utils import save_sample

    rng = gen.rng_of(c)
    out = []
    for i, (n, dx, dy) in enumerate([(4, 1, 1), (7, 2, 12), (1, 3, 2)]):
        x, y = rng.normal(size=(n, dx)), rng.normal(size=(n, dy))
        path = os.path.join(tmp, f"{i}.csv")
        save_sample(path, x, y)
        out.append((path, x, y, open(path, "rb").read()))
    return out


def check_record(run, res, x, y, seen, elapsed, info):
    import bmi

    require(isinstance(res, bmi.RunResult), "not a RunResult", got=type(res))
    require(len(seen) >= 1, "the estimator was not run")
    for xs, ys in seen[:1]:
        close(xs, x, rtol=1e-12, what="X handed to the estimator")
        close(ys, y, rtol=1e-12, what="Y handed to the estimator")
    require(res.estimator_id == run["est_id"], "estimator id", got=res.estimator_id)
    require(res.task_id == run["task_id"], "task id", got=res.task_id)
    require(res.seed == run["seed"] and type(res.seed) is type(run["seed"]), "seed", got=res.seed)
    require(res.n_samples == len(x), "number of samples", got=res.n_samples)
    extra = dict(res.additional_information)
    info = info or {}
    if "error" in run:
        require(res.success is False, "success", got=res.success)
        require(math.isnan(res.mi_estimate), "estimate of a failed run", got=res.mi_estimate)
        require(math.isnan(res.time_in_seconds), "time of a failed run", got=res.time_in_seconds)
        e = _exception(run["error"], run["message"])
        want = {**info, "error": str(e)}
        if hasattr(e, "output"):
            want["subprocess_output"] = str(e.output)
        require(extra == want, "information of a failed run", got=extra, want=want)
        return
    require(res.success is True, "success", got=res.success, info=extra)
    want = float(_value(run["value"]))
    got = res.mi_estimate
    require(
        (math.isnan(want) and math.isnan(got)) or got == want, "estimate", got=got, want=want
    )
    if run.get("time") is not None:
        require(res.time_in_seconds == run["time"], "reported time", got=res.time_in_seconds)
    else:
        require(
            run["sleep"] * 0.9 <= res.time_in_seconds <= elapsed + 1e-3,
            "measured time",
            got=res.time_in_seconds,
            slept=run["sleep"],
            elapsed=elapsed,
        )
    est_info = run["est_info"]
    require(set(extra) == set(info) | set(est_info), "keys of the information", got=extra)
    for k, v in extra.items():
        require(
            v in [d[k] for d in (info, est_info) if k in d], f"information under {k}", got=v
        )
        if k not in info:
            require(v == est_info[k], f"estimator's information under {k}", got=v)


@facet(
    FACETS,
    rule="at least two runs, or a failure, or information",
    strategy=_cases,
    quick=150,
    thorough=8000,
    shards=4,
)
def histories_of_runs(c):
    import bmi

    records = []
    with tempfile.TemporaryDirectory() as tmp:
        samples = _samples(c, tmp)
        for run in c["runs"]:
            path, x, y, raw = samples[run["sample"]]
            seen = []
            est = _estimator(run, seen)
            info = copy.deepcopy(run["info"])
            kw = {} if run["seed"] is None and not run["meddle"] else dict(seed=run["seed"])
            if info is not None:
                kw["additional_information"] = info
            t0 = time.perf_counter()
            res = bmi.run_estimator(
                estimator=est,
                estimator_id=run["est_id"],
                sample_path=path,
                task_id=run["task_id"],
                **kw,
            )
            elapsed = time.perf_counter() - t0
            check_record(run, res, x, y, seen, elapsed, run["info"])
            require(open(path, "rb").read() == raw, "the stored sample was modified")
            # (known finding: a non-empty dictionary receives the entries of the estimator)
            for k, v in (run["info"] or {}).items():
                if k not in run.get("est_info", {}):
                    require(info[k] == v, "caller's information was modified", got=info)
            if info == {} or (not run.get("est_info", True)):
                require(info == run["info"], "caller's information was modified", got=info)
            records.append((res, res.json()))
        require(sorted(os.listdir(tmp)) == ["0.csv", "1.csv", "2.csv"], "files left behind")
    for res, text in records:
        require(res.json() == text, "a later run changed an earlier record", was=text, now=res.json())
    if len(c["runs"]) > 1:
        return f"{len(c['runs'])} runs, {sum('error' in r for r in c['runs'])} failed"
    run = c["runs"][0]
    return "single" if "error" in run or run["info"] or run.get("est_info") else None


KNOWN = [
    dict(info={"a": 1}, est_info={"b": 2}, fail=False),
    dict(info={"a": 1}, est_info={}, fail=True),
]


@facet(
    FACETS,
    rule="information given by the caller",
    strategy=lambda: st.sampled_from(KNOWN),
    examples=lambda: KNOWN,
    quick=2,
    thorough=2,
)
def callers_dictionary_is_left_alone(c):
    """The call site of the known finding."""
    import bmi

    run = dict(sample=0, style="info", meddle=False, sleep=0, est_info=c["est_info"], value=1.0)
    if c["fail"]:
        run.update(error="ValueError", message="m")
    with tempfile.TemporaryDirectory() as tmp:
        path, x, y, _ = _samples(dict(seed=1), tmp)[0]
        info = dict(c["info"])
        bmi.run_estimator(_estimator(run, []), "e", path, "t", additional_information=info)
        require(info == c["info"], "caller's information was modified", got=info)
    return "left alone"


@st.composite
def _timer_cases(draw):
    op = st.sampled_from(["check", "reset", "check_and_reset", "sleep", "other"])
    return dict(ops=draw(st.lists(op, min_size=1, max_size=8)))


@facet(
    FACETS, rule="a reset and a check", strategy=_timer_cases, quick=150, thorough=3000
)
def timer(c):
    """Elapsed time since the last reset, against a bracketing clock."""
    from bmi.benchmark.utils.timer import Timer

    def now():
        return time.perf_counter()

    a = now()
    t = Timer()
    lo_hi = (a, now())  # the reset happened in this interval
    others = []
    for op in c["ops"]:
        a = now()
        if op == "sleep":
            time.sleep(0.004)
            continue
        if op == "other":
            others.append(Timer())  # timers are independent
            others[-1].reset()
            continue
        v = None
        if op == "check":
            v = t.check()
        elif op == "reset":
            t.reset()
        else:
            v = t.check_and_reset()
        b = now()
        if v is not None:
            lo, hi = a - lo_hi[1], b - lo_hi[0]
            require(lo - 1e-4 <= v <= hi + 1e-4, "elapsed time", got=v, want=(lo, hi), op=op)
        if op != "check":
            lo_hi = (a, b)
    ops = c["ops"]
    return "reset" if any("reset" in o for o in ops) and any("check" in o for o in ops) else None
