"""P13: serialised records read back as plain data with the same content."""

import enum
import math
import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt.core import facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated nested structures are dumped and read back by "
    "PyYAML's safe loader; oracle: a plain conversion of the structure"
)
LEVEL_NOTE = (
    "Nested dictionaries, lists and tuples up to depth 4 of strings (including YAML syntax), "
    "integers, floats, Booleans, None, NumPy scalars and arrays, paths and enumeration members."
)


class Colour(enum.Enum):
    RED = "red"
    ONE = 1
    HALF = 0.5
    PAIR = [1, 2]


class Label(str, enum.Enum):
    A = "a-value"


class Level(enum.IntEnum):
    LOW = 3


TEXTS = [
    "", "text", "true", "null", "~", "1.5", "1e5", "0x1f", "a: b", "- item", "# comment", "it's", '"q"',
    "two\nlines", "trailing ", " leading", "{x}", "[1]", "&a", "*a", "!!python/none", "é × ü", "%", "tab\t",
    "nan", ".nan", "2001-01-01", "12:30:45", "=", "<<", "yes", "\\n", "1_000", "X 1 × 1", "\u0001", "😀",
]

# Floats are kept as repr texts, so that a case is plain JSON
FLOATS = ["nan", "inf", "-inf", "0.0", "-0.0", "1e-300", "1e+22", "0.1", "123456.789", "1e-05", "5e-324", "3.0"]

PATHS = ["a/b.csv", ".", "/abs/path", "it's/é"]
NP_SCALARS = ["float64", "float32", "float16", "int64", "int8", "uint32", "bool", "str"]
ARRAYS = ["float64", "float32", "int64", "bool", "str"]
ENUMS = ["Colour.RED", "Colour.ONE", "Colour.HALF", "Colour.PAIR", "Label.A", "Level.LOW"]

_texts = st.one_of(st.sampled_from(TEXTS), st.text(max_size=12).filter(lambda s: s.isprintable()))
_floats = st.one_of(
    st.sampled_from(FLOATS), st.floats(allow_nan=False, allow_infinity=False).map(repr)
)
_leaves = st.one_of(
    _texts.map(lambda s: ["s", s]),
    st.integers(-(2**70), 2**70).map(lambda i: ["i", str(i)]),
    _floats.map(lambda f: ["f", f]),
    st.booleans().map(lambda b: ["b", b]),
    st.just(["none"]),
    st.tuples(st.sampled_from(NP_SCALARS), st.integers(0, 100)).map(lambda t: ["np", *t]),
    st.tuples(st.sampled_from(ARRAYS), st.sampled_from([[0], [3], [1], [2, 2], [0, 2], [1, 2, 2], []]), st.integers(0, 99)).map(
        lambda t: ["array", *t]
    ),
    st.sampled_from(PATHS).map(lambda p: ["path", p]),
    st.sampled_from(ENUMS).map(lambda p: ["enum", p]),
)
_keys = st.one_of(
    st.sampled_from(["a", "b", "error", "true", "1", "a b", "x: y", "é", "null"]), st.text(alphabet="abcxyz_", max_size=4)
)


def _nodes():
    return st.recursive(
        _leaves,
        lambda ch: st.one_of(
            st.lists(ch, max_size=4).map(lambda v: ["list", v]),
            st.lists(ch, max_size=3).map(lambda v: ["tuple", v]),
            st.lists(st.tuples(_keys, ch).map(list), max_size=4).map(lambda v: ["dict", v]),
            st.lists(ch, min_size=1, max_size=2).map(lambda v: ["shared", v]),
        ),
        max_leaves=14,
    )


def _roots():
    return st.lists(st.tuples(_keys, _nodes()).map(list), min_size=0, max_size=4).map(lambda v: ["dict", v])


def _np_scalar(dtype, i):
    base = (i - 50) / 8
    if dtype == "str":
        return np.str_(TEXTS[i % len(TEXTS)])
    if dtype == "bool":
        return np.bool_(i % 2)
    if dtype.startswith("uint"):
        return np.dtype(dtype).type(i)
    if dtype.startswith("int"):
        return np.dtype(dtype).type(i - 50)
    if i == 0:
        return np.dtype(dtype).type("nan")
    if i == 1:
        return np.dtype(dtype).type("-inf")
    return np.dtype(dtype).type(base / 3)


def _array(dtype, shape, i):
    n = int(np.prod(shape)) if shape else 1
    return np.array([_np_scalar(dtype, (i + 7 * k) % 100) for k in range(n)]).reshape(shape)


def make(node):
    """-> (value to store, plain value expected from the safe loader)"""
    t = node[0]
    if t == "s":
        return node[1], node[1]
    if t == "i":
        return int(node[1]), int(node[1])
    if t == "f":
        return float(node[1]), float(node[1])
    if t == "b":
        return node[1], node[1]
    if t == "none":
        return None, None
    if t == "np":
        v = _np_scalar(node[1], node[2])
        return v, v.item()
    if t == "array":
        v = _array(node[1], node[2], node[3])
        return v, v.tolist()
    if t == "path":
        v = pathlib.Path(node[1])
        return v, str(v)
    if t == "enum":
        v = eval(node[1], dict(Colour=Colour, Label=Label, Level=Level))
        return v, v.value
    if t in ("list", "tuple"):
        pairs = [make(x) for x in node[1]]
        v = [p[0] for p in pairs]
        return (v if t == "list" else tuple(v)), [p[1] for p in pairs]
    if t == "shared":  # the same object at several places
        v, p = make(node[1][0])
        return [v, v], [p, p]
    if t == "dict":
        pairs = {k: make(x) for k, x in node[1]}
        return {k: p[0] for k, p in pairs.items()}, {k: p[1] for k, p in pairs.items()}
    raise KeyError(t)


def equal(a, b):
    """Equality of plain data, with types, NaN equal to itself."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def kinds(node):
    out = {node[0]}
    for x in node[1] if node[0] in ("list", "tuple", "shared") else []:
        out |= kinds(x)
    for x in node[1] if node[0] == "dict" else []:
        out |= kinds(x[1])
    return out


def _label(node):
    ks = kinds(node) - {"dict", "s", "i", "b"}
    return "+".join(sorted(ks)[:3]) or ("flat" if node[1] else None)


def load(path):
    import yaml

    with open(path) as f:
        return yaml.safe_load(f)


@st.composite
def _records(draw):
    opt = draw(st.integers(0, 3))
    return dict(
        info=draw(_roots()),
        estimate=draw(_floats),
        time=draw(_floats),
        success=draw(st.booleans()),
        ids=[draw(_texts), draw(_texts)],
        n=draw(st.integers(0, 10**6)),
        seed=draw(st.sampled_from([None, 0, 1, 2**40])),
        default_info=opt == 0,
    )


@facet(
    FACETS,
    rule="non-empty information",
    strategy=_records,
    quick=220,
    thorough=15000,
    shards=4,
)
def run_results(c):
    import bmi

    value, plain = make(c["info"])
    kw = {} if c["default_info"] else dict(additional_information=value)
    rec = bmi.RunResult(
        mi_estimate=float(c["estimate"]),
        time_in_seconds=float(c["time"]),
        success=c["success"],
        estimator_id=c["ids"][0],
        task_id=c["ids"][1],
        n_samples=c["n"],
        seed=c["seed"],
        **kw,
    )
    want = dict(
        mi_estimate=float(c["estimate"]),
        time_in_seconds=float(c["time"]),
        success=c["success"],
        estimator_id=c["ids"][0],
        task_id=c["ids"][1],
        n_samples=c["n"],
        seed=c["seed"],
        additional_information={} if c["default_info"] else plain,
    )
    with tempfile.TemporaryDirectory() as tmp:
        for path in (os.path.join(tmp, "a.yaml"), pathlib.Path(tmp) / "b.yaml"):
            rec.dump(path)
            got = load(path)
            require(equal(got, want), "record read back", got=got, want=want)
        # a shorter record replaces the previous one
        bmi.RunResult(
            mi_estimate=0.0, time_in_seconds=0.0, success=True, estimator_id="", task_id="", n_samples=1
        ).dump(path)
        got = load(path)
        require(
            equal(
                got,
                dict(
                    mi_estimate=0.0, time_in_seconds=0.0, success=True, estimator_id="", task_id="",
                    n_samples=1, seed=None, additional_information={},
                ),
            ),
            "record written over another",
            got=got,
        )
    require(equal(make(c["info"])[1], plain), "harness")
    return _label(c["info"]) if not c["default_info"] else None


@st.composite
def _tasks(draw):
    return dict(
        params=draw(st.one_of(st.none(), _roots())),
        ids=[draw(_texts), draw(_texts)],
        rho=draw(st.sampled_from([0.0, 0.5, 0.75])),
    )


@facet(FACETS, rule="non-empty parameters", strategy=_tasks, quick=150, thorough=6000, shards=2)
def task_metadata(c):
    import bmi
    import bmi.samplers as bs

    value, plain = make(c["params"]) if c["params"] is not None else (None, {})
    sampler = bs.BivariateNormalSampler(correlation=c["rho"])
    task = bmi.Task(sampler=sampler, task_id=c["ids"][0], task_name=c["ids"][1], task_params=value)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "m.yaml")
        task.save_metadata(path)
        got = load(path)
    want = dict(
        task_id=c["ids"][0],
        task_name=c["ids"][1],
        dim_x=1,
        dim_y=1,
        mi_true=float(sampler.mutual_information()),
        task_params=plain,
    )
    require(equal(got, want), "metadata read back", got=got, want=want)
    return _label(c["params"]) if c["params"] else None


@facet(
    FACETS,
    rule="more than plain scalars",
    strategy=lambda: st.fixed_dictionaries(dict(node=_nodes())),
    quick=300,
    thorough=20000,
    shards=2,
)
def dumper(c):
    """DictDumper on any node, also at the top level."""
    import yaml

    from bmi.benchmark.utils.dict_dumper import DictDumper

    value, plain = make(c["node"])
    text = yaml.dump(value, Dumper=DictDumper)
    got = yaml.safe_load(text)
    require(equal(got, plain), "structure read back", got=got, want=plain, text=text)
    return "+".join(sorted(kinds(c["node"]))[:3])


@st.composite
def _runs(draw):
    return dict(info=draw(_roots()), value=draw(_floats), fails=draw(st.booleans()))


@facet(FACETS, rule="every run", strategy=_runs, quick=60, thorough=3000, shards=1)
def records_of_runs(c):
    """The record of a run, as returned, is what is read from the file."""
    import bmi
    from bmi.interface import EstimateResult
    from bmi.utils import save_sample

    value, plain = make(c["info"])

    class Est(bmi.IMutualInformationPointEstimator):
        def estimate_with_info(self, x, y):
            if c["fails"]:
                raise ValueError("message: 'quoted'\nsecond line")
            return EstimateResult(mi_estimate=float(c["value"]), additional_information=value)

        def estimate(self, x, y):
            return float(c["value"])

        def parameters(self):
            return None

    with tempfile.TemporaryDirectory() as tmp:
        sample = os.path.join(tmp, "s.csv")
        save_sample(sample, np.zeros((3, 1)), np.ones((3, 2)))
        res = bmi.run_estimator(Est(), "e", sample, "t", seed=4)
        path = os.path.join(tmp, "r.yaml")
        res.dump(path)
        got = load(path)
    want = dict(
        mi_estimate=float("nan") if c["fails"] else float(c["value"]),
        time_in_seconds=res.time_in_seconds,
        success=not c["fails"],
        estimator_id="e",
        task_id="t",
        n_samples=3,
        seed=4,
        additional_information={"error": "message: 'quoted'\nsecond line"} if c["fails"] else plain,
    )
    require(equal(got, want), "record of a run", got=got, want=want)
    return "failed" if c["fails"] else "succeeded"
