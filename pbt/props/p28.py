"""P28: benchmark tables aggregate exactly the recorded results."""

import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, workflows
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): round trip of generated run results through YAML files and "
    "the CSV, and tables against aggregation by explicit loops over the records"
)
LEVEL_NOTE = (
    "up to 5 estimators, 6 tasks, 6 seeds; missing, negative, zero and NaN estimates; one sample size "
    "per table and dictionaries which the reader can represent, because of the known findings."
)
ASSUMPTIONS = [
    "jinja2 is not installed: the tables are read from the pandas Styler (data and displayed text), "
    "rendering to HTML is not run.",
]

_UTILS = []


def utils():
    if not _UTILS:
        workflows.styler_stand_ins()
        _UTILS.append(workflows.load("bmi_workflows_benchmark_utils", "benchmark", "_utils.py"))
    return _UTILS[0]


# --- generated collections of results -----------------------------------------------------

EST = ["KSG-10", "CCA", "InfoNCE", "e", "Histogram 5"]
TASK = ["1v1-normal-0.75", "t", "Student, identity", "spiral-multinormal-sparse-3-3", "é", "a b"]


@st.composite
def _collections(draw, several_sizes=False):
    ne, nt, ns = draw(st.integers(1, 5)), draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return dict(
        estimators=EST[:ne],
        tasks=draw(st.permutations(TASK))[:nt],
        seeds=ns,
        sizes=draw(st.lists(st.sampled_from([100, 1000, 5000, 10000]), min_size=1, max_size=3, unique=True))
        if several_sizes
        else [draw(st.sampled_from([100, 5000]))],
        missing=draw(st.sampled_from([0.0, 0.0, 0.2, 0.6])),
        nan=draw(st.sampled_from([0.0, 0.0, 0.2])),
        law=draw(st.sampled_from(["positive", "mixed", "negative", "spread", "edge"])),
        shuffle=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


def records(c):
    """A list of dictionaries, one per run."""
    rng = gen.rng_of(c)
    out = []
    for t in c["tasks"]:
        mi_true = float(rng.choice([0.0, 0.25, 1.0, float(rng.uniform(0.01, 3))]))
        for e in c["estimators"]:
            for n in c["sizes"]:
                best = float(rng.uniform(0.1, 3))
                for s in range(c["seeds"]):
                    if c["law"] == "positive":
                        v = rng.uniform(0.5, 1.5)
                    elif c["law"] == "mixed":
                        v = rng.normal()
                    elif c["law"] == "negative":
                        v = -rng.uniform(0, 1)
                    elif c["law"] == "edge":
                        # 0.09, 0.11 times the best of this group, zero, the best
                        v = best * rng.choice([1.0, 0.09, 0.11, 0.0, -0.5, 0.105])
                    else:
                        v = 10.0 ** rng.uniform(-3, 1)
                    if rng.uniform() < c["nan"]:
                        v = math.nan
                    if rng.uniform() < c["missing"]:
                        continue
                    out.append(
                        dict(estimator_id=e, task_id=t, n_samples=n, seed=s, mi_estimate=float(v), mi_true=mi_true)
                    )
    if c["shuffle"]:
        rng.shuffle(out)
    return out


def groups(rows):
    out = {}
    for r in rows:
        out.setdefault((r["estimator_id"], r["task_id"], r["n_samples"]), []).append(r["mi_estimate"])
    return out


def converged_runs(values):
    known = [v for v in values if not math.isnan(v)]
    best = max(known) if known else math.nan
    return [v > 0.1 * best for v in values]


def frame(rows):
    import pandas as pd

    return pd.DataFrame(rows)


def check_cells(table, want, what):
    """`want` maps (task, column) to values; everything else is empty."""
    tasks, columns = list(table.data.index), list(table.data.columns)
    require(len(set(tasks)) == len(tasks) and len(set(columns)) == len(columns), f"{what}: repeated rows or columns", tasks=tasks)
    missing = {k for k, v in want.items() if not math.isnan(v) and (k[0] not in tasks or k[1] not in columns)}
    require(not missing, f"{what}: missing cells", got=sorted(missing))
    for t in tasks:
        for e in columns:
            got = float(table.data.loc[t, e])
            w = want.get((t, e), math.nan)
            require(
                (math.isnan(got) and math.isnan(w)) or abs(got - w) <= 1e-9 * (1 + abs(w)), f"{what}: cell ({t}, {e})", got=got, want=w
            )


def displayed(table):
    shown = table._translate(False, False)
    return [[cell["display_value"] for cell in row if cell.get("type") == "td"] for row in shown["body"]]


@st.composite
def _tables(draw):
    return dict(_draw_collection(draw), explicit=draw(st.booleans()), converged_only=draw(st.booleans()))


def _draw_collection(draw):
    return draw(_collections())


@facet(FACETS, rule="several cells", strategy=_tables, quick=60, thorough=3000, shards=3)
def benchmark_table(c):
    rows = records(c)
    if not rows:
        return None
    data = frame(rows)
    before = data.copy()
    kw = dict(n_samples=c["sizes"][0]) if c["explicit"] else {}
    table = utils().create_benchmark_table(data, converged_only=c["converged_only"], **kw)
    want = {}
    for (e, t, _), values in groups(rows).items():
        ok = converged_runs(values) if c["converged_only"] else [True] * len(values)
        kept = [v for v, keep in zip(values, ok) if keep and not math.isnan(v)]
        want[t, e] = sum(kept) / len(kept) if kept else math.nan
    for r in rows:
        want[r["task_id"], "True MI"] = r["mi_true"]
    check_cells(table, want, "benchmark table")
    require(set(table.data.index) == {r["task_id"] for r in rows}, "tasks of the table", got=list(table.data.index))
    require(set(table.data.columns) <= {"True MI"} | {r["estimator_id"] for r in rows}, "estimators of the table")
    for i, row in enumerate(displayed(table)):
        for j, text in enumerate(row):
            v = float(table.data.iloc[i, j])
            require(math.isnan(v) or abs(float(text) - v) <= 0.00501, "displayed value", got=text, value=v)
    require(data.equals(before), "the results were modified")
    return "several cells" if len(want) > 2 else None


@facet(FACETS, rule="several cells", strategy=_collections, quick=60, thorough=3000, shards=3)
def convergence_table(c):
    rows = records(c)
    if not rows:
        return None
    data = frame(rows)
    before = data.copy()
    table = utils().create_convergence_table(data)
    want = {}
    for (e, t, _), values in groups(rows).items():
        want[t, e] = sum(converged_runs(values)) / len(values)
    check_cells(table, want, "convergence table")
    require(set(table.data.index) == {r["task_id"] for r in rows}, "tasks of the table")
    require(set(table.data.columns) == {r["estimator_id"] for r in rows}, "estimators of the table")
    for i, row in enumerate(displayed(table)):
        for j, text in enumerate(row):
            v = float(table.data.iloc[i, j])
            if not math.isnan(v):
                require(text.endswith("%") and abs(float(text[:-1]) - 100 * v) <= 0.0501, "displayed value", got=text, value=v)
    require(data.equals(before), "the results were modified")
    return "several cells" if len(want) > 2 else None


@st.composite
def _several(draw):
    return draw(_collections(several_sizes=True))


@facet(FACETS, rule="several sample sizes", strategy=_several, quick=80, thorough=4000)
def converged_and_error_columns(c):
    rows = records(c)
    if not rows:
        return None
    data = utils().add_col_converged(frame(rows))
    by_group = groups(rows)
    flags = {k: iter(converged_runs(v)) for k, v in by_group.items()}
    require(len(data) == len(rows), "rows")
    for r, got in zip(rows, data["converged"]):
        want = next(flags[r["estimator_id"], r["task_id"], r["n_samples"]])
        require(bool(got) == want, "converged", run=r, got=bool(got), want=want)
    data = utils().add_col_log_relative_error(frame(rows))
    for r, got in zip(rows, data["log_relative_error"]):
        v, t = r["mi_estimate"], r["mi_true"]
        if v > 0 and t > 0:
            close(float(got), math.log2(v) - math.log2(t), atol=1e-9, what="log relative error")
    return "several sizes" if len(c["sizes"]) > 1 else None


# --- reading --------------------------------------------------------------------------------

CHARS = "abcdefgh XYZ0123456789.,;:-+_/()[]{}#&*!|>%@=<?é"


def _texts():
    return st.tuples(st.text(alphabet=CHARS, max_size=12), st.sampled_from(["", "", "'", '"'])).map(
        lambda p: p[0][: len(p[0]) // 2] + p[1] + p[0][len(p[0]) // 2 :]
    )


def _floats():
    return st.one_of(st.sampled_from([0.5, -1.25, 0.1, 1.5e-07, 3.25e20]), gen.flt(-10, 10)).filter(
        lambda v: "." in repr(v)
    )


def _values():
    leaf = st.one_of(_texts(), st.integers(-(10**6), 10**6), _floats(), st.booleans())
    return st.recursive(
        leaf,
        lambda inner: st.one_of(
            st.lists(inner, max_size=4), st.dictionaries(st.text(alphabet="abcxyz_", min_size=1, max_size=5), inner, max_size=3)
        ),
        max_leaves=6,
    )


def _dicts(prefix):
    return st.dictionaries(
        st.text(alphabet="abcxyz_ 01", min_size=1, max_size=6).map(lambda s: prefix + s), _values(), max_size=4
    )


@st.composite
def _readings(draw):
    c = draw(_collections(several_sizes=True))
    c["tasks"], c["estimators"], c["seeds"] = c["tasks"][:2], c["estimators"][:2], min(c["seeds"], 2)
    c["params"] = [draw(_dicts("p_")) for _ in c["tasks"]]
    c["info"] = [draw(_dicts("i_")) for _ in range(3)]
    c["unpack"] = [draw(st.sampled_from([None, True, False])) for _ in range(2)]
    return c


def same(a, b):
    """Equal, with floats up to rounding and NaN equal to NaN."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, (bool, np.bool_)):
        return isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, float)):
        if not isinstance(b, (int, float, np.number)):
            return False
        if isinstance(a, float) and math.isnan(a):
            return math.isnan(b)
        return abs(a - b) <= 1e-11 * abs(a)  # parsed by pandas
    return isinstance(b, str) and a == b


@facet(FACETS, rule="several records", strategy=_readings, quick=50, thorough=3000, shards=3)
def reading_results(c):
    """Runs are dumped, collected into a CSV the way the workflow does it, and read."""
    import pandas as pd
    import yaml

    from bmi.benchmark import RunResult

    rows = records(c)
    if not rows:
        return None
    rng = gen.rng_of(c, 1)
    stored = []
    with tempfile.TemporaryDirectory() as tmp:
        for i, r in enumerate(rows):
            r["time_in_seconds"] = float(rng.uniform(0, 100))
            r["success"] = bool(rng.integers(0, 2))
            r["additional_information"] = c["info"][i % len(c["info"])]
            keep = {k: v for k, v in r.items() if k != "mi_true"}
            path = os.path.join(tmp, f"{i}.yaml")
            RunResult(**keep).dump(path)
            with open(path) as f:
                result = yaml.load(f, yaml.SafeLoader)
            result["mi_true"] = r["mi_true"]
            result["task_name"] = r["task_name"] = "Name of " + r["task_id"]
            result["task_params"] = r["task_params"] = c["params"][c["tasks"].index(r["task_id"])]
            stored.append(result)
        path = os.path.join(tmp, "results.csv")
        pd.DataFrame(stored).to_csv(path, index=False)
        kw = {}
        if c["unpack"][0] is not None:
            kw["unpack_task_params"] = c["unpack"][0]
        if c["unpack"][1] is not None:
            kw["unpack_additional_information"] = c["unpack"][1]
        got = utils().read_results(path, **kw)
    require(len(got) == len(rows), "number of records", got=len(got), want=len(rows))
    got = got.to_dict("records")
    for r, g in zip(rows, got):
        want = dict(r)
        if c["unpack"][0] is not False:
            want.update(want.pop("task_params"))
        if c["unpack"][1]:
            want.update(want.pop("additional_information"))
        for k, v in want.items():
            # pandas converts a column with absent or several kinds of values
            mixed = k.startswith(("p_", "i_"))
            require(k in g, "field is missing", field=k, got=g)
            if mixed and isinstance(v, (bool, int)):
                require(same(float(v), float(g[k])), "field", field=k, got=g[k], want=v)
            else:
                require(same(v, g[k]), "field", field=k, got=g[k], want=v)
        extra = [k for k in g if k not in want and not (isinstance(g[k], float) and math.isnan(g[k]))]
        require(not extra, "unexpected fields", got=extra)
    return "several records" if len(rows) > 1 else None


# --- known findings -----------------------------------------------------------------------------


def _known_sizes():
    return [
        dict(table=t, explicit=e) for t in ("benchmark", "convergence") for e in (False, True)
    ]


@facet(FACETS, rule="two sample sizes", strategy=lambda: st.sampled_from(_known_sizes()), examples=_known_sizes, quick=4, thorough=4)
def tables_of_one_sample_size(c):
    """Runs with 10 points are right, those with 100 are not: the table is about the former."""
    rows = []
    for n, values in [(10, [1.0, 1.0]), (100, [2.0, 0.0])]:
        for s, v in enumerate(values):
            rows.append(dict(estimator_id="e", task_id="t", n_samples=n, seed=s, mi_estimate=v, mi_true=1.0))
    kw = dict(n_samples=10) if c["explicit"] else {}
    if c["table"] == "benchmark":
        table = utils().create_benchmark_table(frame(rows), converged_only=True, **kw)
        want = 1.0 if c["explicit"] else 2.0
    else:
        table = utils().create_convergence_table(frame(rows), **kw)
        want = 1.0 if c["explicit"] else 0.5
    got = float(table.data.loc["t", "e"])
    require(abs(got - want) < 1e-9, "cell of one sample size", got=got, want=want)
    return "two sizes"


SPECIAL = {
    "none": None,
    "nan": math.nan,
    "inf": math.inf,
    "small": 1e-05,
    "newline": "first\nsecond",
    "quotes": "it's \"quoted\"",
    "backslash": "a\\b",
}


@facet(FACETS, rule="every value", strategy=lambda: st.sampled_from([dict(value=k) for k in SPECIAL]),
       examples=lambda: [dict(value=k) for k in SPECIAL], quick=7, thorough=7)  # fmt: skip
def special_values_are_restored(c):
    import pandas as pd

    value = SPECIAL[c["value"]]
    row = dict(estimator_id="e", task_id="t", n_samples=10, seed=0, mi_estimate=1.0, mi_true=1.0,
               task_params=dict(p=1), additional_information=dict(i=value))  # fmt: skip
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "results.csv")
        pd.DataFrame([row]).to_csv(path, index=False)
        try:
            got = utils().read_results(path)["additional_information"][0]
        except Exception as e:
            got = f"{type(e).__name__}"
    if value is None:
        require(isinstance(got, dict) and got["i"] is None, "None", got=got)
    else:
        require(isinstance(got, dict) and same(value, got["i"]), "value", got=got, want=value)
    return c["value"]
