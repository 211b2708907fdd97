"""P34: figures and heat maps of the benchmark show the recorded results."""

import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, workflows
from pbt.core import close, facet, require
from pbt.props import p28

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated collections of run results against aggregation by "
    "explicit loops over the records; what is drawn is read from recorded heat maps and from the artists "
    "of real Matplotlib axes; round trip of generated records through the CSV"
)
LEVEL_NOTE = (
    "up to 6 estimators (neural and other), 5 tasks, 5 sample sizes, 5 seeds; missing runs, tasks and "
    "estimators, failed neural runs, zero estimates; every Python literal in the dictionaries."
)
ASSUMPTIONS = ["seaborn is not installed: a recording stand-in receives the heat maps."]

_UTILS = []


def utils():
    """(module, list of recorded heat maps)"""
    if not _UTILS:
        calls = workflows.seaborn_stand_in()
        module = workflows.load(
            "bmi_workflows_figure_utils", "projects", "Beyond_Normal", "_common_figure_utils.py"
        )
        _UTILS.append((module, calls))
    return _UTILS[0]


def recorded(draw, *args):
    """The heat map drawn by draw(ax, *args)."""
    _, calls = utils()
    del calls[:]
    from matplotlib.figure import Figure

    draw(Figure().subplots(), *args)
    require(len(calls) == 1, "one heat map is drawn", got=len(calls))
    return calls[0]


# --- generated collections ------------------------------------------------------------------

#: identifier -> is it neural?
KINDS = {"MINE": True, "InfoNCE": True, "NWJ": True, "my DV": True, "CCA": False, "my KSG": False, "Hist": False}
NAMES = {"my DV": "D-V, mine", "my KSG": "KSG (10)", "Hist": "Histogram"}
SIZES = [30, 100, 250, 500, 999, 1000, 1234, 2000, 5000, 10000]
TASKS = ["1v1-normal-0.75", "t", "Student, identity", "spiral", "é", "a b"]


def estimator(identifier):
    import bmi.estimators as e

    make = {
        "MINE": e.MINEEstimator,
        "InfoNCE": e.InfoNCEEstimator,
        "NWJ": e.NWJEstimator,
        "my DV": e.DonskerVaradhanEstimator,
        "CCA": e.CCAMutualInformationEstimator,
        "my KSG": e.KSGEnsembleFirstEstimator,
        "Hist": e.HistogramEstimator,
    }
    return make[identifier]()


@st.composite
def _collections(draw):
    ids = draw(st.permutations(list(KINDS)))
    tasks = draw(st.permutations(TASKS))
    n_known = draw(st.integers(1, 5))
    return dict(
        estimators=ids[: draw(st.integers(1, 6))],
        tasks=tasks[:n_known],
        # tasks and estimators which have no results at all
        silent_tasks=draw(st.sampled_from([0, 0, 1])) if n_known > 1 else 0,
        silent_estimators=draw(st.sampled_from([0, 0, 1])),
        sizes=draw(st.lists(st.sampled_from(SIZES), min_size=1, max_size=5, unique=True)),
        seeds=draw(st.integers(1, 5)),
        missing=draw(st.sampled_from([0.0, 0.0, 0.2, 0.6])),
        failing=draw(st.sampled_from([0.0, 0.2, 0.5])),
        law=draw(st.sampled_from(["accurate", "threshold", "improving", "wild"])),
        shuffle=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


def ground_truth(c):
    """task -> true mutual information, positive"""
    rng = gen.rng_of(c, 5)
    return {t: float(-0.5 * np.log1p(-(rng.uniform(0.3, 0.95) ** 2))) for t in c["tasks"]}


def tasks_of(c):
    import bmi
    from bmi.samplers import BivariateNormalSampler

    out = {}
    for t, mi in ground_truth(c).items():
        rho = math.sqrt(-math.expm1(-2 * mi))
        out[t] = bmi.Task(BivariateNormalSampler(correlation=rho), task_id=t, task_name="Name of " + t)
    return out


def estimators_of(c):
    return {e: estimator(e) for e in c["estimators"]}


def records(c):
    rng = gen.rng_of(c)
    truth = ground_truth(c)
    out = []
    tasks = c["tasks"][c["silent_tasks"] :]
    ids = c["estimators"][c["silent_estimators"] :] if len(c["estimators"]) > 1 else c["estimators"]
    for t in tasks:
        for e in ids:
            for n in c["sizes"]:
                for s in range(c["seeds"]):
                    if c["law"] == "accurate":
                        ratio = rng.uniform(0.8, 1.2)
                    elif c["law"] == "threshold":
                        ratio = rng.choice([1.45, 1.55, 1 / 1.45, 1 / 1.55, 1.0])
                    elif c["law"] == "improving":
                        ratio = 1 + rng.normal() * 30 / math.sqrt(n) * 0.3
                        ratio = abs(ratio) + 0.01
                    else:
                        ratio = 10.0 ** rng.uniform(-1.5, 1)
                    if rng.uniform() < c["failing"] and KINDS[e]:
                        ratio = float(rng.choice([-1.0, -0.01, 0.0, 0.02, 0.09, 0.11]))
                    elif rng.uniform() < 0.03:
                        ratio = 0.0
                    if rng.uniform() < c["missing"]:
                        continue
                    out.append(
                        dict(estimator_id=e, task_id=t, n_samples=n, seed=s, mi_estimate=float(ratio * truth[t]),
                             mi_true=truth[t])
                    )  # fmt: skip
    if c["shuffle"]:
        rng.shuffle(out)
    return out


def frame(rows):
    import pandas as pd

    return pd.DataFrame(rows)


def key(r):
    return r["estimator_id"], r["task_id"], r["n_samples"]


def failed_runs(rows):
    """Set of (estimator, task, size, seed): neural runs below zero or a tenth of the best seed; None if unclear."""
    best = {}
    for r in rows:
        best[key(r)] = max(best.get(key(r), -math.inf), r["mi_estimate"])
    out = set()
    for r in rows:
        v, b = r["mi_estimate"], best[key(r)]
        if KINDS[r["estimator_id"]]:
            if b > 0 and abs(v - 0.1 * b) <= 1e-9 * b:
                return None
            if v < 0 or v < 0.1 * b:
                out.add(key(r) + (r["seed"],))
    return out


def log_error(r):
    v = r["mi_estimate"]
    return math.log(v / r["mi_true"]) if v > 0 else (-math.inf if v == 0 else math.nan)


def mean(values):
    return sum(values) / len(values)


def averages(rows, failed):
    """(estimator, task, size) -> (mean estimate, mean log relative error) of the runs which did not fail."""
    by = {}
    for r in rows:
        if key(r) + (r["seed"],) not in failed:
            by.setdefault(key(r), []).append(r)
    return {k: (mean([r["mi_estimate"] for r in v]), mean([log_error(r) for r in v])) for k, v in by.items()}


def names_of(c):
    module, _ = utils()
    return {e: NAMES.get(e) or module.ESTIMATOR_NAMES[e] for e in c["estimators"]}


def same(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * (1 + abs(b))


def in_order(got, want, what):
    require(list(got) == list(want), what, got=list(got), want=list(want))


# --- single steps ------------------------------------------------------------------------------


@facet(FACETS, rule="several runs", strategy=_collections, quick=60, thorough=3000)
def preprocessing(c):
    module, _ = utils()
    rows = records(c)
    failed = failed_runs(rows) if rows else None
    if failed is None:
        return None
    results = frame(rows)
    before = results.copy()
    data = module.preprocess_benchmark_results(results, estimators_of(c))
    require(results.equals(before), "the results were modified")
    require(len(data) == len(rows), "number of runs", got=len(data), want=len(rows))
    got = {(g["estimator_id"], g["task_id"], g["n_samples"], g["seed"]): g for g in data.to_dict("records")}
    require(len(got) == len(rows), "runs are distinct")
    for r in rows:
        k = key(r) + (r["seed"],)
        g = got[k]
        require(g["mi_estimate"] == r["mi_estimate"] and g["mi_true"] == r["mi_true"], "values are kept", run=r, got=g)
        require(bool(g["neural_estimator"]) == KINDS[r["estimator_id"]], "neural_estimator", run=r, got=g)
        require(bool(g["neural_fail"]) == (k in failed), "neural_fail", run=r, got=g, want=k in failed)
        require(same(g["log_relative_error"], log_error(r)), "log_relative_error", run=r, got=g, want=log_error(r))
    return "failures" if failed else "no failures"


@st.composite
def _errors(draw):
    n = draw(st.integers(1, 6))
    return dict(
        sizes=draw(st.permutations(SIZES))[:n],
        errors=draw(
            st.lists(
                st.sampled_from([0.0, 0.1, -0.1, 0.4, -0.4, 0.41, -0.41, 1.0, -1.0, math.inf, -math.inf]),
                min_size=n,
                max_size=n,
            )
        ),
    )


def needed(errors):
    """errors: {size: mean log relative error}; the smallest size from which on the ratio stays within 1.5."""
    wrong = [n for n, e in errors.items() if not abs(e) < math.log(1.5)]
    good = [n for n in errors if n > max(wrong, default=0)]
    return min(good) if good else math.inf


@facet(FACETS, rule="solved and unsolved sizes", strategy=_errors, quick=150, thorough=20000)
def sample_size_needed(c):
    import pandas as pd

    module, _ = utils()
    data = pd.DataFrame(dict(n_samples=c["sizes"], mi_estimate=[1.0] * len(c["sizes"]), log_relative_error=c["errors"]))
    errors = dict(zip(c["sizes"], c["errors"]))
    got, want = float(module.n_samples_needed(data)), float(needed(errors))
    require(got == want, "number of samples needed", got=got, want=want, errors=errors)
    solved = {abs(e) < math.log(1.5) for e in c["errors"]}
    return ("needed" if math.isfinite(want) else "not reached") if len(solved) == 2 else None


# --- heat maps ---------------------------------------------------------------------------------


def prepared(c):
    rows = records(c)
    if not rows:
        return None
    failed = failed_runs(rows)
    if failed is None:
        return None
    return rows, failed


def check_table(table, want, columns, rows, what, cell):
    in_order(table.columns, columns, f"{what}: columns")
    in_order(table.index, rows, f"{what}: rows")
    for e in rows:
        for t in columns:
            cell(table.loc[e, t], want.get((e, t), math.nan), (e, t))


def layout(c, cells):
    """Names of the estimators and tasks which appear in the cells, in the requested order."""
    names = names_of(c)
    es = [names[e] for e in c["estimators"] if e in {k[0] for k in cells}]
    ts = ["Name of " + t for t in c["tasks"] if t in {k[1] for k in cells}]
    return names, es, ts


@facet(FACETS, rule="several cells", strategy=_collections, quick=50, thorough=3000)
def heat_map_of_estimates(c):
    module, _ = utils()
    p = prepared(c)
    if p is None:
        return None
    rows, failed = p
    top = max(r["n_samples"] for r in rows)
    cells = {k[:2]: v for k, v in averages(rows, failed).items() if k[2] == top}
    if not cells:
        return None
    names, es, ts = layout(c, cells)
    results = frame(rows)
    before = results.copy()
    drawn = recorded(module.plot_benchmark_mi_estimate, results, estimators_of(c), tasks_of(c), NAMES)
    require(results.equals(before), "the results were modified")
    truth = ground_truth(c)
    estimates = {(names[e], "Name of " + t): v[0] for (e, t), v in cells.items()}
    errors = {(names[e], "Name of " + t): v[1] for (e, t), v in cells.items()}
    for t in c["tasks"]:
        estimates["True MI", "Name of " + t] = truth[t]
        errors["True MI", "Name of " + t] = 0.0

    def equal(what):
        def cell(got, want, where):
            if (what == "error") and any(log_error(r) in (-math.inf,) for r in rows) and math.isnan(float(got)):
                return  # -inf is averaged by pandas
            require(same(got, want, 1e-7), f"heat map of estimates: {what}", got=float(got), want=want, where=where)

        return cell

    check_table(drawn["annot"], estimates, ts, es + ["True MI"], "annotation", equal("estimate"))
    check_table(drawn["data"], errors, ts, es + ["True MI"], "colours", equal("error"))
    if any(t not in {k[1] for k in cells} for t in c["tasks"]):
        return "task without results"
    return "several cells" if len(cells) > 1 else None


@facet(FACETS, rule="several cells", strategy=_collections, quick=50, thorough=3000)
def heat_map_of_sample_sizes(c):
    module, _ = utils()
    p = prepared(c)
    if p is None:
        return None
    rows, failed = p
    top = max(r["n_samples"] for r in rows)
    by = {}
    for k, (_, error) in averages(rows, failed).items():
        if abs(abs(error) - math.log(1.5)) < 1e-9:
            return None
        by.setdefault(k[:2], {})[k[2]] = error
    if not by:
        return None
    names, es, ts = layout(c, by)
    drawn = recorded(module.plot_benchmark_n_samples, frame(rows), estimators_of(c), tasks_of(c), NAMES)
    want = {(names[e], "Name of " + t): needed(v) for (e, t), v in by.items()}

    def text(got, v, where):
        if math.isnan(v):
            expected = ""
        elif math.isinf(v):
            expected = f">{top // 1000}k"
        else:
            expected = str(int(v)) if v < 1000 else f"{int(v) // 1000}k"
        require(got == expected, "annotation of sample sizes", got=got, want=expected, where=where)

    def colour(got, v, where):
        got = float(got)
        ok = math.isnan(got) if math.isnan(v) else (got > top if math.isinf(v) else got == v)
        require(ok, "colour of sample sizes", got=got, want=v, where=where)

    check_table(drawn["annot"], want, ts, es, "annotation of sample sizes", text)
    check_table(drawn["data"], want, ts, es, "colours of sample sizes", colour)
    values = {math.isinf(v) for v in want.values()}
    return ("reached and not" if len(values) == 2 else "several cells") if len(by) > 1 else None


@facet(FACETS, rule="failed runs", strategy=_collections, quick=50, thorough=3000)
def heat_map_of_failures(c):
    module, _ = utils()
    p = prepared(c)
    if p is None:
        return None
    rows, failed = p
    top = max(r["n_samples"] for r in rows)
    counts = {}
    for r in rows:
        if r["n_samples"] == top and KINDS[r["estimator_id"]]:
            k = key(r)[:2]
            counts[k] = counts.get(k, 0) + (key(r) + (r["seed"],) in failed)
    if not counts:
        return None
    names, es, ts = layout(c, counts)
    drawn = recorded(module.plot_benchmark_neural_fails, frame(rows), estimators_of(c), tasks_of(c), NAMES)
    want = {(names[e], "Name of " + t): v for (e, t), v in counts.items()}

    def cell(got, v, where):
        require(same(got, v), "number of failures", got=float(got), want=v, where=where)

    check_table(drawn["data"], want, ts, es, "failures", cell)
    return "failures" if any(counts.values()) else None


# --- curves --------------------------------------------------------------------------------------


@st.composite
def _curves(draw):
    c = draw(_collections())
    c["x"] = draw(st.sampled_from(["n_samples", "dim", "strength"]))
    c["std"] = draw(st.booleans())
    c["label"] = draw(st.sampled_from([None, "the x axis"]))
    return c


@facet(FACETS, rule="several points", strategy=_curves, quick=40, thorough=2000, shards=2)
def curves(c):
    from matplotlib.colors import same_color
    from matplotlib.figure import Figure

    module, _ = utils()
    rng = gen.rng_of(c, 7)
    rows = records(c)
    if not rows:
        return None
    column = c["x"]
    if column != "n_samples":
        grid = sorted({round(float(v), 3) for v in rng.uniform(0, 10, size=rng.integers(1, 6))})
        for r in rows:
            r[column] = float(rng.choice(grid))
    results = frame(rows)
    before = results.copy()
    colours = {e: ["red", "blue", "green", "black", "orange", "purple", "grey"][i] for i, e in enumerate(c["estimators"])}
    kw = dict(estimator_colors=colours, estimator_names=names_of(c), plot_std=c["std"])
    if c["label"] is not None:
        kw["x_label"] = c["label"]
    ax = Figure().subplots()
    module.plot_mi(ax, results, column, **kw)
    require(results.equals(before), "the results were modified")

    groups = {}
    for r in rows:
        groups.setdefault(r["estimator_id"], {}).setdefault(r[column], []).append(r["mi_estimate"])
        groups.setdefault("True MI", {}).setdefault(r[column], []).append(r["mi_true"])
    names = dict(names_of(c), **{"True MI": "True MI"})
    lines = {line.get_label(): line for line in ax.get_lines()}
    require(
        len(ax.get_lines()) == len(groups) and set(lines) == {names[g] for g in groups},
        "one curve for each estimator and the true value",
        got=sorted(lines),
    )
    for g, points in groups.items():
        line = lines[names[g]]
        xs = sorted(points)
        close(np.asarray(line.get_xdata(), float), xs, what=f"abscissae of {g}")
        close(np.asarray(line.get_ydata(), float), [mean(points[x]) for x in xs], rtol=1e-9, atol=1e-12, what=f"curve of {g}")
        if g != "True MI":
            require(same_color(line.get_color(), colours[g]), "colour of the curve", got=line.get_color(), want=colours[g])
    bands = list(ax.collections)
    require(len(bands) == ((len(groups) - 1) if c["std"] else 0), "number of bands", got=len(bands))
    unmatched = [g for g in groups if g != "True MI"] if c["std"] else []
    for g in unmatched:
        points = groups[g]
        corners = set()
        for x in points:
            if len(points[x]) > 1:
                m, s = mean(points[x]), float(np.std(points[x], ddof=1))
                corners |= {(x, m - s), (x, m + s)}
        band = next(b for b in bands if same_color(b.get_facecolor()[0][:3], colours[g]))
        vertices = [p for path in band.get_paths() for p in path.vertices]
        for x, y in corners:
            require(
                any(abs(p[0] - x) <= 1e-9 * (1 + abs(x)) and abs(p[1] - y) <= 1e-9 * (1 + abs(y)) for p in vertices),
                "one standard deviation around the mean",
                estimator=g, x=x, want=y,
            )  # fmt: skip
        for p in vertices:
            require(
                any(abs(p[0] - x) <= 1e-9 * (1 + abs(x)) and abs(p[1] - y) <= 1e-9 * (1 + abs(y)) for x, y in corners),
                "vertices of the band",
                estimator=g, got=list(map(float, p)),
            )  # fmt: skip
    require(ax.get_xlabel() == (c["label"] or column), "label of the axis", got=ax.get_xlabel())
    require(ax.get_ylim()[0] == 0.0, "the axis starts at zero", got=ax.get_ylim())
    return "several points" if max(len(p) for p in groups.values()) > 1 else None


# --- reading -------------------------------------------------------------------------------------

CHARS = p28.CHARS + "\"'\\\n\t~`"


def _values():
    leaf = st.one_of(
        st.text(alphabet=CHARS, max_size=10),
        st.integers(-(10**9), 10**9),
        st.sampled_from([0.5, -1.25, 1e-05, 1e16, 1.5e-07, math.inf, -math.inf, math.nan, 0.0]),
        gen.flt(-10, 10),
        st.booleans(),
        st.none(),
        st.sampled_from(["None", "nan", "inf", "true", "yes", "1e-05", "null", "~", "", "[1, 2]", "{}", "0x10"]),
    )
    return st.recursive(
        leaf,
        lambda inner: st.one_of(
            st.lists(inner, max_size=4),
            st.dictionaries(st.text(alphabet="abcxyz_", min_size=1, max_size=5), inner, max_size=3),
        ),
        max_leaves=6,
    )


def _dicts():
    return st.dictionaries(st.text(alphabet="abcxyz_ :01'", min_size=1, max_size=6), _values(), max_size=4)


@st.composite
def _readings(draw):
    n = draw(st.integers(1, 5))
    return dict(
        n=n,
        params=[draw(_dicts()) for _ in range(n)],
        info=[draw(_dicts()) for _ in range(n)],
        limit=draw(st.sampled_from([None, None, 1.0, 0.0, -1.0, 100.0])),
        seed=draw(gen.seeds()),
    )


def identical(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(identical, a, b))
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    return type(a) is type(b) and a == b


@facet(FACETS, rule="several records", strategy=_readings, quick=150, thorough=8000, shards=2)
def dictionaries_are_restored(c):
    """Without unpacking: the dictionaries are those which were written."""
    module, _ = utils()
    rng = gen.rng_of(c)
    rows = [
        dict(estimator_id="e", task_id=f"t{i}", n_samples=10, seed=i, mi_estimate=float(rng.normal()), mi_true=1.0,
             task_params=c["params"][i], additional_information=c["info"][i])
        for i in range(c["n"])
    ]  # fmt: skip
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "results.csv")
        frame(rows).to_csv(path, index=False)
        kw = {} if c["limit"] is None else dict(max_mi_estimate=c["limit"])
        got = module.read_results(path, unpack_task_params=False, **kw).to_dict("records")
    want = [r for r in rows if c["limit"] is None or r["mi_estimate"] < c["limit"]]
    require(len(got) == len(want), "number of records", got=len(got), want=len(want))
    for r, g in zip(want, got):
        for k in ["estimator_id", "task_id", "n_samples", "seed"]:
            require(r[k] == g[k], "field", field=k, got=g[k], want=r[k])
        for k in ["mi_estimate", "mi_true"]:
            require(abs(r[k] - g[k]) <= 1e-11 * abs(r[k]), "field", field=k, got=g[k], want=r[k])
        for k in ["task_params", "additional_information"]:
            require(identical(r[k], g[k]), "dictionary", field=k, got=repr(g[k]), want=repr(r[k]))
    return "several records" if len(rows) > 1 else None


@st.composite
def _unpacked(draw):
    c = draw(p28._readings())
    return c


@facet(FACETS, rule="several records", strategy=_unpacked, quick=40, thorough=2000)
def dictionaries_are_unpacked(c):
    """The options decide which dictionaries become columns."""
    module, _ = utils()
    rows = p28.records(c)
    if not rows:
        return None
    for i, r in enumerate(rows):
        r["additional_information"] = c["info"][i % len(c["info"])]
        r["task_params"] = c["params"][c["tasks"].index(r["task_id"])]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "results.csv")
        frame(rows).to_csv(path, index=False)
        kw = {}
        if c["unpack"][0] is not None:
            kw["unpack_task_params"] = c["unpack"][0]
        if c["unpack"][1] is not None:
            kw["unpack_additional_information"] = c["unpack"][1]
        got = module.read_results(path, **kw).to_dict("records")
    require(len(got) == len(rows), "number of records", got=len(got), want=len(rows))
    for r, g in zip(rows, got):
        want = dict(r)
        if c["unpack"][0] is not False:
            want.update(want.pop("task_params"))
        if c["unpack"][1]:
            want.update(want.pop("additional_information"))
        for k, v in want.items():
            require(k in g, "field is missing", field=k, got=g)
            if k.startswith(("p_", "i_")) and isinstance(v, (bool, int)):
                require(same(float(v), float(g[k])), "field", field=k, got=g[k], want=v)
            else:
                require(p28.same(v, g[k]), "field", field=k, got=g[k], want=v)
        extra = [k for k in g if k not in want and not (isinstance(g[k], float) and math.isnan(g[k]))]
        require(not extra, "unexpected fields", got=extra)
    return "several records" if len(rows) > 1 else None


# --- rescaled tasks -------------------------------------------------------------------------------


@st.composite
def _scalings(draw):
    return dict(
        tasks=draw(st.permutations(TASKS))[: draw(st.integers(1, 4))],
        rho=draw(gen.flt(-0.95, 0.95)),
        scale=draw(st.sampled_from([1.0, 10.0, 0.01])),
        n=draw(st.integers(2, 60)),
        seed=draw(gen.seeds()),
    )


@facet(FACETS, rule="several tasks", strategy=_scalings, quick=20, thorough=600)
def rescaled_tasks(c):
    import bmi
    from bmi.samplers import BivariateNormalSampler

    module, _ = utils()
    tasks = {
        "key " + t: bmi.Task(
            BivariateNormalSampler(correlation=c["rho"], mean_x=3.0, std_x=c["scale"], std_y=1 + i),
            task_id=t,
            task_name="Name of " + t,
        )
        for i, t in enumerate(c["tasks"])
    }
    out = module.scale_tasks(tasks)
    in_order(out, tasks, "keys")
    for k, task in tasks.items():
        new = out[k]
        require((new.id, new.name) == (task.id, task.name), "identifier and name", got=(new.id, new.name))
        close(new.mutual_information, task.mutual_information, rtol=1e-9, atol=1e-12, what="mutual information")
        x, y = task.sample(c["n"], c["seed"] % 1000)
        u, v = new.sample(c["n"], c["seed"] % 1000)
        for a, b, what in [(x, u, "X"), (y, v, "Y")]:
            a, b = np.asarray(a, float), np.asarray(b, float)
            want = (a - a.mean(axis=0)) / a.std(axis=0)
            close(b, want, rtol=1e-4, atol=2e-3, what=f"rescaled {what}")
    return "several tasks" if len(tasks) > 1 else None
