"""P10: benchmark tasks describe themselves truthfully."""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import tasks as bt
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): generated constructor parameters and chains of task "
    "transforms, compared with what the documentation says about them; the catalogue is "
    "enumerated and every entry rebuilt from its identifier"
)
LEVEL_NOTE = (
    "All 40 catalogue tasks; 17 constructors over dims 1..4 and their parameter ranges; chains of "
    "up to 3 of 11 transforms."
)
N = 7


def plain(v):
    """What a YAML reader should return for a metadata value."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    return v


def describes_itself(task, n=N, seed=3):
    """Consistency of the metadata with the sampler, and of the stored metadata with the live one."""
    import yaml

    md = task.metadata
    x, y = task.sample(n, seed=seed)
    x, y = np.asarray(x), np.asarray(y)
    require(x.shape == (n, md.dim_x), "shape of X", got=x.shape, dim_x=md.dim_x)
    require(y.shape == (n, md.dim_y), "shape of Y", got=y.shape, dim_y=md.dim_y)
    require(
        (task.id, task.name, task.dim_x, task.dim_y, task.params)
        == (md.task_id, md.task_name, md.dim_x, md.dim_y, md.task_params),
        "properties differ from the metadata",
    )
    require(
        (task.sampler.dim_x, task.sampler.dim_y) == (md.dim_x, md.dim_y), "dimensions of the sampler"
    )
    mi = float(task.sampler.mutual_information())
    require(md.mi_true == mi and task.mutual_information == mi, "mutual information", got=md.mi_true, want=mi)
    require(np.isfinite(mi) and mi >= 0, "mutual information", got=mi)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "metadata.yaml")
        task.save_metadata(path)
        with open(path) as f:
            stored = yaml.safe_load(f)
    require(stored == plain(md.dict()), "stored metadata", stored=stored, live=md.dict())
    return x, y


def snapshot(task, seed=11):
    x, y = task.sample(N, seed=seed)
    md = task.metadata
    return md.json(), np.array(x, copy=True), np.array(y, copy=True)


def has_params(task, want, what):
    for k, v in want.items():
        require(k in task.params, f"{what}: parameter {k} is not recorded", got=task.params)
        got = task.params[k]
        if isinstance(v, float) or (isinstance(v, list) and v):
            close(got, v, rtol=1e-6, atol=1e-9, what=f"{what}: recorded {k}")
        else:
            require(got == v, f"{what}: recorded {k}", got=got, want=v)


def is_documented(task, c):
    """The base task is what its description says."""
    p = bt.full_params(c)
    require((task.dim_x, task.dim_y) == bt.base_dims(c), "dimensions", got=(task.dim_x, task.dim_y))
    require(task.name == (c.get("name") or bt.default_name(c)), "name", got=task.name)
    has_params(task, bt.recorded_params(c), "task")
    for k in bt.ID_PARAMS[c["ctor"]]:
        text = f"{p[k]:.5f}" if c["ctor"] == "lvm" and isinstance(p[k], float) else f"{p[k]}"
        require(text in task.id, f"identifier does not contain {k}", got=task.id, want=text)
    want = bt.closed_form_mi(c)
    if want is not None:
        close(task.mutual_information, want, rtol=1e-6, atol=1e-6, what="mutual information")


def has_documented_law(task, c, n=20000, seed=5):
    """Marginal laws and all pairwise dependencies of a sample, with 6.5 standard errors.

    The documented laws are centred and elliptical up to increasing maps of the coordinates:
    E[sign(u_i) sign(u_j)] = 2/pi asin(rho_ij), also with infinite variances."""
    from scipy import stats

    kind = c["ctor"]
    p = bt.full_params(c)
    if kind in bt.MIXTURES:
        return
    x, y = (np.asarray(a, dtype=float) for a in task.sample(n, seed=seed))
    if kind == "additive":
        eps = p["epsilon"]
        u = np.hstack([2 * x - 1, (y - x) / eps])
        require(np.abs(u).max() <= 1 + 1e-5, "sample outside of the support")
        cdfs = [lambda v: (np.clip(v, -1, 1) + 1) / 2] * 2
        m = np.eye(2)
    else:
        u = np.hstack([x, y])
        m = bt.matrix(c)
        law = stats.t(p["df"]) if "student" in kind else stats.norm()
        cdfs = [law.cdf] * u.shape[1]
        if kind == "bimodal":
            cdfs = [
                lambda v: 0.3 * stats.norm.cdf(v) + 0.7 * stats.norm.cdf(v - 5),
                lambda v: 0.5 * stats.norm.cdf(v + 1) + 0.5 * stats.norm.cdf(v - 3),
            ]
    w = np.stack([f(u[:, i]) for i, f in enumerate(cdfs)], axis=1)
    for i in range(w.shape[1]):
        d = stats.kstest(w[:, i], "uniform").statistic * np.sqrt(n)
        require(d < 4.0, f"marginal law of coordinate {i}", kolmogorov=d)
    s = np.sign(w - 0.5)
    got = s.T @ s / n
    want = 2 / np.pi * np.arcsin(np.clip(m, -1, 1))
    close(got, want, atol=6.5 / np.sqrt(n), what="dependence of the coordinates")


# ------------------------------------------------------------------ catalogue


def _catalogue_examples():
    return [dict(index=i) for i in range(40)]


@facet(
    FACETS,
    rule="every entry of the catalogue",
    strategy=lambda: st.fixed_dictionaries(dict(index=st.integers(0, 39))),
    examples=_catalogue_examples,
    quick=1,
    thorough=1,
    shards=4,
)
def catalogue_entries(c):
    import bmi

    tasks = bmi.BENCHMARK_TASKS
    require(tasks is bmi.benchmark.BENCHMARK_TASKS, "two catalogues")
    require(len(tasks) == 40, "number of tasks in the catalogue", got=len(tasks))
    key = list(tasks)[c["index"]]
    task = tasks[key]
    require(task.id == key, "key of the catalogue differs from the identifier", key=key, id=task.id)
    desc, chain = bt.parse_id(key)
    if desc is None:
        describes_itself(task)
        return "not rebuilt"
    x, y = describes_itself(task)
    # dim 50 tasks: the closed forms of P01/P02 are exact at any dimension
    fresh = bt.build_base(desc)
    is_documented(fresh, desc)
    if not chain:
        require(
            key.startswith("multinormal-sparse") or task.name == bt.default_name(desc),
            "name",
            got=task.name,
        )
    for tr in chain:
        fresh = bt.apply(fresh, tr)
    require(fresh.id == key, "rebuilding the task changes its identifier", got=fresh.id, key=key)
    close(task.mutual_information, fresh.mutual_information, rtol=1e-9, what="mutual information")
    close(task.mutual_information, bt.closed_form_mi(desc), rtol=1e-5, atol=1e-6, what="mutual information")
    xf, yf = fresh.sample(N, seed=3)
    close(x, xf, rtol=1e-5, atol=1e-5, what="X of the task named by the identifier")
    close(y, yf, rtol=1e-5, atol=1e-5, what="Y of the task named by the identifier")
    has_params(task, bt.recorded_params(desc), "catalogue task")
    return f"chain of {len(chain)}"


# ------------------------------------------------------------------ constructors


@facet(
    FACETS,
    rule="every constructor",
    strategy=lambda: bt.bases(),
    examples=lambda: [],
    quick=16,
    thorough=1500,
    shards=4,
)
def constructors(c):
    task = bt.build_base(c)
    describes_itself(task)
    is_documented(task, c)
    has_documented_law(task, c)
    again = bt.build_base(c)
    require(again.metadata.json() == task.metadata.json(), "rebuilt task has different metadata")
    return c["ctor"]


@st.composite
def _siblings(draw):
    c = draw(bt.bases(kinds=[k for k in bt.ID_PARAMS if bt.ID_PARAMS[k]], defaults=False))
    other = draw(bt.bases(kinds=[c["ctor"]], defaults=False))
    keys = [k for k in bt.ID_PARAMS[c["ctor"]] if k not in ("dim_x", "dim_y", "n_interacting")]
    return dict(base=c, other=other, keys=draw(st.lists(st.sampled_from(keys), unique=True, min_size=1)) if keys else [])


@facet(
    FACETS,
    rule="the siblings differ",
    strategy=_siblings,
    quick=20,
    thorough=3000,
    shards=3,
)
def siblings_have_different_identifiers(c):
    """Tasks of the same constructor with different parameters have different identifiers."""
    base = c["base"]
    # (a) change some parameters only, (b) change all of them
    mixed = dict(base, params={**base["params"], **{k: c["other"]["params"][k] for k in c["keys"]}})
    a = bt.build_base(base)
    label = None
    for other in (mixed, c["other"]):
        if "off_diag" in other["params"] and other["params"]["off_diag"] < 0:
            n = sum(bt.base_dims(other))
            if other["params"]["off_diag"] < -0.95 / (n - 1):
                continue
        b = bt.build_base(other)
        differ = bt.full_params(base) != bt.full_params(other)
        require((a.id != b.id) == differ, "identifiers", a=a.id, b=b.id, differ=differ)
        label = base["ctor"] if differ else label
    return label


# ------------------------------------------------------------------ derived tasks


@st.composite
def _derived(draw):
    c = draw(bt.bases(kinds=("bivariate", "additive", "dense", "2pair", "lvm", "sparse", "x", "inliers", "bimodal")))
    return dict(base=c, chain=draw(bt.chains(bt.base_dims(c), names=bt.TRANSFORMS)))


@facet(
    FACETS,
    rule="every chain of transforms",
    strategy=_derived,
    quick=9,
    thorough=1200,
    shards=6,
)
def derived_tasks(c):
    base = bt.build_base(c["base"])
    for tr in c["chain"]:
        before = snapshot(base)
        task = bt.apply(base, tr)
        describes_itself(task, n=20 if tr["t"] in ("uniformise", "gaussianise") else N)
        after = snapshot(base)
        require(before[0] == after[0], "metadata of the base task changed", before=before[0], after=after[0])
        require(
            np.array_equal(before[1], after[1]) and np.array_equal(before[2], after[2]),
            "sample of the base task changed",
        )
        if tr.get("id"):
            require(task.id == tr["id"], "given identifier", got=task.id)
        else:
            require(
                task.id.endswith("-" + base.id) and task.id != base.id,
                "identifier does not prefix the one of the base task",
                got=task.id,
                base=base.id,
            )
            require(tr["t"].split("_")[0] in task.id[: -len(base.id)], "prefix", got=task.id)
        if tr.get("name"):
            require(task.name == tr["name"], "given name", got=task.name)
        elif tr["t"] == "power":
            require(task.name == f"Power {tr['alpha']:.2f} @ {base.name}", "name", got=task.name)
        else:
            require(task.name == bt.DEFAULT_PREFIX[tr["t"]] + base.name, "name", got=task.name)
        added = bt.recorded_by_transform(tr)
        has_params(task, added, tr["t"])
        rest = {k: v for k, v in base.params.items() if k not in added}
        has_params(task, rest, f"{tr['t']} of the base task")
        require(
            (task.dim_x, task.dim_y) == bt.dims_after(tr["t"], (base.dim_x, base.dim_y)),
            "dimensions of the derived task",
        )
        require(
            task.mutual_information == base.mutual_information, "mutual information of the derived task"
        )
        base = task
    return "+".join(tr["t"] for tr in c["chain"][:2])


assert gen
