"""P23: external estimators pass the data and settings and surface the answer."""

import contextlib
import csv
import math
import os
import re
import shutil
import stat
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import boot, gen
from pbt.core import close, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis) with fault injection: generated configurations, samples "
    "and program behaviours, run against stand-in `Rscript` and `julia` programs which record "
    "how they are called"
)
LEVEL_NOTE = (
    "All 7 estimators; 1..130 columns, 1..25 rows; numeric, non-numeric and failing outputs, "
    "missing and non-executable programs; command-line options are checked against those declared "
    "in the bundled scripts."
)
ASSUMPTIONS = [
    "R and Julia are not installed: the bundled scripts themselves are not run, only the contract "
    "at the process boundary is checked."
]

STUB = """#!/bin/sh
d='{dir}'
echo run >> "$d/count"
printf '%s\\0' "$@" > "$d/args"
for a in "$@"; do case "$a" in /*) if [ -f "$a" ]; then cp "$a" "$d/file$i"; i=x$i; fi;; esac; done
cat "$d/stdout"
cat "$d/stderr" >&2
exit {code}
"""

# estimator -> (program, script, parameters with defaults, expected options)
SPECS = {
    "RKSGEstimator": ("Rscript", "rmi.R", dict(variant=1, neighbors=10)),
    "RLNNEstimator": ("Rscript", "rmi.R", dict(k=5, truncation=30)),
    "RBNSLEstimator": ("Rscript", "rmi.R", dict(proc=10)),
    "JuliaKSGEstimator": ("julia", "mi_estimator.jl", dict(variant=1, neighbors=10)),
    "JuliaHistogramEstimator": ("julia", "mi_estimator.jl", dict(bins=10)),
    "JuliaTransferEstimator": ("julia", "mi_estimator.jl", dict(bins=10)),
    "JuliaKernelEstimator": ("julia", "mi_estimator.jl", dict(bandwidth=1.0)),
}


def expected_options(cls, p):
    if cls == "RKSGEstimator":
        return {"method": f"KSG{p['variant']}", "neighbors": p["neighbors"]}
    if cls == "RLNNEstimator":
        return {"method": "LNN", "neighbors": p["k"], "truncation": p["truncation"]}
    if cls == "RBNSLEstimator":
        return {"method": "BNSL", "proc": p["proc"]}
    if cls == "JuliaKSGEstimator":
        return {"estimator": f"KSG{p['variant']}", "neighbors": p["neighbors"]}
    if cls == "JuliaHistogramEstimator":
        return {"estimator": "Histogram", "bins": p["bins"]}
    if cls == "JuliaTransferEstimator":
        return {"estimator": "Transfer", "bins": p["bins"]}
    return {"estimator": "Kernel", "bandwidth": p["bandwidth"]}


def declared(script):
    """Options declared in a script, and their defaults."""
    text = open(script).read()
    if script.endswith(".R"):
        return set(re.findall(r'add_argument\(\s*"--([a-z_]+)"', text))
    return set(re.findall(r'^\s*"--([a-z_]+)"\s*$', text, flags=re.M))


@st.composite
def configurations(draw):
    cls = draw(st.sampled_from(sorted(SPECS)))
    p = {}
    count = st.one_of(st.integers(1, 40), st.sampled_from([100, 99999, 1000000]))
    for name in SPECS[cls][2]:
        if draw(st.integers(0, 4)) == 0:
            continue  # the default
        if name == "variant":
            p[name] = draw(st.sampled_from([1, 2]))
        elif name == "proc":
            p[name] = draw(st.sampled_from([0, 1, 2, 10]))
        elif name == "bins":
            p[name] = draw(count) + 1
        elif name == "bandwidth":
            p[name] = draw(
                st.one_of(
                    gen.flt(1e-3, 100), st.integers(1, 9), st.sampled_from([1e-7, 1e22, 0.1 + 0.2, 1 / 3, 2.5e-300])
                )
            )
        else:
            p[name] = draw(count)
    return dict(cls=cls, params=p)


OK_OUTPUTS = [
    "0.5", "0", "-0.25", "1", "1e-05", "2.5E+3", "  0.125", "3.75\n", "\n\n0.75\n\n", "nan", "NaN",
    "inf", "Inf", "-inf", "+1.5", "\t.5 \n", "0.1234567890123456789", "1e400", "-0.0",
]  # fmt: skip
BAD_OUTPUTS = [
    "", " \n", "NA", "abc", "0.5 0.6", "[1] 0.5", "0.5\n0.6", "Warning: x\n0.5", "0,5", "1.2.3",
    "NULL", "0.5 nats", "Error in library(rmi)", "0x1p3", "--1", "1e", "missing",
]  # fmt: skip


@st.composite
def _cases(draw):
    many = draw(st.integers(0, 3)) == 0
    dims = st.integers(1, 130) if many else st.integers(1, 4)
    kind = draw(st.sampled_from(["ok", "ok", "ok", "random", "bad", "fail", "fail_numeric", "missing", "noexec"]))
    c = dict(
        config=draw(configurations()),
        dx=draw(dims),
        dy=draw(dims),
        n=draw(st.sampled_from([1, 2, 3, 25])),
        data=draw(st.sampled_from(["float64", "float64", "float32", "int", "lists", "jax"])),
        entry=draw(st.sampled_from(["estimate", "info", "path", "relative", "benchmark"])),
        kind=kind,
        seed=draw(gen.seeds()),
    )
    if kind == "ok":
        c["out"] = draw(st.sampled_from(OK_OUTPUTS))
    elif kind == "random":
        c["out"] = repr(draw(st.floats(allow_nan=False))) + draw(st.sampled_from(["", "\n", "\r\n"]))
    elif kind == "bad":
        c["out"] = draw(st.sampled_from(BAD_OUTPUTS))
    elif kind == "fail":
        c["out"] = draw(st.sampled_from(["", "Error: there is no package called rmi", "two\nlines"]))
        c["err"] = draw(st.sampled_from(["", "Execution halted", "é trace\n  at x"]))
        c["code"] = draw(st.sampled_from([1, 2, 77, 255]))
    elif kind == "fail_numeric":
        c["out"] = "0.5\n"
        c["code"] = draw(st.sampled_from([1, 3]))
    return c


@contextlib.contextmanager
def stubs(c):
    """A scratch directory with stand-ins for the programs, alone on the PATH for them."""
    root = tempfile.mkdtemp(prefix="p23-")
    old_path, old_tmp, old_dir = os.environ.get("PATH"), os.environ.get("TMPDIR"), tempfile.tempdir
    try:
        rec, bins, tmp, work = (os.path.join(root, d) for d in ("rec", "bin", "t m.p", "work"))
        for d in (rec, bins, tmp, work):
            os.mkdir(d)
        for name, text in [("stdout", c.get("out", "")), ("stderr", c.get("err", ""))]:
            with open(os.path.join(rec, name), "wb") as f:
                f.write(text.encode())
        for prog in ("Rscript", "julia"):
            if c["kind"] == "missing":
                continue
            p = os.path.join(bins, prog)
            d = os.path.join(rec, prog)
            os.mkdir(d)
            for name in ("stdout", "stderr"):
                shutil.copy(os.path.join(rec, name), d)
            with open(p, "w") as f:
                f.write(STUB.format(dir=d, code=c.get("code", 0)))
            os.chmod(p, stat.S_IRUSR | (0 if c["kind"] == "noexec" else stat.S_IXUSR))
        os.environ["PATH"] = bins + os.pathsep + "/usr/bin" + os.pathsep + "/bin"
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = tmp
        yield dict(rec=rec, tmp=tmp, work=work)
    finally:
        os.environ["PATH"] = old_path or ""
        if old_tmp is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = old_tmp
        tempfile.tempdir = old_dir
        assert root.startswith("/") and "p23-" in root
        shutil.rmtree(root, ignore_errors=True)


def build(config):
    import bmi.estimators.external.julia_estimators as ju
    import bmi.estimators.external.r_estimators as r

    cls = config["cls"]
    return getattr(r if cls.startswith("R") else ju, cls)(**config["params"])


def sample(c):
    import jax.numpy as jnp

    rng = gen.rng_of(c)
    out = []
    for d in (c["dx"], c["dy"]):
        if c["data"] == "int":
            a = rng.integers(-1000, 1000, size=(c["n"], d))
        else:
            a = rng.normal(size=(c["n"], d)) * 10.0 ** rng.uniform(-6, 6, size=(c["n"], d))
            a[rng.integers(0, 5, size=a.shape) == 0] = 0.0
        if c["data"] in ("float32", "jax"):
            a = a.astype(np.float32)
        out.append(a)
    give = out
    if c["data"] == "lists":
        give = [a.tolist() for a in out]
    elif c["data"] == "jax":
        give = [jnp.asarray(a) for a in out]
    return out, give


def check_call(c, spec, env, x, y):
    """The recorded call of the program."""
    prog, script, defaults = spec
    d = os.path.join(env["rec"], prog)
    other = os.path.join(env["rec"], "julia" if prog == "Rscript" else "Rscript")
    require(not os.path.exists(os.path.join(other, "count")), "the wrong program was run")
    require(open(os.path.join(d, "count")).read() == "run\n", "program was not run exactly once")
    args = open(os.path.join(d, "args"), "rb").read().decode().split("\0")[:-1]
    path = os.path.join(boot.REPO, "external", script)
    require(os.path.isabs(args[0]) and os.path.realpath(args[0]) == os.path.realpath(path), "script", got=args[0], want=path)
    require(os.path.isfile(args[0]), "script does not exist", got=args[0])
    positional, options, i, rest = [], {}, 0, args[1:]
    while i < len(rest):
        if rest[i].startswith("--"):
            name, eq, value = rest[i][2:].partition("=")
            if not eq:
                require(i + 1 < len(rest), "option without a value", got=args)
                value = rest[i + 1]
                i += 1
            require(name not in options, "option is given twice", got=args)
            options[name] = value
        else:
            positional.append(rest[i])
        i += 1
    require(len(positional) == 3, "positional arguments", got=positional)
    require(os.path.isabs(positional[0]), "path of the sample is not absolute", got=positional)
    require(positional[1:] == [str(c["dx"]), str(c["dy"])], "dimensions", got=positional[1:], want=(c["dx"], c["dy"]))
    known = declared(path)
    require(set(options) <= known, "undeclared option", got=sorted(options), want=sorted(known))
    want = expected_options(c["config"]["cls"], {**defaults, **c["config"]["params"]})
    for name, value in want.items():
        require(name in options, f"--{name} is not passed", got=args)
        if isinstance(value, str):
            require(options[name] == value, f"--{name}", got=options[name], want=value)
        elif isinstance(value, int) and name != "bandwidth":
            require(options[name] == str(value), f"--{name}", got=options[name], want=value)
        else:
            require(float(options[name]) == float(value), f"--{name}", got=options[name], want=value)
    # extra options would change nothing only at their declared defaults: none is expected
    require(set(options) == set(want), "unexpected options", got=options, want=want)
    # the file
    files = sorted(f for f in os.listdir(d) if f.startswith("file"))
    require(len(files) == 2, "files named in the call", got=files)  # script and sample
    with open(os.path.join(d, files[1]), newline="") as f:
        rows = list(csv.reader(f))
    require(len(rows) == c["n"] + 1, "rows of the file", got=len(rows), want=c["n"] + 1)
    require(len(set(rows[0])) == c["dx"] + c["dy"], "header of the file", got=rows[0])
    require(
        [h[0] for h in rows[0]] == ["X"] * c["dx"] + ["Y"] * c["dy"], "header of the file", got=rows[0]
    )
    got = np.array([[float(v) for v in row] for row in rows[1:]])
    want = np.hstack([x, y]).astype(float)
    rtol = 1e-6 if c["data"] in ("float32", "jax") else 1e-12
    close(got, want, rtol=rtol, atol=0.0, what="file handed to the program")


def run(c, est, env, x, y):
    import bmi
    from bmi.utils import save_sample

    gx, gy = x, y
    if c["entry"] == "estimate":
        return est.estimate(gx, gy)
    if c["entry"] == "info":
        res = est.estimate_with_info(gx, gy)
        require(isinstance(res, bmi.interface.EstimateResult), "type of the result", got=type(res))
        return res.mi_estimate
    path = os.path.join(env["work"], "sample.csv")
    save_sample(path, gx, gy)
    if c["entry"] == "path":
        return est.estimate_with_info_from_path(path).mi_estimate
    if c["entry"] == "relative":
        return est.estimate_with_info_from_path(os.path.relpath(path)).mi_estimate
    return bmi.run_estimator(
        estimator=est, estimator_id="e", sample_path=path, task_id="t", seed=1,
        additional_information={"note": "n"},
    )  # fmt: skip


def _example(cls, entry, kind="ok", out="0.5\n", **kw):
    c = dict(config=dict(cls=cls, params={}), dx=2, dy=3, n=3, data="float64", entry=entry, kind=kind, out=out, seed=1)
    return {**c, **kw}


def examples():
    out = [_example(cls, e) for cls in sorted(SPECS) for e in ("estimate", "benchmark")]
    out += [_example("RKSGEstimator", "benchmark", kind="fail", out="boom", err="why", code=1)]
    out += [_example("JuliaKernelEstimator", "benchmark", kind="bad", out="boom why")]
    out += [_example("JuliaKSGEstimator", "estimate", kind=k) for k in ("missing", "noexec")]
    return out


@facet(
    FACETS,
    rule="every run of a program",
    strategy=_cases,
    examples=examples,
    quick=220,
    thorough=8000,
    shards=5,
)
def calls_and_outcomes(c):
    import subprocess

    import bmi

    est = build(c["config"])
    spec = SPECS[c["config"]["cls"]]
    (x, y), (gx, gy) = sample(c)
    x0, y0 = x.copy(), y.copy()
    params = est.parameters()
    want_params = {**spec[2], **c["config"]["params"]}
    require(dict(params.dict()) == want_params, "parameters", got=params.dict(), want=want_params)
    error = res = None
    with stubs(c) as env:
        try:
            res = run(c, est, env, gx, gy)
        except Exception as e:  # compared with the expected kind of failure below
            error = e
        if c["kind"] not in ("missing", "noexec"):
            check_call(c, spec, env, x, y)
        require(os.listdir(env["tmp"]) == [], "temporary files are left behind", got=os.listdir(env["tmp"]))
        left = [f for f in os.listdir(env["work"]) if f != "sample.csv"]
        require(left == [], "files are left beside the sample", got=left)
    require(np.array_equal(x, x0) and np.array_equal(y, y0), "sample was modified")
    require(dict(est.parameters().dict()) == want_params, "parameters after the run")

    good = c["kind"] in ("ok", "random")
    if c["entry"] == "benchmark":
        require(error is None, "run_estimator raised", got=repr(error))
        require(isinstance(res, bmi.RunResult), "record", got=type(res))
        require(res.success is good, "success", got=res.success, info=res.additional_information)
        require(res.additional_information.get("note") == "n", "information is lost")
        if good:
            same(res.mi_estimate, float(c["out"]))
            require(res.additional_information == {"note": "n"}, "information", got=res.additional_information)
        else:
            require(math.isnan(res.mi_estimate), "estimate of a failed run", got=res.mi_estimate)
            text = str({k: v for k, v in res.additional_information.items() if k != "note"})
            for word in re.findall(r"[A-Za-z0-9]+", c.get("out", "") + " " + c.get("err", "")):
                require(word in text, "output of the program is lost", got=text, word=word)
    elif good:
        require(error is None, "raised for a numeric answer", got=repr(error), out=c["out"])
        require(isinstance(res, float), "type of the estimate", got=type(res))
        same(res, float(c["out"]))
    else:
        require(error is not None, "no error was raised", got=res, kind=c["kind"])
        if c["kind"] == "bad":
            require(isinstance(error, ValueError), "kind of error", got=repr(error))
        elif c["kind"] in ("fail", "fail_numeric"):
            require(isinstance(error, subprocess.CalledProcessError), "kind of error", got=repr(error))
            require(error.returncode == c["code"], "exit code", got=error.returncode)
        else:
            require(isinstance(error, OSError), "kind of error", got=repr(error))
    return f"{c['config']['cls']} {c['kind']} {c['entry']}"


def same(got, want):
    require(got == want or (math.isnan(got) and math.isnan(want)), "estimate", got=got, want=want)


@st.composite
def _histories(draw):
    k = draw(st.integers(2, 4))
    return dict(
        configs=draw(st.lists(configurations(), min_size=1, max_size=3)),
        steps=[
            dict(
                which=draw(st.integers(0, 2)),
                dx=draw(st.integers(1, 3)),
                dy=draw(st.integers(1, 3)),
                n=draw(st.sampled_from([1, 4])),
                entry=draw(st.sampled_from(["estimate", "info", "path"])),
                out=draw(st.sampled_from(["0.5", "1.5", "NA", "fail"])),
                seed=draw(gen.seeds()),
            )
            for _ in range(k)
        ],
    )


@facet(FACETS, rule="at least two runs", strategy=_histories, quick=50, thorough=2500, shards=3)
def estimators_are_reusable(c):
    """Each run depends on its own sample only, also after failures."""
    ests = [(cfg, build(cfg)) for cfg in c["configs"]]
    for step in c["steps"]:
        cfg, est = ests[step["which"] % len(ests)]
        s = dict(step, config=cfg, data="float64", kind="ok")
        if step["out"] == "fail":
            s.update(kind="fail", code=4)
        (x, y), _ = sample(s)
        with stubs(s) as env:
            error = res = None
            try:
                res = run(s, est, env, x, y)
            except Exception as e:
                error = e
            check_call(s, SPECS[cfg["cls"]], env, x, y)
            require(os.listdir(env["tmp"]) == [], "temporary files are left behind")
        if step["out"] in ("NA", "fail"):
            require(error is not None, "no error was raised", got=res)
        else:
            require(res == float(step["out"]), "estimate", got=res, error=repr(error))
    return "history"
