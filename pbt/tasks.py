"""Generated descriptions of benchmark tasks, with what is documented about them.

A task is described by a constructor, its parameters and a chain of transforms; `expected`
re-derives dimensions, identifier parts, name, parameters and distribution from the text of
the documentation only."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen

MC_SAMPLE = 200

# constructor -> ordered parameters printed in the identifier
ID_PARAMS = {
    "additive": ["epsilon"],
    "bivariate": ["gaussian_correlation"],
    "bimodal": ["gaussian_correlation"],
    "lvm": ["dim_x", "dim_y", "n_interacting", "alpha", "lambd", "beta", "eta"],
    "dense": ["dim_x", "dim_y", "off_diag"],
    "sparse": ["dim_x", "dim_y", "n_interacting", "strength"],
    "2pair": ["dim_x", "dim_y", "strength"],
    "student_identity": ["dim_x", "dim_y", "df"],
    "student_dense": ["dim_x", "dim_y", "df", "off_diag"],
    "student_sparse": ["dim_x", "dim_y", "df", "n_interacting", "strength"],
    "student_2pair": ["dim_x", "dim_y", "df", "strength"],
    "x": ["gaussian_correlation"],
    "ai": [],
    "galaxy": ["speed", "distance"],
    "waves": ["n_components", "wave_amplitude", "wave_frequency"],
    "concentric": ["dim_x", "n_components"],
    "inliers": ["dim_x", "dim_y", "n_interacting", "strength", "inlier_fraction"],
}
MIXTURES = ("x", "ai", "galaxy", "waves", "concentric", "inliers")
DEFAULTS = {
    "bivariate": dict(gaussian_correlation=0.75),
    "bimodal": dict(gaussian_correlation=0.75),
    "lvm": dict(beta=0.0),
    "dense": dict(off_diag=0.5),
    "sparse": dict(n_interacting=2, strength=2.0),
    "2pair": dict(strength=2.0),
    "student_dense": dict(off_diag=0.5),
    "student_sparse": dict(n_interacting=2, strength=2.0),
    "student_2pair": dict(strength=2.0),
    "x": dict(gaussian_correlation=0.9),
    "galaxy": dict(speed=0.5, distance=3.0),
    "waves": dict(n_components=12, wave_amplitude=5.0, wave_frequency=3.0),
    "concentric": dict(n_components=3),
    "inliers": dict(n_interacting=2, strength=2.0, inlier_fraction=0.2),
}
NAMED = ("lvm", "dense", "sparse", "2pair", "student_identity", "student_dense", "student_sparse",
         "student_2pair")  # constructors which accept a name


def _r(lo, hi, digits=3):
    """Numbers with a short printed form."""
    return st.integers(int(lo * 10**digits), int(hi * 10**digits)).map(lambda i: i / 10**digits)


def _dims(lo=1, hi=4):
    return st.sampled_from([d for d in [(1, 1), (2, 3), (3, 2), (3, 3), (2, 2), (4, 2), (1, 3)]
                            if lo <= min(d) and max(d) <= hi])


@st.composite
def bases(draw, kinds=tuple(ID_PARAMS), defaults=True):
    kind = draw(st.sampled_from(kinds))
    p = {}
    if kind in ("bivariate", "bimodal"):
        p["gaussian_correlation"] = draw(_r(-0.95, 0.95))
    elif kind == "additive":
        p["epsilon"] = draw(_r(0.05, 3))
    elif kind == "x":
        p["gaussian_correlation"] = draw(_r(0.05, 0.95))
    elif kind == "galaxy":
        p.update(speed=draw(_r(0.05, 2)), distance=draw(_r(0.5, 6)))
    elif kind == "waves":
        p.update(
            n_components=draw(st.integers(1, 4)),
            wave_amplitude=draw(_r(0.5, 6)),
            wave_frequency=draw(_r(0.5, 5)),
        )
    elif kind == "concentric":
        p.update(dim_x=draw(st.integers(1, 3)), n_components=draw(st.integers(1, 4)))
    elif kind != "ai":
        pairs2 = kind in ("2pair", "student_2pair")
        dx, dy = draw(_dims(lo=2 if pairs2 else 1))
        p.update(dim_x=dx, dim_y=dy)
        if "student" in kind:
            p["df"] = draw(st.integers(1, 12))
        if "n_interacting" in ID_PARAMS[kind]:
            p["n_interacting"] = draw(st.integers(0 if kind == "lvm" else 1, min(dx, dy)))
        if "off_diag" in ID_PARAMS[kind]:
            # the smallest eigenvalue is 1 + (dim - 1) * off_diag
            p["off_diag"] = draw(_r(-0.9 / (dx + dy - 1), 0.9))
        if "strength" in ID_PARAMS[kind]:
            p["strength"] = draw(_r(0.1, 4))
        if kind == "lvm":
            p.update(
                alpha=draw(_r(0, 2)), lambd=draw(_r(0, 3)), beta=draw(_r(0, 1.5)), eta=draw(_r(0, 3))
            )
            if draw(st.booleans()):
                p["eta"] = None
        if kind == "inliers":
            p["inlier_fraction"] = draw(_r(0, 1))
    drop = []
    if defaults:  # parameters left to their documented defaults
        for k in DEFAULTS.get(kind, {}):
            if k == "n_interacting" and min(p["dim_x"], p["dim_y"]) < 2:
                continue
            if k == "off_diag" and p[k] < 0:
                continue
            if draw(st.integers(0, 4)) == 0:
                drop.append(k)
    for k in drop:
        del p[k]
    return dict(ctor=kind, params=p, name=draw(st.sampled_from([None, None, "A name"])) if kind in NAMED else None)


def full_params(c):
    p = {**DEFAULTS.get(c["ctor"], {}), **c["params"]}
    if c["ctor"] == "lvm" and p.get("eta") is None:
        p["eta"] = p["lambd"]
    if c["ctor"] in ("2pair", "student_2pair"):
        p["n_interacting"] = 2
    return p


def base_dims(c):
    p = full_params(c)
    kind = c["ctor"]
    if kind in ("additive", "bivariate", "bimodal", "x", "ai"):
        return 1, 1
    if kind in ("galaxy", "waves"):
        return 2, 1
    if kind == "concentric":
        return p["dim_x"], 1
    return p["dim_x"], p["dim_y"]


def default_name(c):
    p = full_params(c)
    dx, dy = base_dims(c)
    kind = c["ctor"]
    d = f"{dx} × {dy}"
    return {
        "additive": lambda: f"Uniform 1 × 1 (additive noise={p['epsilon']})",
        "bivariate": lambda: "Bivariate normal 1 × 1",
        "bimodal": lambda: "Bimodal 1 × 1",
        "lvm": lambda: f"Multinormal {d} (LVM)",
        "dense": lambda: f"Multinormal {d} (dense)",
        "sparse": lambda: f"Multinormal {d} (sparse)",
        "2pair": lambda: f"Multinormal {d} (2-pair)",
        "student_identity": lambda: f"Student-t {d} (dof={p['df']})",
        "student_dense": lambda: f"Student-t {d} (dof={p['df']}, dense)",
        "student_sparse": lambda: f"Student-t {d} (dof={p['df']}, sparse)",
        "student_2pair": lambda: f"Student-t {d} (dof={p['df']}, 2-pair)",
        "x": lambda: "X 1 × 1",
        "ai": lambda: "AI 1 × 1",
        "galaxy": lambda: "Galaxy 2 × 1",
        "waves": lambda: "Waves 2 × 1",
        "concentric": lambda: f"Concentric {d}",
        "inliers": lambda: f"Multinormal {d} (sparse, {p['inlier_fraction']:.0%} inliers)",
    }[kind]()


def recorded_params(c):
    """Entries which have to be among the recorded parameters of the task."""
    p = full_params(c)
    kind = c["ctor"]
    if kind == "lvm":
        return dict(
            dim_x=p["dim_x"], dim_y=p["dim_y"], n_interacting=p["n_interacting"],
            alpha=p["alpha"], lambd=p["lambd"], beta_x=p["beta"], beta_y=p["beta"],
            eta_x=p["eta"], eta_y=p["eta"], epsilon_x=1.0, epsilon_y=1.0,
        )
    out = {k: v for k, v in p.items() if k not in ("dim_x", "dim_y")}
    if "df" in out:
        out["dof"] = out.pop("df")
    if kind == "dense":
        out["covariance"] = equicorrelation(c).tolist()
    if kind == "student_dense":
        out["dispersion"] = equicorrelation(c).tolist()
    return out


def equicorrelation(c):
    n = sum(base_dims(c))
    m = np.full((n, n), full_params(c)["off_diag"], dtype=float)
    np.fill_diagonal(m, 1.0)
    return m


def lvm_correlation(dx, dy, k, alpha, lambd, beta, eta, eps=1.0):
    """Correlation of the documented latent variable model, from its latent variables."""
    rows = []
    n = dx + dy
    for i in range(n):
        is_x = i < dx
        j = i if is_x else i - dx
        latent = {"U": alpha, "UX" if is_x else "UY": beta, ("E", i): eps}
        if j < k:
            latent[("Z", j)] = lambd
        else:
            latent[("V", i)] = eta
        rows.append(latent)
    cov = np.array([[sum(a[z] * b.get(z, 0.0) for z in a) for b in rows] for a in rows])
    s = np.sqrt(np.diag(cov))
    return cov / np.outer(s, s)


def matrix(c):
    """Covariance or dispersion of the Gaussian and Student tasks."""
    p = full_params(c)
    dx, dy = base_dims(c)
    kind = c["ctor"]
    if kind in ("bivariate", "bimodal"):
        r = p["gaussian_correlation"]
        return np.array([[1, r], [r, 1.0]])
    if kind == "student_identity":
        return np.eye(dx + dy)
    if kind in ("dense", "student_dense"):
        return equicorrelation(c)
    if kind == "lvm":
        return lvm_correlation(dx, dy, p["n_interacting"], p["alpha"], p["lambd"], p["beta"], p["eta"])
    if kind in ("sparse", "2pair", "student_sparse", "student_2pair", "inliers"):
        return lvm_correlation(dx, dy, p["n_interacting"], 0.0, p["strength"], 0.0, p["strength"])
    return None


def gaussian_mi(m, dx):
    ld = lambda a: np.linalg.slogdet(a)[1]  # noqa: E731
    return 0.5 * (ld(m[:dx, :dx]) + ld(m[dx:, dx:]) - ld(m))


def closed_form_mi(c):
    """Mutual information of the documented distribution, if it has a closed form."""
    from pbt.props.p02 import correction
    from pbt.props.p03 import additive_uniform_mi

    kind = c["ctor"]
    dx, dy = base_dims(c)
    if kind == "additive":
        return additive_uniform_mi(full_params(c)["epsilon"])
    if kind in MIXTURES:
        return None
    out = gaussian_mi(matrix(c), dx)
    if "student" in kind:
        out += correction(full_params(c)["df"], dx, dy)
    return out


def build_base(c, **extra):
    import bmi.benchmark.tasks as t
    from bmi.benchmark.tasks.student import task_student_identity

    fn = {
        "additive": t.task_additive_noise,
        "bivariate": t.task_bivariate_normal,
        "bimodal": t.task_bimodal_gaussians,
        "lvm": t.task_multinormal_lvm,
        "dense": t.task_multinormal_dense,
        "sparse": t.task_multinormal_sparse,
        "2pair": t.task_multinormal_2pair,
        "student_identity": task_student_identity,
        "student_dense": t.task_student_dense,
        "student_sparse": t.task_student_sparse,
        "student_2pair": t.task_student_2pair,
        "x": t.task_x,
        "ai": t.task_ai,
        "galaxy": t.task_galaxy,
        "waves": t.task_waves,
        "concentric": t.task_concentric_multinormal,
        "inliers": t.task_multinormal_sparse_w_inliers,
    }[c["ctor"]]
    kw = dict(c["params"])
    if c.get("name"):
        kw["task_name"] = c["name"]
    if c["ctor"] in MIXTURES:
        kw["mi_estimate_sample"] = c.get("mc", MC_SAMPLE)
    return fn(**kw, **extra)


# ------------------------------------------------------------------ transforms of tasks

TRANSFORMS = [
    "wiggly", "normal_cdf", "half_cube", "asinh", "power", "swissroll", "spiral", "rotate",
    "rescale", "uniformise", "gaussianise",
]
ROWWISE = TRANSFORMS[:8]
PREFIX = {"swissroll": "swissroll_x-"}
DEFAULT_PREFIX = {
    "wiggly": "Wiggly @ ", "normal_cdf": "Normal CDF @ ", "half_cube": "Half-cube @ ",
    "asinh": "Asinh @ ", "spiral": "Spiral @ ", "rotate": "Rotate @ ", "rescale": "Rescale @ ",
    "uniformise": "Uniformise @ ", "gaussianise": "Gaussianise @ ",
}


def applicable(name, dims):
    dx, dy = dims
    if name == "swissroll":
        return dx == 1
    if name == "spiral":
        return dx >= 2 and dy >= 3
    if name == "rotate":
        return dx >= 3 and dy >= 3
    return True


def dims_after(name, dims):
    return (2, dims[1]) if name == "swissroll" else dims


@st.composite
def chains(draw, dims, max_len=3, names=TRANSFORMS):
    out = []
    for _ in range(draw(st.integers(1, max_len))):
        name = draw(st.sampled_from([n for n in names if applicable(n, dims)]))
        tr = dict(t=name, name=draw(st.sampled_from([None, None, "Another name"])))
        if name == "spiral":
            tr["speed"] = draw(st.sampled_from([None, 0.5, 1.0, 2.0, 1 / 3]))
            tr["normalize"] = draw(st.sampled_from([None, True, False]))
        if name == "power":
            tr["alpha"] = draw(st.sampled_from([0.5, 1.5, 2, 0.75]))
        if name == "rescale":
            tr["id"] = draw(st.sampled_from([None, None, "given-id"]))
        if name in ("uniformise", "gaussianise"):
            tr["n_quantiles"] = draw(st.sampled_from([None, 5, 20]))
            tr["random_seed"] = draw(st.sampled_from([None, 3]))
        if name == "swissroll":
            tr["name"] = "Swiss roll"
        dims = dims_after(name, dims)
        out.append(tr)
    return out


def apply(task, tr):
    import bmi.benchmark.tasks as t
    from bmi.benchmark.tasks.asinh import transform_asinh_task
    from bmi.benchmark.tasks.power import transform_power_task

    fn = {
        "wiggly": t.transform_wiggly_task,
        "normal_cdf": t.transform_normal_cdf_task,
        "half_cube": t.transform_half_cube_task,
        "asinh": transform_asinh_task,
        "power": transform_power_task,
        "swissroll": t.transform_swissroll_task,
        "spiral": t.transform_spiral_task,
        "rotate": t.transform_rotate_task,
        "rescale": t.transform_rescale,
        "uniformise": t.transform_uniformise,
        "gaussianise": t.transform_gaussianise,
    }[tr["t"]]
    kw = {}
    if tr.get("name"):
        kw["task_name"] = tr["name"]
    for key, arg in [("speed", "speed"), ("normalize", "normalize_speed"), ("alpha", "alpha"),
                     ("id", "task_id"), ("n_quantiles", "n_quantiles"), ("random_seed", "random_seed")]:
        if tr.get(key) is not None:
            kw[arg] = tr[key]
    return fn(task, **kw)


def recorded_by_transform(tr):
    if tr["t"] == "spiral":
        return dict(
            speed=1.0 if tr.get("speed") is None else tr["speed"],
            normalize_speed=True if tr.get("normalize") is None else tr["normalize"],
        )
    if tr["t"] == "power":
        return dict(alpha=float(tr["alpha"]))
    if tr["t"] in ("uniformise", "gaussianise"):
        return dict(n_quantiles=100 if tr.get("n_quantiles") is None else tr["n_quantiles"])
    return {}


def rotate_pair(a, i, j, angle):
    """x_i' = cos x_i - sin x_j, x_j' = sin x_i + cos x_j, in each row."""
    out = a.copy()
    c, s = np.cos(angle), np.sin(angle)
    out[:, i] = c * a[:, i] - s * a[:, j]
    out[:, j] = s * a[:, i] + c * a[:, j]
    return out


def generator(n, entries):
    g = np.zeros((n, n))
    for w, i, j in entries:
        g[i, j] -= w
        g[j, i] += w
    return g


def reference_map(tr, x, y):
    """The documented map of the (rowwise) transform on double-precision arrays."""
    from scipy.linalg import expm
    from scipy.special import ndtr

    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    t = tr["t"]
    if t == "wiggly":
        fx = x + 0.4 * np.sin(x) + 0.2 * np.sin(1.7 * x + 1) + 0.03 * np.sin(3.3 * x - 2.5)
        fy = (
            y - 0.4 * np.sin(0.4 * y) + 0.17 * np.sin(1.3 * y + 3.5) + 0.02 * np.sin(4.3 * y - 2.5)
        )
        return fx, fy
    if t == "normal_cdf":
        return ndtr(x), ndtr(y)
    if t == "half_cube":
        return np.sign(x) * np.abs(x) ** 1.5, np.sign(y) * np.abs(y) ** 1.5
    if t == "asinh":
        return np.arcsinh(x), np.arcsinh(y)
    if t == "power":
        a = tr["alpha"]
        return np.sign(x) * np.abs(x) ** a, np.sign(y) * np.abs(y) ** a
    if t == "swissroll":
        s = 1.5 * np.pi * (1 + 2 * x[:, 0])
        return np.stack([s * np.cos(s), s * np.sin(s)], axis=1) / 21, y
    if t == "spiral":
        p = recorded_by_transform(tr)
        sx = p["speed"] / x.shape[1] if p["normalize_speed"] else p["speed"]
        sy = p["speed"] / y.shape[1] if p["normalize_speed"] else p["speed"]
        return (
            rotate_pair(x, 0, 1, sx * (x**2).sum(1)),
            rotate_pair(y, 1, 2, sy * (y**2).sum(1)),
        )
    if t == "rotate":
        gx = generator(x.shape[1], [(2, 0, 1), (-1, 1, 2), (-1, 0, 2)])
        gy = generator(y.shape[1], [(1, 0, 1), (2, 1, 2)])
        return x @ expm(gx), y @ expm(gy)
    raise KeyError(t)


# ------------------------------------------------------------------ identifiers


def parse_id(task_id):
    """Description of a catalogue task from its identifier."""
    chain = []
    rest = task_id
    prefixes = {"spiral-": "spiral", "normal_cdf-": "normal_cdf", "half_cube-": "half_cube",
                "asinh-": "asinh", "wiggly-": "wiggly", "swissroll_x-": "swissroll"}
    while True:
        for pre, t in prefixes.items():
            if rest.startswith(pre):
                chain.append(dict(t=t, name="Swiss roll" if t == "swissroll" else None))
                rest = rest[len(pre):]
                break
        else:
            break
    chain.reverse()
    for pre, kind in [("1v1-normal-", "bivariate"), ("1v1-additive-", "additive"),
                      ("1v1-bimodal-", "bimodal"), ("multinormal-dense-", "dense"),
                      ("multinormal-sparse-", "sparse"), ("student-identity-", "student_identity")]:
        if rest.startswith(pre):
            vals = [float(v) if "." in v else int(v) for v in rest[len(pre):].split("-")]
            return dict(ctor=kind, params=dict(zip(ID_PARAMS[kind], vals)), name=None), chain
    return None, chain


assert math and gen
