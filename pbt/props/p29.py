"""P29: fixed-size subplot layout has the requested geometry."""

from hypothesis import strategies as st

from pbt import gen
from pbt.core import expect_raises, facet, require

FACETS = []
TECHNIQUE = (
    "property-based testing (Hypothesis): positions of the drawn axes against a layout computed from "
    "the request, with repeated drawing and saving as extra operations"
)
LEVEL_NOTE = "grids up to 5 x 5; sizes, margins and spacings 0..5 inches; scalars, lists, tuples, arrays and generators."

SIDES = ("top", "bottom", "left", "right")


def _length(lo=0.0):
    return st.one_of(gen.flt(max(lo, 0.05), 5.0), st.integers(1, 4), st.just(lo) if lo else st.just(0.0))


@st.composite
def _axis(draw):
    """Sizes along one direction: a number or a list, and the count if it is passed."""
    n = draw(st.integers(1, 5))
    several = draw(st.booleans())
    if several:
        sizes = draw(st.lists(_length(0.1), min_size=n, max_size=n))
        count = draw(st.booleans())
    else:
        sizes = draw(_length(0.1))
        count = True if n > 1 else draw(st.booleans())
    kind = draw(st.sampled_from(["list", "tuple", "array", "generator"]))
    if n > 1 and draw(st.booleans()):
        space = draw(st.lists(_length(), min_size=n - 1, max_size=n - 1))
    else:
        space = draw(st.one_of(st.none(), _length()))
    return dict(n=n, sizes=sizes, count=count, kind=kind, space=space)


@st.composite
def _layouts(draw):
    return dict(
        x=draw(_axis()),
        y=draw(_axis()),
        margins={s: draw(_length()) for s in SIDES if draw(st.booleans())},
        squeeze=draw(st.sampled_from([None, True, False])),
        draws=draw(st.integers(1, 2)),
        dpi=draw(st.sampled_from([None, 37, 200])),
    )


def wrap(values, kind):
    import numpy as np

    if not isinstance(values, list):
        return values
    return dict(list=list, tuple=tuple, array=np.array, generator=lambda v: (a for a in v))[kind](values)


def arguments(c):
    kw = dict(c["margins"])
    kw["axsize"] = (wrap(c["x"]["sizes"], c["x"]["kind"]), wrap(c["y"]["sizes"], c["y"]["kind"]))
    for axis, count, space in [("x", "ncols", "wspace"), ("y", "nrows", "hspace")]:
        a = c[axis]
        if a["count"]:
            kw[count] = a["n"]
        if a["space"] is not None:
            kw[space] = wrap(a["space"], a["kind"])
    if c["squeeze"] is not None:
        kw["squeeze"] = c["squeeze"]
    return kw


def expected(c):
    """Figure size, and left/bottom/width/height of every axes in inches."""
    default = dict(top=0.1, bottom=0.5, left=0.5, right=0.1)
    m = {**default, **c["margins"]}

    def spread(a):
        sizes = a["sizes"] if isinstance(a["sizes"], list) else [a["sizes"]] * a["n"]
        space = 0.5 if a["space"] is None else a["space"]
        gaps = space if isinstance(space, list) else [space] * (a["n"] - 1)
        return sizes, list(gaps) + [0]

    widths, wgaps = spread(c["x"])
    heights, hgaps = spread(c["y"])
    total = (m["left"] + sum(widths) + sum(wgaps) + m["right"], m["top"] + sum(heights) + sum(hgaps) + m["bottom"])
    out = {}
    top = total[1] - m["top"]
    for i, (h, hg) in enumerate(zip(heights, hgaps)):
        left = m["left"]
        for j, (w, wg) in enumerate(zip(widths, wgaps)):
            out[i, j] = (left, top - h, w, h)
            left += w + wg
        top -= h + hg
    return total, out


@facet(FACETS, rule="several axes", strategy=_layouts, quick=50, thorough=1500, shards=4,
       examples=lambda: [
           dict(x=dict(n=2, sizes=[1, 2.5], count=False, kind="list", space=None),
                y=dict(n=3, sizes=[0.5, 2, 1], count=True, kind="tuple", space=[0.2, 0.7]),
                margins={}, squeeze=None, draws=1, dpi=None),
           dict(x=dict(n=1, sizes=3, count=False, kind="list", space=None),
                y=dict(n=2, sizes=2, count=True, kind="list", space=None),
                margins=dict(top=1, bottom=2, left=3, right=4), squeeze=False, draws=1, dpi=None),
           dict(x=dict(n=12, sizes=[0.5 + 0.1 * i for i in range(12)], count=False, kind="list", space=[0.1 * i for i in range(11)]),
                y=dict(n=9, sizes=[2.0 - 0.2 * i for i in range(9)], count=True, kind="array", space=None),
                margins={}, squeeze=None, draws=1, dpi=None),
           dict(x=dict(n=1, sizes=0.01, count=False, kind="list", space=None),
                y=dict(n=14, sizes=[30.0, 0.02] + [1.0] * 12, count=False, kind="tuple", space=[0.003] * 12 + [20.0]),
                margins=dict(top=12.5), squeeze=None, draws=1, dpi=None),
       ])  # fmt: skip
def layout(c):
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    import numpy as np

    from bmi.plot_utils.subplots_from_axsize import subplots_from_axsize

    fig, axs = subplots_from_axsize(**arguments(c))
    try:
        rows, cols = c["y"]["n"], c["x"]["n"]
        shape = (rows, cols)
        if c["squeeze"] is not False:
            shape = tuple(s for s in shape if s != 1)
        if shape == ():
            require(isinstance(axs, plt.Axes), "a single axes", got=type(axs))
        else:
            require(isinstance(axs, np.ndarray) and axs.shape == shape, "arrangement", got=getattr(axs, "shape", axs), want=shape)
        grid = np.array(axs, dtype=object).reshape(rows, cols)
        require(set(fig.axes) == set(grid.ravel()) and len(fig.axes) == rows * cols, "axes of the figure", got=len(fig.axes))
        (w, h), cells = expected(c)
        size = fig.get_size_inches()
        require(abs(size[0] - w) < 1e-6 * (1 + w) and abs(size[1] - h) < 1e-6 * (1 + h), "figure size", got=size, want=(w, h))
        if c["dpi"]:
            fig.set_dpi(c["dpi"])
        for _ in range(c["draws"]):
            fig.draw_without_rendering()
            for (i, j), (left, bottom, width, height) in cells.items():
                ax = grid[i, j]
                box = ax.get_window_extent()
                got = np.array([box.x0, box.y0, box.width, box.height]) / fig.dpi
                want = np.array([left, bottom, width, height])
                require(np.max(np.abs(got - want)) < 1e-5 * (1 + w + h), "position of axes", row=i, column=j, got=got, want=want)
            # contents do not matter
            grid[0, 0].plot([0, 1e6], [0, 1e-6])
            grid[-1, -1].set_xlabel("label")
    finally:
        plt.close(fig)
    return f"{rows} x {cols}" if rows * cols > 1 else None


@st.composite
def _mismatches(draw):
    n = draw(st.integers(1, 4))
    return dict(
        n=n, wrong=draw(st.integers(1, 5).filter(lambda k: k != n)), what=draw(st.sampled_from(["ncols", "nrows", "wspace", "hspace"]))
    )


@facet(FACETS, rule="every request", strategy=_mismatches, quick=40, thorough=500)
def contradictory_counts(c):
    """Counts which disagree with the numbers of sizes are refused."""
    import matplotlib.pyplot as plt

    from bmi.plot_utils.subplots_from_axsize import subplots_from_axsize

    sizes = [1.0] * c["n"]
    kw = dict(axsize=(sizes, 1) if c["what"] in ("ncols", "wspace") else (1, sizes))
    if c["what"] in ("ncols", "nrows"):
        kw[c["what"]] = c["wrong"]
    else:
        kw[c["what"]] = [0.5] * c["wrong"] if c["wrong"] != c["n"] - 1 else [0.5] * (c["wrong"] + 1)
    try:
        expect_raises((AssertionError, ValueError), lambda: subplots_from_axsize(**kw), f"contradictory {c['what']}")
    finally:
        plt.close("all")
    return c["what"]
