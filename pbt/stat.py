"""Statistical oracles with thresholds beyond six standard errors."""

import math

import numpy as np

from pbt.core import require

SIGMAS = 6.5
KS = 3.9  # sqrt(n) * D; exceeded with probability 2 exp(-2 * 3.9^2) < 1e-12


TAILS = 1e-12  # probability of a false alarm of an exact binomial test


def frequency_is(hits, n, p, what, **data):
    """Exact binomial test of the frequency of an event of a probability p."""
    from scipy.stats import binom

    hits = int(hits)
    below, above = binom.cdf(hits, n, p), binom.sf(hits - 1, n, p)
    require(min(below, above) > TAILS, f"{what}: {hits} of {n}, expected {n * p:.1f}", **data)


def no_atoms(values, what, **data):
    """Values of a continuous variable are not repeated, apart from rounding to single precision."""
    v = np.asarray(values, dtype=float).ravel()
    low, high = np.quantile(v, [0.25, 0.75])
    rounding = 4e-7 * len(v) * max(abs(low), abs(high)) / max(high - low, 1e-300)
    value, count = np.unique(v, return_counts=True)
    k = int(np.argmax(count))
    require(count[k] <= 12 + 5 * rounding, f"{what}: the value {value[k]} occurs {count[k]} times in {len(v)} points", **data)


def ks_uniform(u, what, tails=True, **data):
    """Kolmogorov-Smirnov test of values which should be uniform on [0, 1], and of both tails."""
    u = np.asarray(u, dtype=float).ravel()
    for q in (1e-2, 1e-3, 1e-4) if tails else ():
        if len(u) * q > 25:
            frequency_is(np.sum(u < q), len(u), q, f"{what}: lower tail", quantile=q, **data)
            frequency_is(np.sum(u > 1 - q), len(u), q, f"{what}: upper tail", quantile=q, **data)
    u = np.sort(np.asarray(u, dtype=float).ravel())
    n = len(u)
    i = np.arange(n)
    d = max(np.max((i + 1) / n - u), np.max(u - i / n))
    require(math.sqrt(n) * d < KS, f"{what}: wrong distribution (KS distance {d:.4f}, n={n})", **data)


def uncorrelated(a, b, what, **data):
    """Correlation of two independent samples (bounded scores recommended)."""
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    sa, sb = a.std(), b.std()
    if sa < 1e-12 or sb < 1e-12:
        return
    r = float(np.mean((a - a.mean()) * (b - b.mean())) / (sa * sb))
    require(abs(r) * math.sqrt(len(a)) < SIGMAS, f"{what}: correlation {r:.4f}", n=len(a), **data)


def mean_is(a, expected, std, what, **data):
    a = np.asarray(a, dtype=float).ravel()
    z = (a.mean() - expected) / (std / math.sqrt(len(a)))
    require(abs(z) < SIGMAS, f"{what}: mean {a.mean():.5f} instead of {expected:.5f}", **data)


def ranks(a):
    """Ranks in (0, 1), averaged over ties: bounded scores."""
    from scipy.stats import rankdata

    a = np.asarray(a, dtype=float).ravel()
    return (rankdata(a) - 0.5) / len(a)


def independent_rows(rows, what, **data):
    """Consecutive rows are uncorrelated (ranks, and ranks of deviations) and not repeated."""
    rows = np.asarray(rows, dtype=float)
    for j in range(rows.shape[1]):
        r = ranks(rows[:, j])
        uncorrelated(r[:-1], r[1:], f"{what}: successive points", column=j, **data)
        v = np.abs(r - 0.5)
        uncorrelated(v[:-1], v[1:], f"{what}: spread of successive points", column=j, **data)
        k = (j + 1) % rows.shape[1]
        if k != j:
            uncorrelated(r[:-1], ranks(rows[:, k])[1:], f"{what}: successive points", columns=(j, k), **data)
    for j in range(rows.shape[1]):
        r = ranks(rows[:, j])
        k = (j + 1) % rows.shape[1]
        unrelated_positions(r, r, f"{what}: points at a distance", column=j, **data)
        v = np.abs(r - 0.5)
        unrelated_positions(v, v, f"{what}: spread of points at a distance", column=j, **data)
        if k != j:
            s = ranks(rows[:, k])
            unrelated_positions(r, s, f"{what}: points at a distance", columns=(j, k), **data)


ALL_POSITIONS = 7.5


def unrelated_positions(u, v, what, **data):
    """The scores u[i] and v[i + k], and u[i] and v[k - i], are uncorrelated for every k (cyclically).

    The correlation for k = 0 is left out in the first case: it may be the one of a pair."""
    n = len(u)
    u, v = u - u.mean(), v - v.mean()
    if min(u.var(), v.var()) < 0.2 * np.var(np.abs(np.linspace(0, 1, 100) - 0.5)):
        return  # few distinct values: the normal approximation is not good enough for so many lags
    fu, fv = np.fft.rfft(u), np.fft.rfft(v)
    norm = n * u.std() * v.std()
    forth = np.fft.irfft(np.conj(fu) * fv, n) / norm
    forth[0] = 0.0
    back = np.fft.irfft(fu * fv, n) / norm
    # around a mirror every pair of a sequence with itself counts twice
    back_size = 2.0 if u is v or np.array_equal(u, v) else 1.0
    for name, r, size in (("apart", forth, 1.0), ("mirrored around", back, back_size)):
        k = int(np.argmax(np.abs(r)))
        require(
            abs(r[k]) * math.sqrt(n / size) < ALL_POSITIONS, f"{what} ({name} {k}): correlation {r[k]:.4f}", n=n, **data
        )
