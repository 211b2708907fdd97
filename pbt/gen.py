"""Generators shared by the property modules.

Cases are plain JSON; numerical arrays of interesting size are derived from an integer
drawn by Hypothesis (`seed`), so that a case is a complete, replayable description."""

import numpy as np
from hypothesis import strategies as st


def seeds():
    return st.integers(0, 2**31 - 1)


def rng_of(case, salt=0):
    return np.random.default_rng([case["seed"], salt])


def flt(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def orthogonal(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


@st.composite
def block_covariances(draw, max_dim=6, max_rho=0.999, max_log_cond=2.5, max_log_scale=150, dims=None):
    """Covariance with prescribed canonical correlations (see `build_block_covariance`)."""
    if dims is None:
        dx = draw(st.integers(1, max_dim))
        dy = draw(st.integers(1, max_dim))
    else:
        dx, dy = draw(st.sampled_from(dims))
    k = min(dx, dy)
    rho = st.one_of(flt(-max_rho, max_rho), st.sampled_from([0.0, max_rho, -max_rho, 0.5]))
    return dict(
        dx=dx,
        dy=dy,
        rhos=draw(st.lists(rho, min_size=draw(st.sampled_from([0, 1, k])), max_size=k)),
        log_cond=draw(flt(0, max_log_cond)),
        log_scale=draw(st.one_of(st.just(0.0), flt(-max_log_scale, max_log_scale))),
        log_ratio=draw(flt(-0.5, 0.5)),
        seed=draw(seeds()),
    )


def build_block_covariance(case):
    """S = blkdiag(A, B) [[I, R], [R^T, I]] blkdiag(A, B)^T for invertible A, B.

    Mutual information of N(0, S) is -1/2 sum log(1 - rho_i^2), whatever A and B.

    Returns: covariance, mutual information, condition number of the unscaled matrix
    """
    rng = rng_of(case)
    dx, dy = case["dx"], case["dy"]
    r = np.zeros((dx, dy))
    px, py = rng.permutation(dx), rng.permutation(dy)
    for i, rho in enumerate(case["rhos"]):
        r[px[i], py[i]] = rho
    core = np.block([[np.eye(dx), r], [r.T, np.eye(dy)]])

    def mixing(n):
        d = 10.0 ** rng.uniform(-0.5 * case["log_cond"], 0.5 * case["log_cond"], size=n)
        return orthogonal(rng, n) @ np.diag(d) @ orthogonal(rng, n)

    m = np.zeros((dx + dy, dx + dy))
    m[:dx, :dx] = mixing(dx) * 10.0 ** case["log_ratio"]
    m[dx:, dx:] = mixing(dy) * 10.0 ** (-case["log_ratio"])
    s = m @ core @ m.T
    s = 0.5 * (s + s.T)
    cond = float(np.linalg.cond(s))
    s = s * (10.0 ** case["log_scale"]) * (10.0 ** case["log_scale"])
    mi = float(-0.5 * np.sum(np.log1p(-np.square(np.asarray(case["rhos"], dtype=float)))))
    return s, mi, cond


@st.composite
def integer_factors(draw, max_dim=4, max_entry=3, extra=2):
    """Integer matrix B (n rows); S = B B^T + I is an integer SPD matrix."""
    dx = draw(st.integers(1, max_dim))
    dy = draw(st.integers(1, max_dim))
    k = draw(st.integers(1, extra))
    b = draw(
        st.lists(
            st.lists(st.integers(-max_entry, max_entry), min_size=k, max_size=k),
            min_size=dx + dy,
            max_size=dx + dy,
        )
    )
    return dict(dx=dx, dy=dy, b=b)


def integer_spd(case):
    b = np.asarray(case["b"], dtype=object)
    n = len(b)
    return [[int(sum(x * y for x, y in zip(b[i], b[j]))) + (i == j) for j in range(n)] for i in range(n)]


def exact_det(mat):
    """Determinant of an integer matrix, by fraction-free (Bareiss) elimination."""
    m = [list(map(int, row)) for row in mat]
    n = len(m)
    sign, prev = 1, 1
    for k in range(n - 1):
        if m[k][k] == 0:
            for i in range(k + 1, n):
                if m[i][k] != 0:
                    m[k], m[i] = m[i], m[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) // prev
        prev = m[k][k]
    return sign * m[-1][-1]


CONTAINERS = ["list", "ndarray", "fortran", "float32", "jax"]


def contain(mat, how):
    """The same numbers in another container accepted as an ArrayLike."""
    a = np.asarray(mat)
    if how == "list":
        return a.tolist()
    if how == "fortran":
        return np.asfortranarray(a.astype(float))
    if how == "float32":
        return a.astype(np.float32)
    if how == "jax":
        import jax.numpy as jnp

        return jnp.asarray(a, dtype=jnp.float32)
    return a
