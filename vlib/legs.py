"""Generated maps for the parallel operators, and a reference model of the operators"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import q

maps_case = {
    "mxg": st.integers(0, 3),
    "inner": st.integers(1, 4),
    "ny": st.integers(1, 3),
    "nz": st.integers(1, 6),
    "ns": st.sampled_from([1, 2, 3, 4, 9]),
    "kind": st.sampled_from(["anything", "near ends", "integers", "inside", "smooth"]),
    "hit": st.sampled_from([0.0, 0.1, 0.5, 1.0]),
    "weights": st.sampled_from(["equal", "random", "gauss", "zero"]),
    "seed": st.integers(0, 99999),
    # 3d arrays only, without samples
    "fallback": st.sampled_from([False, False, True]),
    "ints": st.booleans(),
}


# Sizes far above the usual ones
big_case = {
    "inner": st.integers(6, 20),
    "ny": st.integers(4, 8),
    "nz": st.integers(8, 24),
    "ns": st.sampled_from([1, 4, 9, 16, 25]),
}


def build(case):
    """Dictionary of maps"""
    rng = np.random.RandomState(case["seed"])
    mxg = case["mxg"]
    nx, ny, nz = case["inner"] + 2 * mxg, case["ny"], case["nz"]
    ns = 1 if case["fallback"] else case["ns"]
    shape = (nx, ny, nz, ns)
    m = {"R": np.ones((nx, ny, nz)), "Z": np.zeros((nx, ny, nz)), "MXG": mxg}
    lo, hi = mxg, nx - mxg - 1
    for d in ("forward", "backward"):
        if case["kind"] == "near ends":
            x = rng.choice([lo, hi, lo - 1e-9, hi + 1e-9, lo + 1e-9, hi - 1e-9, lo - 0.5, hi + 0.5, -1, nx], size=shape)
            z = rng.choice([0.0, nz - 1, nz, nz - 0.25, -0.25, 0.5, -1e-12], size=shape)
        elif case["kind"] == "integers":
            x = rng.randint(lo - 1, hi + 2, size=shape).astype(float)
            z = rng.randint(-nz, 2 * nz, size=shape).astype(float)
        elif case["kind"] == "inside":
            x = lo + (hi - lo) * rng.rand(*shape)
            z = (3 * rng.rand(*shape) - 1) * nz
        elif case["kind"] == "smooth":
            i, _, k, s = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
            x = i + 0.8 * np.sin(1.0 + k + 0.3 * s) + 0.1 * s
            z = k + 0.5 * rng.rand(*shape)
        else:
            x = lo - 2 + (hi - lo + 4) * rng.rand(*shape)
            z = (5 * rng.rand(*shape) - 2) * nz
        h = rng.rand(*shape) < case["hit"]
        x = np.where(h, -1.0, x)
        z = np.where(h, -1.0, z)
        centre = rng.randint(ns)
        m[d + "_xt_prime"] = x[..., centre].copy()
        m[d + "_zt_prime"] = z[..., centre].copy()
        if not case["fallback"]:
            m[d + "_xt_primes"] = x
            m[d + "_zt_primes"] = z
    w = {
        "equal": np.ones(ns),
        "random": 0.1 + rng.rand(ns),
        "gauss": np.exp(-np.linspace(-1, 1, ns) ** 2) if ns > 1 else np.ones(1),
        "zero": np.concatenate([[0.05], np.ones(ns - 1)]),
    }[case["weights"]]
    if not case["fallback"]:
        m["subcell_weights"] = w / w.sum()
    return m


def hits(x, nx, mxg):
    return (x < mxg) | (x > nx - mxg - 1)


def keys(u):
    """Cubic convolution (a = -1/2) at distances 1+u, u, 1-u, 2-u"""

    def w(s):
        s = abs(s)
        if s < 1:
            return 1.5 * s**3 - 2.5 * s**2 + 1
        if s < 2:
            return -0.5 * s**3 + 2.5 * s**2 - 4 * s + 2
        return 0.0

    return [w(1 + u), w(u), w(1 - u), w(2 - u)]


def stencil(x, z, nx, nz, mxg):
    """Weights (nx, nz) of the interpolation at one position"""
    W = np.zeros((nx, nz))
    xb, zb = int(np.floor(x)), int(np.floor(z))
    for ox, wx in zip((-1, 0, 1, 2), keys(x - xb)):
        for oz, wz in zip((-1, 0, 1, 2), keys(z - zb)):
            W[min(max(xb + ox, mxg), nx - mxg - 1), (zb + oz) % nz] += wx * wz
    return W


def samples(m, d):
    """x, z, weights with samples"""
    if d + "_xt_primes" in m:
        return m[d + "_xt_primes"], m[d + "_zt_primes"], m["subcell_weights"]
    return m[d + "_xt_prime"][..., None], m[d + "_zt_prime"][..., None], np.ones(1)


def expected(m):
    """For each direction and interior cell: (fraction inside, fraction boundary, weights on the next slice)"""
    nx, ny, nz = m["R"].shape
    mxg = m["MXG"]
    out = {}
    for d in ("forward", "backward"):
        X, Z, w = samples(m, d)
        for x in range(mxg, nx - mxg):
            for y in range(ny):
                for z in range(nz):
                    h = hits(X[x, y, z], nx, mxg)
                    W = np.zeros((nx, nz))
                    inside = w[~h].sum()
                    if np.any(~h):
                        for s in np.nonzero(~h)[0]:
                            W += w[s] / inside * stencil(X[x, y, z, s], Z[x, y, z, s], nx, nz, mxg)
                    out[d, x, y, z] = (h, inside, w[h].sum(), W)
    return out


def csr_rows(res, d):
    """Rows of an operator as dictionaries, checking the storage"""
    w, c, r = (np.asarray(res[f"{d}_{k}"]) for k in ("weights", "columns", "rows"))
    n = res[f"n_{d}_legs"]
    assert r.shape == (n + 1,), f"{d}: number of rows"
    assert r[0] == 0 and r[-1] == len(w) == len(c), f"{d}: row pointers"
    assert np.all(np.diff(r) >= 0)
    assert np.issubdtype(c.dtype, np.integer) and np.issubdtype(r.dtype, np.integer)
    rows = []
    for i in range(n):
        row = {}
        for k in range(r[i], r[i + 1]):
            assert 0 <= c[k] < res["total_cells"], "column outside of the cells"
            assert c[k] not in row, "column twice in a row"
            row[int(c[k])] = w[k]
        rows.append(row)
    return rows
