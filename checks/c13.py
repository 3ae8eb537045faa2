"""C13  The metric of curvilinear poloidal grids"""

import numpy as np
from hypothesis import strategies as st

from vlib import annulus
from vlib.gen import close, larger, q, snapshot, sq, unchanged
from vlib.harness import Law

ASSUMPTIONS = [
    "components are compared in combinations which do not depend on the normalisation of x and z (g_xx dx^2, ...)",
]

names = ["gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz"]


def lower(m):
    """Metric in index space"""
    return m["g_xx"] * m["dx"] ** 2, m["g_xz"] * m["dx"] * m["dz"], m["g_zz"] * m["dz"] ** 2


def upper(m):
    return m["gxx"] / m["dx"] ** 2, m["gxz"] / (m["dx"] * m["dz"]), m["gzz"] / m["dz"] ** 2


def tensor(case):
    """positive definite, inverse to each other, and equal to the products of the tangent vectors of the coordinates, by differences of the positions and from the analytic mapping"""
    spec = case["grid"]
    g, R, Z, mapping = annulus.grid(spec)
    nx, nz = R.shape
    before = snapshot(R, Z)
    m = g.metric()
    unchanged(before, R, Z)
    for k in names + ["dx", "dz"]:
        assert np.shape(m[k]) == (nx, nz), f"shape of {k}"
        assert np.all(np.isfinite(m[k]))
    a, b, c = lower(m)
    ai, bi, ci = upper(m)
    det = a * c - b * b
    assert np.all(a > 0) and np.all(c > 0) and np.all(det > 0), "not positive definite"
    assert np.all(m["dx"] > 0) and np.all(m["dz"] > 0)
    # The coordinates run from 0 to 1
    close(m["dx"], np.full((nx, nz), 1 / nx), 1e-12, "dx", 1)
    close(m["dz"], np.full((nx, nz), 1 / nz), 1e-12, "dz", 1)
    close(ai * a + bi * b, np.ones_like(a), 1e-9, "inverse xx", 1)
    close(ci * c + bi * b, np.ones_like(a), 1e-9, "inverse zz", 1)
    close((ai * b + bi * c) / np.sqrt(c / a), 0 * a, 1e-9, "inverse xz", 1)
    # tangent vectors by differences of positions (cell centres in x to avoid the ends)
    h = 1e-3
    i, j = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    P = lambda x, z: np.array(g.getCoordinate(x, z))  # noqa
    lo = np.clip(i - h, 0, nx - 1)
    hi = np.clip(i + h, 0, nx - 1)
    tz = (P(i, j + h) - P(i, j - h)) / (2 * h)
    tx = (P(hi, j) - P(lo, j)) / (hi - lo)
    s = slice(1, -1)
    scale = np.max(a) + np.max(c)
    close(a[s], (tx**2).sum(0)[s], 2e-4, "g_xx dx^2", scale)
    close(c[s], (tz**2).sum(0)[s], 2e-4, "g_zz dz^2", scale)
    close(b[s], (tx * tz).sum(0)[s], 2e-4, "g_xz dx dz", scale)
    # One-sided at the ends: first order
    close(a, (tx**2).sum(0), 2e-2, "g_xx dx^2", scale)
    close(c, (tz**2).sum(0), 2e-4, "g_zz dz^2", scale)
    return [
        "clockwise" if spec["clockwise"] else "anticlockwise",
        "sheared" if spec["shear"] else "not sheared",
    ]


def isometry(case):
    """moving, turning or mirroring the grid changes nothing; scaling scales; starting at another point in z rolls"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    R, Z, _ = annulus.arrays(case["grid"])
    m0 = StructuredPoloidalGrid(R, Z).metric()
    t, s = case["angle"], case["scale"]
    sgn = -1.0 if case["mirror"] else 1.0
    Rn = s * (np.cos(t) * R - np.sin(t) * sgn * Z) + case["move"][0]
    Zn = s * (np.sin(t) * R + np.cos(t) * sgn * Z) + case["move"][1]
    k = case["roll"] % R.shape[1]
    Rn, Zn = np.roll(Rn, k, axis=1), np.roll(Zn, k, axis=1)
    m1 = StructuredPoloidalGrid(Rn.copy(), Zn.copy()).metric()
    big = [np.max(np.abs(v)) for v in lower(m0)]
    top = np.sqrt(big[0] * big[2])
    # Rolling moves the ends of the periodic extension of the splines
    tol = 1e-9 if k == 0 else 1e-5
    for x, y, sc in zip(lower(m1), lower(m0), (big[0], top, big[2])):
        close(x / s**2, np.roll(y, k, axis=1), tol, "metric of the moved grid", sc)
    bigu = [np.max(np.abs(v)) for v in upper(m0)]
    topu = np.sqrt(bigu[0] * bigu[2])
    for x, y, sc in zip(upper(m1), upper(m0), (bigu[0], topu, bigu[2])):
        close(x * s**2, np.roll(y, k, axis=1), tol * 10, "inverse metric of the moved grid", sc)
    return (["mirrored"] if case["mirror"] else []) + (["rolled"] if k else ["not rolled"])


thin_case = st.fixed_dictionaries(
    {
        "grid": annulus.case,
        # Width of the annulus, size of all of it
        "width": st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4]),
        "size": st.sampled_from([1e-6, 1e-3, 1.0, 1.0, 1e3, 1e6]),
    }
)


def thin(case):
    """very thin annuli, of any size: inverse to each other, and the tangent vectors of the analytic mapping"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    spec = dict(case["grid"], shift=0.0)
    spec["r_out"] = spec["r_in"] + case["width"]
    # Without the shear the coordinates are orthogonal on average
    spec["shear"] *= case["width"]
    R, Z, f = annulus.arrays(spec)
    s = case["size"]
    m = StructuredPoloidalGrid(s * R, s * Z).metric()
    a, b, c = lower(m)
    ai, bi, ci = upper(m)
    close(ai * a + bi * b, np.ones_like(a), 1e-6, "inverse xx", 1)
    close(ci * c + bi * b, np.ones_like(a), 1e-6, "inverse zz", 1)
    close((ai * b + bi * c) / np.sqrt(c / a), 0 * a, 1e-6, "inverse xz", 1)
    i, j = np.meshgrid(np.arange(spec["nx"]), np.arange(spec["nz"]), indexing="ij")
    h = 1e-2
    tx = s * (np.array(f(i + h, j)) - np.array(f(i - h, j))) / (2 * h)
    close(a, (tx**2).sum(0), 1e-2, "g_xx dx^2", np.max(a))
    return [f"width {case['width']}", f"size {s}"]


def exact(case):
    """a grid of concentric ellipses with many points: agreement with the analytic metric; trivial never"""
    spec = dict(case["grid"], nz=48, stretch=0.0)
    g, R, Z, mapping = annulus.grid(spec)
    nx, nz = R.shape
    m = g.metric()
    i, j = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    h = 1e-4
    tx = (np.array(mapping(i + h, j)) - np.array(mapping(i - h, j))) / (2 * h)
    tz = (np.array(mapping(i, j + h)) - np.array(mapping(i, j - h))) / (2 * h)
    a, b, c = lower(m)
    scale = np.max(a) + np.max(c)
    close(a, (tx**2).sum(0), 2e-2, "g_xx dx^2", scale)
    close(c, (tz**2).sum(0), 2e-2, "g_zz dz^2", scale)
    close(b, (tx * tz).sum(0), 2e-2, "g_xz dx dz", scale)
    return ["exact"]


LAWS = [
    Law("tensor", st.fixed_dictionaries({"grid": annulus.case}), tensor, 300, 5000),
    Law(
        "isometry",
        st.fixed_dictionaries(
            {
                "grid": annulus.case,
                "angle": q(0.0, 6.0, 24),
                "scale": st.sampled_from([1.0, 0.5, 4.0]),
                "mirror": st.booleans(),
                "move": st.tuples(sq(5.0), sq(5.0)).map(list),
                "roll": st.integers(0, 30),
            }
        ),
        isometry,
        300,
        5000,
    ),
    Law("exact", st.fixed_dictionaries({"grid": annulus.case}), exact, 100, 2000),
    Law("thin", thin_case, thin, 150, 3000),
]

# Sizes far above those of the other laws
big = annulus.case.map(lambda c: {**c, "nx": c["nx"] * 3, "nz": c["nz"] * 3})
LAWS += [
    Law("large tensor", st.fixed_dictionaries({"grid": big}), tensor, 15, 300, "as tensor, with more cells"),
    Law("large", st.fixed_dictionaries({"grid": big}), exact, 10, 200, "as exact, with more cells"),
]
