"""C12  Curvilinear poloidal grids: index space and position are inverse to each other"""

import numpy as np
from hypothesis import strategies as st

from vlib import annulus
from vlib.gen import close, larger, raises, snapshot, store, stored, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "annular grids which are smooth at the scale of the cells and follow the convention (x increases outward)",
    "the search for an index is claimed for positions at least one cell away from the radial ends, which are closer to a point of the interior than to one of the radial ends",
]


def nodes(case):
    """positions at the nodes, any number of turns away; derivatives consistent with positions; out of range x rejected"""
    g, R, Z, _ = annulus.grid(case["grid"])
    nx, nz = R.shape
    assert (g.nx, g.nz) == (nx, nz)
    i, j = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    turns = case["turns"]
    a, b = g.getCoordinate(i, j + turns * nz)
    close(a, R, 1e-9, "R at the nodes", 10)
    close(b, Z, 1e-9, "Z at the nodes", 10)
    rng = np.random.RandomState(case["seed"])
    n = 6
    xi = rng.rand(n) * (nx - 1)
    zi = rng.rand(n) * nz
    zi[0] = nz - 0.3  # between the last and the first point
    a0 = g.getCoordinate(xi, zi)
    a1 = g.getCoordinate(xi, zi + turns * nz)
    close(a1[0], a0[0], 1e-8, "R is periodic", 10)
    close(a1[1], a0[1], 1e-8, "Z is periodic", 10)
    # derivatives
    h = 1e-4
    xi = np.clip(xi, 2 * h, nx - 1 - 2 * h)
    frac = zi - np.floor(zi)
    zi = np.where((frac < 3 * h) | (frac > 1 - 3 * h), np.floor(zi) + 0.5, zi)
    frac = xi - np.floor(xi)
    xi = np.where((frac < 3 * h) | (frac > 1 - 3 * h), np.minimum(np.floor(xi), nx - 2) + 0.5, xi)
    for k in range(2):
        dx = (g.getCoordinate(xi + h, zi)[k] - g.getCoordinate(xi - h, zi)[k]) / (2 * h)
        dz = (g.getCoordinate(xi, zi + h)[k] - g.getCoordinate(xi, zi - h)[k]) / (2 * h)
        close(g.getCoordinate(xi, zi, dx=1)[k], dx, 1e-6, f"x derivative of {'RZ'[k]}", 3)
        close(g.getCoordinate(xi, zi, dz=1)[k], dz, 1e-6, f"z derivative of {'RZ'[k]}", 3)
    for bad in (-0.01, nx - 0.99, -1.0, nx + 2.0):
        raises(
            ValueError,
            lambda: g.getCoordinate(np.array([1.0, bad]), np.array([0.0, 0.0])),  # noqa
            f"x index {bad}",
        )
    return ["turns" if turns else "same turn"]


def smooth(case):
    """positions between the nodes follow the smooth mapping which the nodes sample, everywhere including the seam in z"""
    spec = dict(case["grid"], nz=case["grid"]["nz"] + 16)
    g, R, Z, mapping = annulus.grid(spec)
    nx, nz = R.shape
    rng = np.random.RandomState(case["seed"])
    n = 12
    xi = rng.rand(n) * (nx - 1)
    zi = rng.rand(n) * nz
    zi[0] = nz - 0.5
    zi[1] = 0.5
    e = mapping(xi, zi)
    p = g.getCoordinate(xi, zi)
    size = max(np.ptp(R), np.ptp(Z))
    close(p[0], e[0], 4e-3, "R between the nodes", size)
    close(p[1], e[1], 4e-3, "Z between the nodes", size)
    return ["fine" if nz > 32 else "coarse"]


def inverse(case):
    """the index found for a position gives back that position: positions from known fractional indices at least one cell inside, all shapes; positions in the hole and beyond the outside"""
    g, R, Z, mapping = annulus.grid(case["grid"])
    nx, nz = R.shape
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    if nx < 5:
        raise AssertionError("generator")
    xi = 1.0 + rng.rand(*shape) * (nx - 3)
    zi = rng.rand(*shape) * nz
    Rp, Zp = [np.asarray(v) for v in g.getCoordinate(xi, zi)]
    # Only claimed for positions which are closest to a point of the interior
    for k in range(20):
        near = np.argmin((R.ravel() - Rp[..., None]) ** 2 + (Z.ravel() - Zp[..., None]) ** 2, axis=-1)
        end = (near // nz == 0) | (near // nz == nx - 1)
        if not np.any(end):
            break
        # Move to the middle in x, or, for elongated cells, closer to a point in z
        xi = np.where(end, (xi + (nx - 1) / 2) / 2, xi)
        zi = np.where(end, 0.7 * zi + 0.3 * np.rint(zi), zi)
        Rp, Zp = [np.asarray(v) for v in g.getCoordinate(xi, zi)]
    else:
        return ["trivial"]
    before = snapshot(Rp, Zp)
    fx, fz = g.findIndex(Rp, Zp)
    unchanged(before, Rp, Zp)
    close(fx, np.asarray(xi), 1e-5, "x index")
    d = np.abs((np.asarray(fz) - zi + nz / 2) % nz - nz / 2)
    assert np.shape(fz) == shape
    assert np.all(d < 1e-5), f"z index {fz} instead of {zi}"
    # At the nodes
    i = np.arange(1, nx - 1)
    j = rng.randint(0, nz, size=nx - 2)
    fx, fz = g.findIndex(R[i, j], Z[i, j])
    close(fx, i.astype(float), 1e-5, "x index of nodes")
    assert np.all(np.abs((fz - j + nz / 2) % nz - nz / 2) < 1e-5), "z index of nodes"
    # A mixture of inside and outside
    t = rng.rand(3) * nz
    c = mapping.centre
    inner = np.array(mapping(np.zeros(3), t))
    outer = np.array(mapping(np.full(3, nx - 1.0), t))
    hole = c[:, None] + case["hole"] * (inner - c[:, None])
    beyond = outer + case["beyond"] * (outer - c[:, None])
    Rm = np.concatenate([hole[0], np.ravel(Rp), beyond[0]])
    Zm = np.concatenate([hole[1], np.ravel(Zp), beyond[1]])
    fx, fz = g.findIndex(Rm, Zm)
    assert np.all(fx[:3] == -1), f"in the hole: {fx[:3]}"
    assert np.all(fx[-3:] == nx), f"beyond the outside: {fx[-3:]}"
    close(fx[3:-3], np.ravel(xi), 1e-5, "x index in a mixture")
    return [f"ndim{len(shape)}"]


def convention(case):
    """grids which put the inner boundary at high x are rejected; trivial for fewer than 5 points in x"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    _, R, Z, _ = annulus.grid(case["grid"])
    raises(
        AssertionError,
        lambda: StructuredPoloidalGrid(R[::-1], Z[::-1]),
        "inner boundary at high x",
    )
    raises(AssertionError, lambda: StructuredPoloidalGrid(R, Z[:, 1:]), "shapes")
    return ["reversed"]


base = {"grid": annulus.case, "seed": st.integers(0, 9999)}
LAWS = [
    Law("nodes", st.fixed_dictionaries({**base, "turns": st.integers(-3, 3)}), nodes, 300, 6000),
    Law("smooth", st.fixed_dictionaries(base), smooth, 200, 4000),
    Law(
        "inverse",
        st.fixed_dictionaries(
            {
                **base,
                "shape": st.sampled_from([[], [1], [7], [2, 3]]),
                "hole": st.sampled_from([0.0, 0.3, 0.6]),
                "beyond": st.sampled_from([0.2, 0.5, 3.0]),
            }
        ),
        inverse,
        300,
        6000,
    ),
    Law("convention", st.fixed_dictionaries(base), convention, 40, 400),
]

# Sizes far above those of the other laws
big = annulus.case.map(lambda c: {**c, "nx": c["nx"] * 3, "nz": c["nz"] * 3})
LAWS += [
    Law(
        "large nodes",
        larger({**base, "turns": st.integers(-3, 3)}, grid=big),
        nodes,
        12,
        300,
        "as nodes, with more cells",
    ),
    Law(
        "large",
        larger(
            {**base, "hole": st.sampled_from([0.0, 0.3, 0.6]), "beyond": st.sampled_from([0.2, 0.5, 3.0])},
            grid=big,
            shape=st.sampled_from([[60], [12, 15]]),
        ),
        inverse,
        12,
        300,
        "as inverse, with more cells and points",
    ),
]

unit_case = st.fixed_dictionaries({**base, "unit": units, "n": st.integers(1, 8)})


def scaled(case):
    """the same grid in other units: positions times the factor at the same indices, and the same indices with the tolerance in the new units"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    g, R, Z, _ = annulus.grid(case["grid"])
    u = case["unit"]
    h = StructuredPoloidalGrid(u * R, u * Z)
    nx, nz = R.shape
    rng = np.random.RandomState(case["seed"])
    xi, zi = rng.rand(case["n"]) * (nx - 1), rng.rand(case["n"]) * nz * 2
    for kw in ({}, {"dx": 1}, {"dz": 1}):
        a, b = g.getCoordinate(xi, zi, **kw), h.getCoordinate(xi, zi, **kw)
        close(np.asarray(b) / u, np.asarray(a), 1e-9, f"positions or derivatives {kw} in units of {u}", 10)
    xi = 1.5 + rng.rand(case["n"]) * (nx - 4)
    Rp, Zp = g.getCoordinate(xi, zi)
    tol = 1e-12
    a, b = g.findIndex(Rp, Zp, tol=tol), h.findIndex(u * Rp, u * Zp, tol=tol * u * u)
    close(b[0], a[0], 1e-8, f"x index, in units of {u}", 10)
    close(b[1], a[1], 1e-8, f"z index, in units of {u}", 10)
    a, b = g.metric(), h.metric()
    power = {"dx": 0, "dz": 0, "g_xx": 2, "g_xz": 2, "g_zz": 2, "gxx": -2, "gxz": -2, "gzz": -2}
    for k, p in power.items():
        if k in a:
            f = u**p
            close(np.asarray(b[k]) / f, np.asarray(a[k]), 1e-8, f"{k}, in units of {u}", np.max(np.abs(a[k])))
    return []


LAWS += [Law("scaled", unit_case, scaled, 100, 2000)]

stored_case = st.fixed_dictionaries(
    {**base, "how": stored, "which": st.sampled_from(["grid", "points", "both"])}
)


def stored_as(case):
    """grids and positions of whole numbers give the same answers however they are stored; trivial never"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    _, R, Z, _ = annulus.grid(case["grid"])
    # Squares fit into 32 bits
    R, Z = np.rint(5e3 * R), np.rint(5e3 * Z)
    f, g = (lambda v: store(v, case["how"])), (lambda v: v)
    fg = f if case["which"] != "points" else g
    fp = f if case["which"] != "grid" else g
    nx, nz = R.shape
    a, b = StructuredPoloidalGrid(R, Z), StructuredPoloidalGrid(fg(R), fg(Z))
    rng = np.random.RandomState(case["seed"])
    tol = 1e-4 if case["how"] == "float32" else 1e-9
    i, k = rng.randint(1, nx - 1, 5).astype(float), rng.randint(0, 2 * nz, 5).astype(float)
    p, q_ = a.getCoordinate(i, k), b.getCoordinate(fp(i), fp(k))
    close(np.asarray(q_), np.asarray(p), tol, f"positions, {case['how']}", 5e4)
    Rp, Zp = [np.rint(v) for v in a.getCoordinate(1.5 + rng.rand(5) * (nx - 4), k + 0.3)]
    p, q_ = a.findIndex(Rp, Zp, tol=1e-6), b.findIndex(fp(Rp), fp(Zp), tol=1e-6)
    close(np.asarray(q_), np.asarray(p), 1e-4, f"indices, {case['how']}", 10)
    m, n = a.metric(), b.metric()
    for key in m:
        size = np.max(np.abs(m[key]))
        close(np.asarray(n[key]), np.asarray(m[key]), tol, f"{key}, {case['how']}", size)
    return [case["how"]]


LAWS += [Law("stored", stored_case, stored_as, 100, 2000)]
