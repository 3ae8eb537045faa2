"""C11  Rectangular poloidal grids"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, larger, q, raises, snapshot, sq, store, stored, unchanged
from vlib.harness import Law

grid_case = {
    "MXG": st.integers(0, 3),
    "inner": st.integers(1, 9),
    "nz": st.integers(1, 12),
    "Lx": st.one_of(q(0.05, 5.0), q(0.05, 5.0), st.sampled_from([1e-5, 3e-3, 40.0, 7e3])),
    "Lz": st.one_of(q(0.05, 5.0), q(0.05, 5.0), st.sampled_from([1e-5, 3e-3, 40.0, 7e3])),
    "Rcentre": sq(4.0),
    "Zcentre": sq(4.0),
    "default_mxg": st.booleans(),
}
case_st = st.fixed_dictionaries(
    {
        **grid_case,
        "shape": st.sampled_from([[], [1], [4], [2, 3], [2, 1, 2]]),
        "seed": st.integers(0, 9999),
        "as_list": st.booleans(),
        # Distance from the points
        "near": st.sampled_from([None, None, 1e-3, 1e-5, 1e-7, 0.0]),
    }
)


def make(case):
    from zoidberg.poloidal_grid import RectangularPoloidalGrid

    mxg = 2 if case["default_mxg"] else case["MXG"]
    nx = case["inner"] + 2 * mxg
    kw = {} if case["default_mxg"] else {"MXG": mxg}
    g = RectangularPoloidalGrid(
        nx,
        case["nz"],
        case["Lx"],
        case["Lz"],
        Rcentre=case["Rcentre"],
        Zcentre=case["Zcentre"],
        **kw,
    )
    return g, nx, mxg


def geometry(case):
    """positions of nodes, of the edges of the domain and of fractional indices; indices of positions; derivatives; metric"""
    g, nx, mxg = make(case)
    nz = case["nz"]
    assert (g.nx, g.nz) == (nx, nz)
    dR = case["Lx"] / case["inner"]
    dZ = case["Lz"] / nz
    scale = 40.0 + 20 * (case["Lx"] + case["Lz"])

    def pos(i, j):
        # The domain (without guard cells) is centred and has cell edges at its ends
        return (
            case["Rcentre"] - case["Lx"] / 2 + (i - mxg + 0.5) * dR,
            case["Zcentre"] - case["Lz"] / 2 + (j + 0.5) * dZ,
        )

    i, j = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    R, Z = pos(i, j)
    close(g.R, R, 1e-13, "R", scale)
    close(g.Z, Z, 1e-13, "Z", scale)
    rng = np.random.RandomState(case["seed"])
    xi = rng.rand(*case["shape"]) * (nx + 4) - 2
    zi = rng.rand(*case["shape"]) * (nz + 4) - 2
    if case["near"] is not None:
        # On both sides of multiples of half a cell
        xi, zi = (np.round(2 * a) / 2 + case["near"] * (2 * rng.rand(*case["shape"]) - 1) for a in (xi, zi))
    args = (xi, zi)
    if case["as_list"]:
        args = (np.asarray(xi).tolist(), np.asarray(zi).tolist())
    before = snapshot(*args)
    R, Z = g.getCoordinate(*args)
    unchanged(before, *args)
    eR, eZ = pos(np.asarray(xi), np.asarray(zi))
    close(R, eR, 1e-12, "R at fractional index", scale)
    close(Z, eZ, 1e-12, "Z at fractional index", scale)
    bi, bj = g.findIndex(eR, eZ)
    close(bi, np.asarray(xi), 1e-10, "x index", scale / dR)
    close(bj, np.asarray(zi), 1e-10, "z index", scale / dZ)
    shape = tuple(case["shape"])
    for dx in range(4):
        for dz in range(4):
            if dx + dz == 0:
                continue
            a, b = g.getCoordinate(*args, dx=dx, dz=dz)
            ea = np.full(shape, dR if (dx, dz) == (1, 0) else 0.0)
            eb = np.full(shape, dZ if (dx, dz) == (0, 1) else 0.0)
            close(a, ea, 1e-12, f"derivative ({dx},{dz}) of R", scale)
            close(b, eb, 1e-12, f"derivative ({dx},{dz}) of Z", scale)
    m = g.metric()
    for name, val in (
        ("dx", dR),
        ("dz", dZ),
        ("gxx", 1.0),
        ("gzz", 1.0),
        ("gxz", 0.0),
        ("g_xx", 1.0),
        ("g_zz", 1.0),
        ("g_xz", 0.0),
    ):
        v = np.asarray(m[name])
        assert np.all(np.abs(v - val) <= 1e-13 * scale), f"metric {name} = {v}, expected {val}"
    return [f"MXG{mxg}"]


def reject(case):
    """indices or positions of different shapes, negative orders of derivatives"""
    g, nx, mxg = make(case)
    n = case["n"]
    a, b = np.zeros(n), np.zeros(n + 1)
    kind = case["kind"]
    call = {
        "index": lambda: g.getCoordinate(a, b),
        "find": lambda: g.findIndex(a, b),
        "deriv": lambda: g.getCoordinate(a, a, dx=-1),
        "derivz": lambda: g.getCoordinate(a, a, dz=-1),
    }[kind]
    raises((AssertionError, ValueError), call, kind)
    return [kind]


LAWS = [
    Law("geometry", case_st, geometry, 1200, 20000),
    Law(
        "reject",
        st.fixed_dictionaries(
            {
                **grid_case,
                "n": st.integers(1, 4),
                "kind": st.sampled_from(["index", "find", "deriv", "derivz"]),
            }
        ),
        reject,
        60,
        600,
    ),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            case_st,
            inner=st.integers(10, 120),
            nz=st.integers(13, 200),
            shape=st.sampled_from([[300], [40, 30], [3, 4, 50]]),
        ),
        geometry,
        80,
        2000,
        "as geometry, with many cells and points",
    ),
]

stored_case = st.fixed_dictionaries(
    {
        **grid_case,
        "points": st.lists(
            st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list), min_size=2, max_size=8
        ),
        "two_d": st.booleans(),
        "how": stored,
    }
)


def stored_as(case):
    """whole numbers as positions or indices give the same answer however they are stored; trivial never"""
    g, nx, _ = make(case)
    P = np.array(case["points"], dtype=float)
    R, Z = P.T.copy()
    if case["two_d"]:
        R, Z = np.stack([R, Z]), np.stack([Z, R])
    f = lambda v: store(v, case["how"])  # noqa
    a, b = g.findIndex(R, Z), g.findIndex(f(R), f(Z))
    scale = 1 + np.max(np.abs(a))
    # In single precision numbers may have been rounded
    tol = 1e-5 if case["how"] == "float32" else 1e-12
    close(np.asarray(b), np.asarray(a), tol, f"indices, {case['how']}", scale)
    i, k = np.minimum(np.abs(R), nx - 1), Z
    a, b = g.getCoordinate(i, k), g.getCoordinate(f(i), f(k))
    close(np.asarray(b), np.asarray(a), tol, f"positions, {case['how']}", 1 + np.max(np.abs(a)))
    return [case["how"]]


LAWS += [Law("stored", stored_case, stored_as, 200, 4000)]
