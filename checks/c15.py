"""C15  Three-dimensional grids: slices, y positions and metric"""

import numpy as np
from hypothesis import strategies as st

from vlib import annulus
from vlib.gen import close, larger, q, raises, sq
from vlib.harness import Law

ASSUMPTIONS = ["increasing y coordinates inside of the domain [0, Ly]"]

# y coordinates from steps; the gap to the end of the domain is given too
base = {
    "steps": st.lists(q(0.1, 2.0, 19), min_size=1, max_size=7),
    "first": q(0.0, 1.0, 8),
    "gap": q(0.1, 2.0, 19),
    "periodic": st.booleans(),
    "single": st.booleans(),
    "as": st.sampled_from(["list", "array", "tuple"]),
}


class Slice:
    """Stands for a poloidal grid; its metric is different for each slice"""

    def __init__(self, k, nx, nz):
        self.k, self.nx, self.nz = k, nx, nz
        rng = np.random.RandomState(k)
        self.m = {n: rng.rand(nx, nz) for n in ("gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "dx", "dz")}

    def metric(self):
        return {k: v.copy() for k, v in self.m.items()}


def make(case, cls=None):
    from zoidberg.grid import Grid

    y = case["first"] + np.concatenate([[0.0], np.cumsum(case["steps"][1:])])
    Ly = float(y[-1] + case["gap"])
    ny = len(y)
    if case["single"]:
        pol = Slice(0, 4, 5)
        pols = [pol] * ny
    else:
        pol = pols = [Slice(k, 4, 5) for k in range(ny)]
    given = {"list": list, "array": np.array, "tuple": tuple}[case["as"]](y)
    g = Grid(pol, given, Ly, yperiodic=case["periodic"])
    return g, y, Ly, pols


index_case = st.fixed_dictionaries(
    {
        **base,
        "i": st.one_of(st.integers(-30, 30), st.integers(-3, 12)),
        "frac": st.one_of(st.just(0), q(0.0, 1.0, 16), q(0.0, 1.0, 640)),
        "kind": st.sampled_from(["int", "float", "numpy"]),
    }
)


def y_model(y, Ly, periodic, i):
    ny = len(y)
    if periodic:
        return y[i % ny] + (i // ny) * Ly
    if i < 0:
        return 0.0
    if i >= ny:
        return Ly
    return y[i]


def index(case):
    """slice and y position of any index, also far outside and between slices; trivial for indices of existing slices"""
    g, y, Ly, pols = make(case)
    ny = len(y)
    assert tuple(g.shape) == (4, ny, 5)
    assert g.numberOfPoloidalGrids() == ny
    close(g.ycoords, y, 0, "ycoords")
    i, frac = case["i"], case["frac"]
    labels = ["periodic" if case["periodic"] else "not periodic"]
    if not 0 < frac < 1:
        ind = {"int": int, "float": float, "numpy": np.int64}[case["kind"]](i)
        pol, yv = g.getPoloidalGrid(ind)
        close(yv, y_model(y, Ly, case["periodic"], i), 1e-12, "y", 100)
        if case["periodic"]:
            assert pol is pols[i % ny], "not the slice of this index"
        elif 0 <= i < ny:
            assert pol is pols[i], "not the slice of this index"
        else:
            assert pol is None, "a slice outside of the domain"
        if 0 <= i < ny:
            labels.append("trivial")
        return labels
    labels.append("between")
    v = i + frac
    pol, yv = g.getPoloidalGrid(v)
    assert pol is None
    a, b = y_model(y, Ly, case["periodic"], i), y_model(y, Ly, case["periodic"], i + 1)
    if not case["periodic"]:
        # The cell ends half way to the slice which is missing
        if i == -1:
            a = 2 * 0.0 - b
        elif i == ny - 1:
            b = 2 * Ly - a
    close(yv, a + (b - a) * frac, 1e-9, "y", 100)
    return labels


order_case = st.fixed_dictionaries({**base, "i": st.integers(-20, 20)})


def order(case):
    """neighbouring slices: y increases, and a whole turn adds the length of the domain"""
    g, y, Ly, pols = make(case)
    ny = len(y)
    i = case["i"]
    ym, y0, yp = (g.getPoloidalGrid(k)[1] for k in (i - 1, i, i + 1))
    assert ym <= y0 <= yp, f"y values {ym}, {y0}, {yp} of the slices around {i}"
    if case["periodic"]:
        p, yn = g.getPoloidalGrid(i + ny)
        assert p is g.getPoloidalGrid(i)[0]
        close(yn - y0, Ly, 1e-10, "length of the domain", 100)
        return []
    return []


metric_case = st.fixed_dictionaries(
    {**base, "J": st.sampled_from(["none", "none", "all", "some"]), "first_J": st.integers(0, 9)}
)


def metric(case):
    """metric of each slice is in its place, spacing in y from the neighbours"""
    g, y, Ly, pols = make(case)
    ny = len(y)
    for j, p in enumerate(pols):
        # Poloidal grids can give a Jacobian, but then all of them have to
        if case["J"] == "all" or case["J"] == "some" and j == case["first_J"] % ny:
            p.m["J"] = np.random.RandomState(99 + p.k).rand(4, 5)
    if case["J"] == "some" and ny > 1 and not case["single"]:
        raises(AssertionError, g.metric, "J only in some slices")
        return ["rejected"]
    m = g.metric()
    again = g.metric()
    assert ("J" in m) == ("J" in pols[0].m)
    for k in ("dx", "dy", "dz", "gxx", "gxz", "gyy", "gzz", "g_xx", "g_xz", "g_yy", "g_zz"):
        assert m[k].shape == (4, ny, 5), k
        close(again[k], m[k], 0, "second call: " + k)
    for j in range(ny):
        for k in pols[j].m:
            close(m[k][:, j, :], pols[j].m[k], 0, f"{k} of slice {j}")
    one = np.ones((4, ny, 5))
    close(m["gyy"], one, 0, "gyy")
    close(m["g_yy"], one, 0, "g_yy")
    if ny == 1:
        dy = np.array([Ly])
    elif case["periodic"]:
        dy = np.array([0.5 * (y_model(y, Ly, True, j + 1) - y_model(y, Ly, True, j - 1)) for j in range(ny)])
        close(np.sum(dy), Ly, 1e-12, "the lengths do not add up", 100)
    else:
        # Differences of the neighbours which exist
        dy = np.array(
            [
                (y[min(j + 1, ny - 1)] - y[max(j - 1, 0)]) / (min(j + 1, ny - 1) - max(j - 1, 0))
                for j in range(ny)
            ]
        )
    close(m["dy"], one * dy[None, :, None], 1e-12, "dy", 100)
    return ["periodic" if case["periodic"] else "not periodic"] + (["trivial"] if ny == 1 else [])


rect_case = st.fixed_dictionaries(
    {
        "nx": st.integers(5, 12),
        "ny": st.integers(1, 8),
        "nz": st.integers(1, 10),
        "args": st.lists(st.sampled_from(["Lx", "Ly", "Lz", "xcentre", "zcentre", "yperiodic"]), unique=True),
        "Lx": q(0.1, 4.0),
        "Ly": q(0.5, 20.0),
        "Lz": q(0.1, 4.0),
        "xcentre": sq(3.0),
        "zcentre": sq(3.0),
        "yperiodic": st.booleans(),
    }
)


def rectangular(case):
    """rectangular grids with any subset of the parameters given"""
    from zoidberg.grid import rectangular_grid

    kw = {k: case[k] for k in case["args"]}
    g = rectangular_grid(case["nx"], case["ny"], case["nz"], **kw)
    p = dict(Lx=1.0, Ly=10.0, Lz=1.0, xcentre=0.0, zcentre=0.0, yperiodic=False)
    p.update(kw)
    nx, ny, nz = case["nx"], case["ny"], case["nz"]
    assert tuple(g.shape) == (nx, ny, nz)
    dy = p["Ly"] / ny
    y = (np.arange(ny) + (0 if p["yperiodic"] else 0.5)) * dy
    close(g.ycoords, y, 1e-12, "ycoords", p["Ly"])
    close(g.Ly, p["Ly"], 0, "Ly")
    assert bool(g.yperiodic) == p["yperiodic"]
    m = g.metric()
    close(m["dy"], np.full((nx, ny, nz), dy), 1e-12, "dy", p["Ly"])
    dx, dz = p["Lx"] / (nx - 4), p["Lz"] / nz
    close(m["dx"], np.full((nx, ny, nz), dx), 1e-12, "dx", p["Lx"])
    close(m["dz"], np.full((nx, ny, nz), dz), 1e-12, "dz", p["Lz"])
    for j in range(ny):
        pol, yv = g.getPoloidalGrid(j)
        close(yv, y[j], 1e-12, "y", p["Ly"])
        x = p["xcentre"] - p["Lx"] / 2 + (np.arange(nx) - 1.5) * dx
        z = p["zcentre"] - p["Lz"] / 2 + (np.arange(nz) + 0.5) * dz
        close(pol.R, np.broadcast_to(x[:, None], (nx, nz)), 1e-11, "x", 10)
        close(pol.Z, np.broadcast_to(z[None, :], (nx, nz)), 1e-11, "z", 10)
    p2, y2 = g.getPoloidalGrid(ny)
    assert (p2 is None) == (not p["yperiodic"])
    close(y2, p["Ly"], 1e-12, "end of the domain", p["Ly"])
    return []


curved_case = st.fixed_dictionaries({**base, "grids": st.lists(annulus.case, min_size=7, max_size=7)})


def curved(case):
    """real curvilinear slices, all different"""
    from zoidberg.grid import Grid
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    y = case["first"] + np.concatenate([[0.0], np.cumsum(case["steps"][1:])])
    Ly = float(y[-1] + case["gap"])
    pols = []
    for k in range(len(y)):
        spec = {**case["grids"][k], "nx": 6, "nz": 14}
        R, Z, f = annulus.arrays(spec)
        pols.append(StructuredPoloidalGrid(R, Z))
    g = Grid(pols, list(y), Ly, yperiodic=case["periodic"])
    m = g.metric()
    for j, p in enumerate(pols):
        pm = StructuredPoloidalGrid(p.R, p.Z).metric()
        for k in ("dx", "dz", "gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz"):
            close(m[k][:, j, :], np.broadcast_to(pm[k], (6, 14)), 0, f"{k} of slice {j}")
        assert g.getPoloidalGrid(j)[0] is p
    return []


def mismatch(case):
    """numbers of slices and of y coordinates which differ are rejected"""
    from zoidberg.grid import Grid

    n = case["n"]
    raises(
        (AssertionError, ValueError),
        lambda: Grid([Slice(k, 4, 5) for k in range(n)], np.arange(n + case["d"]) * 1.0, 10.0),
        "different numbers",
    )
    return []


LAWS = [
    Law("index", index_case, index, 2000),
    Law("order", order_case, order, 500),
    Law("metric", metric_case, metric, 500),
    Law("rectangular", rect_case, rectangular, 300),
    Law("curved", curved_case, curved, 60),
    Law(
        "mismatch",
        st.fixed_dictionaries({"n": st.integers(1, 6), "d": st.sampled_from([-1, 1, 2])}).filter(
            lambda c: c["n"] + c["d"] > 0
        ),
        mismatch,
        10,
        20,
    ),
]

# Sizes far above those of the other laws
many = st.lists(q(0.05, 1.0, 8), min_size=12, max_size=40)
LAWS += [
    Law(
        "large index",
        larger(index_case, steps=many, i=st.integers(-90, 90)),
        index,
        200,
        4000,
        "as index, with many slices",
    ),
    Law("large", larger(metric_case, steps=many), metric, 60, 1000, "as metric, with many slices"),
    Law(
        "large rectangular",
        larger(rect_case, nx=st.integers(13, 60), ny=st.integers(9, 40), nz=st.integers(11, 90)),
        rectangular,
        40,
        600,
        "as rectangular, with more cells",
    ),
]
