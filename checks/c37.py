"""C37  Curvature, transform and flux surfaces of the grid scripts"""

import os

import numpy as np
from hypothesis import strategies as st

from vlib import annulus
from vlib.gen import close, q, snapshot, sq, unchanged
from vlib.harness import Law

ASSUMPTIONS = [
    "grids which are the same in all slices, with coordinates close enough to those of the points next to them (second order differences)",
    "away from the ends of the grid in x, y and z, where one-sided differences are used",
]

curvature_case = st.fixed_dictionaries(
    {
        "R0": q(2.0, 4.0, 8),
        "Z0": sq(1.0, 8),
        "r_in": q(0.3, 0.5, 4),
        "elong": q(0.8, 1.3, 5),
        "shear": sq(0.3, 4),
        "start": q(0.0, 6.0, 12),
        "B0": st.sampled_from([-2.0, 0.5, 1.0, 3.0]),
        "by": st.tuples(sq(0.2, 4), sq(0.2, 4), sq(0.3, 4)).map(list),
        "bx": st.tuples(sq(0.3, 4), sq(0.4, 4), sq(0.4, 4), sq(0.4, 4)).map(list),
        "bz": st.tuples(sq(0.3, 4), sq(0.4, 4), sq(0.4, 4), sq(0.4, 4)).map(list),
        "y0": sq(3.0, 9),
        "period": q(0.6, 1.2, 6),
    }
)


def field_of(case):
    from zoidberg.field import MagneticField

    a, b, c = case["by"], case["bx"], case["bz"]
    R0, Z0, B0, n = case["R0"], case["Z0"], case["B0"], 2 * np.pi / case["period"]

    class Field(MagneticField):
        def Byfunc(self, x, z, phi):
            return B0 * R0 / x * (1 + a[0] * (x - R0) + a[1] * (z - Z0) + a[2] * np.cos(n * phi) * (z - Z0))

        def Bxfunc(self, x, z, phi):
            return 0.5 * B0 * (b[0] + b[1] * (x - R0) + b[2] * (z - Z0) ** 2 + b[3] * np.sin(n * phi))

        def Bzfunc(self, x, z, phi):
            return (
                0.5 * B0 * (c[0] + c[1] * (x - R0) ** 2 + c[2] * (z - Z0) + c[3] * np.cos(n * phi) * (x - R0))
            )

        def Rfunc(self, x, z, phi):
            return x

    return Field()


def curvature(case):
    """any fields, also depending on the angle, on annular grids of any place and shape: Jacobian; nothing else is changed in the file (the curvature itself is a known finding); trivial never"""
    from boututils.datafile import DataFile

    from zoidberg.examples.common import calc_curvilinear_curvature
    from zoidberg.grid import Grid

    c = {
        **case,
        "nx": 12,
        "nz": 64,
        "r_out": case["r_in"] + 0.35,
        "triang": 0.0,
        "shift": 0.0,
        "stretch": 0.0,
        "clockwise": False,
    }
    pol, R, Z, f = annulus.grid(c)
    ny = 32
    y = case["y0"] + np.arange(ny) * case["period"] / ny
    field = field_of(case)
    grid = Grid(pol, y, case["period"], yperiodic=True)
    shape = grid.shape
    R3, Z3, P3 = (np.broadcast_to(a, shape) for a in (R[:, None, :], Z[:, None, :], y[None, :, None]))
    B = field.Bmag(R3, Z3, P3)
    given = {
        "R": np.array(R3),
        "Z": np.array(Z3),
        "B": np.array(B),
        "dy": np.full(shape, case["period"] / ny),
    }
    with DataFile("curv.nc", write=True, create=True) as out:
        for k, v in given.items():
            out.write(k, v)
    before = snapshot(R, Z, y)
    calc_curvilinear_curvature("curv.nc", field, grid, {})
    unchanged(before, R, Z, y)
    with DataFile("curv.nc") as got:
        got = {k: np.asarray(got.read(k)) for k in ("R", "Z", "B", "dy", "bxcvx", "bxcvy", "bxcvz", "J")}
    os.remove("curv.nc")
    for k, v in given.items():
        close(got[k], v, 0, k)
    # Derivatives of the positions, with x and z from 0 to 1
    i, j = np.meshgrid(np.arange(c["nx"]), np.arange(c["nz"]), indexing="ij")
    h = 1e-3
    m = grid.metric()
    dx, dz = m["dx"][:, 0, :], m["dz"][:, 0, :]
    Rx, Zx = ((p - q_) / (2 * h) / dx for p, q_ in zip(f(i + h, j), f(i - h, j)))
    Rz, Zz = ((p - q_) / (2 * h) / dz for p, q_ in zip(f(i, j + h), f(i, j - h)))
    J = R * (Rx * Zz - Rz * Zx)
    inner = (slice(2, -2), slice(2, -2), slice(2, -2))
    close(got["J"][inner], np.broadcast_to(J[:, None, :], shape)[inner], 0.02, "J", np.abs(J).max())
    for k in ("bxcvx", "bxcvy", "bxcvz"):
        assert got[k].shape == shape and np.all(np.isfinite(got[k])), k
    return []


iota_case = st.fixed_dictionaries(
    {
        "R0": q(1.0, 3.0, 8),
        "Z0": sq(0.5, 4),
        "iota": q(0.15, 1.2, 21),
        "sign": st.sampled_from([-1.0, 1.0]),
        "r": q(0.05, 0.4, 7),
        "elong": q(0.7, 1.5, 8),
        "start": q(0.0, 6.0, 12),
    }
)


def circular(case):
    """Lines which go around (R0, Z0) with the given transform, on ellipses"""
    from zoidberg.field import MagneticField

    w, k = case["sign"] * case["iota"], case["elong"]

    class Field(MagneticField):
        def Byfunc(self, x, z, phi):
            return x + 0 * z

        def Bxfunc(self, x, z, phi):
            return -w * (z - case["Z0"]) / k + 0 * x

        def Bzfunc(self, x, z, phi):
            return w * k * (x - case["R0"]) + 0 * z

        def Rfunc(self, x, z, phi):
            return x

    return Field()


def on_ellipse(case, angle):
    return case["R0"] + case["r"] * np.cos(angle), case["Z0"] + case["elong"] * case["r"] * np.sin(angle)


def iota(case):
    """lines around an axis with any transform, direction, size and start: the turns around the axis for each turn around the torus; trivial never"""
    from zoidberg.examples.common import calc_iota

    R, Z = on_ellipse(case, case["start"])
    close(calc_iota(circular(case), R, Z), case["iota"], 0.03, "transform", case["iota"] * (1 + case["iota"]))
    return []


lines_case = st.fixed_dictionaries(
    {
        **{
            k: v
            for k, v in {
                "R0": q(1.0, 3.0, 8),
                "Z0": sq(0.5, 4),
                "r": q(0.05, 0.4, 7),
                "elong": q(0.8, 1.25, 5),
                "start": q(0.0, 6.0, 12),
                "sign": st.sampled_from([-1.0, 1.0]),
            }.items()
        },
        # Not rational
        "iota": st.sampled_from([0.6180339887, 0.4142135624, 0.2360679775, 0.7320508076]),
        "planes": st.lists(st.integers(0, 15), min_size=1, max_size=4, unique=True).map(sorted),
        "n": st.integers(60, 120),
    }
)


def surfaces(case):
    """flux surfaces which are ellipses: one line for each plane, on the surface, with equal distances between points; trivial never"""
    from zoidberg.examples.common import get_lines

    R, Z = on_ellipse(case, case["start"])
    y = np.array([2 * np.pi * p / 16 for p in case["planes"]])
    lines = get_lines(circular(case), R, Z, y, npoints=case["n"])
    assert len(lines) == len(y), f"{len(lines)} lines for {len(y)} planes"
    for line in lines:
        r = np.hypot(line.R - case["R0"], (line.Z - case["Z0"]) / case["elong"])
        close(r, 0 * r + case["r"], 2e-2, "distance from the axis", case["r"])
        d = np.hypot(np.diff(line.R, append=line.R[0]), np.diff(line.Z, append=line.Z[0]))
        close(d, 0 * d + d.mean(), 0.4, "equal distances", d.mean())
        close(
            np.sum(d),
            2
            * np.pi
            * case["r"]
            * np.mean(
                np.hypot(np.sin(np.linspace(0, 6.2, 99)), case["elong"] * np.cos(np.linspace(0, 6.2, 99)))
            ),
            0.05,
            "length",
            case["r"] * 6,
        )
    return []


pinch_case = st.fixed_dictionaries(
    {
        "nx": st.integers(7, 9),
        "ny": st.integers(4, 6),
        "nz": st.sampled_from([12, 16]),
        "xcentre": q(1.0, 3.0, 8),
        "a": q(0.1, 0.4, 6),
        "npoints": st.integers(40, 90),
    }
)


def pinch(case):
    """grid files of the screw pinch of any size: positions of the slices, surfaces between a/2 and a, lines which stay on their surface, curvature and metric without missing values; trivial never"""
    from boututils.datafile import DataFile

    from zoidberg.examples.screwpinch import screwpinch

    screwpinch(fname="pinch.nc", **case)
    with DataFile("pinch.nc") as f:
        v = {k: np.asarray(f.read(k)) for k in f.list()}
    os.remove("pinch.nc")
    nx, ny, nz = case["nx"], case["ny"], case["nz"]
    y = 2 * np.pi * np.arange(ny) / ny
    close(v["y_coord"], y, 1e-12, "y_coord", 7)
    assert (int(v["nx"]), int(v["ny"]), int(v["nz"])) == (nx, ny, nz)
    assert v["R"].shape == (nx, ny, nz)
    rho = np.hypot(v["R"] - case["xcentre"], v["Z"])
    a = case["a"]
    # One row of points outside of each line
    close(0.5 * (rho[0] + rho[1]), 0 * rho[0] + a / 2, 0.06, "inner line", a)
    close(0.5 * (rho[-1] + rho[-2]), 0 * rho[0] + a, 0.06, "outer line", a)
    for k in (
        "bxcvx",
        "bxcvy",
        "bxcvz",
        "J",
        "B",
        "g11",
        "g33",
        "g_22",
        "forward_xt_prime",
        "backward_zt_prime",
    ):
        assert v[k].shape == (nx, ny, nz) and np.all(np.isfinite(v[k])), k
    for k in "forward", "backward":
        end = np.hypot(v[k + "_R"] - case["xcentre"], v[k + "_Z"])
        close(end, rho, 1e-3, f"{k}: surface", a)
    return []


def known_curvature(case):
    """For b = phi R0/R the curl of b/B = phi R/(B0 R0) is 2/(B0 R0) in the direction of Z"""
    from boututils.datafile import DataFile

    from zoidberg.examples.common import calc_curvilinear_curvature
    from zoidberg.field import MagneticField
    from zoidberg.grid import Grid

    c = {"R0": case["R0"], "Z0": 0.0, "r_in": 0.3, "r_out": 0.65, "elong": 1.0, "shear": 0.0, "start": 0.0}
    c.update({"nx": 12, "nz": 64, "triang": 0.0, "shift": 0.0, "stretch": 0.0, "clockwise": False})
    pol, R, Z, f = annulus.grid(c)
    R0 = case["R0"]

    class Field(MagneticField):
        def Byfunc(self, x, z, phi):
            return R0 / x + 0 * z

        def Rfunc(self, x, z, phi):
            return x

    y = np.arange(8) * 2 * np.pi / 8
    grid = Grid(pol, y, 2 * np.pi, yperiodic=True)
    R3, Z3 = (np.broadcast_to(a[:, None, :], grid.shape) for a in (R, Z))
    with DataFile("known.nc", write=True, create=True) as out:
        for k, v in {"R": R3, "Z": Z3, "B": R0 / R3, "dy": np.full(grid.shape, 2 * np.pi / 8)}.items():
            out.write(k, np.array(v))
    calc_curvilinear_curvature("known.nc", Field(), grid, {})
    with DataFile("known.nc") as got:
        x, z = (np.asarray(got.read(k))[2:-2, 0, 2:-2] for k in ("bxcvx", "bxcvz"))
    os.remove("known.nc")
    # Back to the direction of Z
    m = grid.metric()
    i, j = np.meshgrid(np.arange(12), np.arange(64), indexing="ij")
    h = 1e-3
    Zx = ((f(i + h, j)[1] - f(i - h, j)[1]) / (2 * h) / m["dx"][:, 0])[2:-2, 2:-2]
    Zz = ((f(i, j + h)[1] - f(i, j - h)[1]) / (2 * h) / m["dz"][:, 0])[2:-2, 2:-2]
    return not np.allclose(x * Zx + z * Zz, 2 / R0, atol=0.04 / R0)


def known_smoothing(case):
    """Smoothing of constants should give the constants"""
    from boututils.datafile import DataFile

    from zoidberg.examples.common import smooth_metric

    names = ["bxcvx", "bxcvy", "bxcvz", "g11", "g_11", "g13", "g_13", "g33", "g_33", "J"]
    with DataFile("known.nc", write=True, create=True) as out:
        for k in names:
            out.write(k, np.full((2, 2, case["nz"]), 3.0))
    try:
        res = smooth_metric("known.nc", return_values=True)
    except AttributeError:
        return True
    return not np.allclose(res, 3.0)


KNOWN = {"curvature": known_curvature, "smoothing": known_smoothing}

LAWS = [
    Law("curvature", curvature_case, curvature, 60),
    Law("iota", iota_case, iota, 60),
    Law("surfaces", lines_case, surfaces, 60),
    Law("pinch", pinch_case, pinch, 24),
]
