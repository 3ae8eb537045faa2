"""Smooth annular grids with a known mapping from index space"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import q, sq

case = st.fixed_dictionaries(
    {
        "nx": st.integers(5, 10),
        "nz": st.integers(12, 24),
        "R0": q(1.5, 4.0, 10),
        "Z0": sq(1.0, 8),
        "r_in": q(0.25, 0.5, 5),
        "r_out": q(0.7, 1.1, 4),
        "elong": q(0.8, 1.4, 6),
        "triang": sq(0.2, 4),
        "shear": sq(0.3, 4),
        "shift": sq(0.1, 4),
        "stretch": sq(0.25, 4),
        "clockwise": st.booleans(),
        "start": q(0.0, 6.0, 12),
    }
)


def mapping(c):
    nx, nz = c["nx"], c["nz"]
    sign = -1.0 if c["clockwise"] else 1.0

    def f(xi, zi):
        xi, zi = np.asarray(xi, dtype=float), np.asarray(zi, dtype=float)
        x = xi / (nx - 1)
        rho = c["r_in"] + (c["r_out"] - c["r_in"]) * (x + c["stretch"] * x * (x - 1))
        th = sign * 2 * np.pi * zi / nz + c["start"] + c["shear"] * x
        R = c["R0"] + rho * np.cos(th + c["triang"] * np.sin(th)) - c["shift"] * x
        Z = c["Z0"] + c["elong"] * rho * np.sin(th)
        return R, Z

    f.centre = np.array([c["R0"] - 0.0, c["Z0"]])
    return f


def arrays(c):
    i, j = np.meshgrid(np.arange(c["nx"]), np.arange(c["nz"]), indexing="ij")
    f = mapping(c)
    R, Z = f(i, j)
    return R, Z, f


def grid(c):
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    R, Z, f = arrays(c)
    return StructuredPoloidalGrid(R, Z), R, Z, f
