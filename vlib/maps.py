"""Grids and fields with known field lines for checks of the maps"""

import numpy as np
from hypothesis import strategies as st

from vlib import annulus
from vlib.gen import LinearLines, linear_field, nz, q, sq


class ExactTracer:
    """Follows the lines of a linear_case without error"""

    def __init__(self, lines):
        self.lines = lines
        self.rtol = set()

    def follow_field_lines(self, x, z, y, rtol=None):
        self.rtol.add(rtol)
        return self.lines.exact_all(x, z, np.asarray(y))


def in_units(field, lines, u):
    """The same field and its lines, with lengths in other units"""
    from zoidberg.field import MagneticField

    class Scaled(MagneticField):
        def Rfunc(self, x, z, phi):
            R = field.Rfunc(x / u, z / u, phi)
            return None if R is None else u * R

        def _factor(self, x, z, phi):
            return u if field.Rfunc(x / u, z / u, phi) is None else 1.0

        def Bxfunc(self, x, z, phi):
            return field.Bxfunc(x / u, z / u, phi) * self._factor(x, z, phi)

        def Bzfunc(self, x, z, phi):
            return field.Bzfunc(x / u, z / u, phi) * self._factor(x, z, phi)

        def Byfunc(self, x, z, phi):
            return field.Byfunc(x / u, z / u, phi)

    class Tracer:
        def follow_field_lines(self, x, z, y, rtol=None):
            return u * lines.exact_all(np.asarray(x) / u, np.asarray(z) / u, np.asarray(y))

    return Scaled(), Tracer()


class Band:
    """Outside is everything beyond a slanted line which moves with y"""

    def __init__(self, a, b, c, d):
        self.p = a, b, c, d

    def value(self, x, y, z):
        a, b, c, d = self.p
        return a * x + b * z + c * y - d

    def outside(self, x, y, z):
        return self.value(x, y, z) > 0


# Mild lines, so that they stay near the domain
lines_case = st.fixed_dictionaries(
    {
        "M": st.tuples(sq(0.3, 6), sq(0.3, 6), sq(0.3, 6), sq(0.3, 6)).map(list),
        "c": st.tuples(sq(1.0, 4), sq(1.0, 4)).map(list),
        "u": st.tuples(sq(0.3, 6), sq(0.3, 6)).map(list),
        "w": st.tuples(sq(0.2, 4), sq(0.2, 4)).map(list),
        "k": q(0.5, 2.0, 6),
        "p": q(0.0, 3.0, 6),
        "R": st.sampled_from(["none", "const", "varying"]),
        "By": nz(0.5, 2.0, 6),
        "ripple": q(0.0, 0.4, 4),
        "combined": st.booleans(),
    }
)

# Mostly usual distances between slices, and some which are very short
spacing = st.one_of(q(0.2, 1.0, 8), q(0.2, 1.0, 8), q(0.2, 1.0, 8), st.sampled_from([1e-4, 1e-3, 0.01, 0.05]))
y_case = {
    "steps": st.lists(spacing, min_size=1, max_size=4),
    "first": q(0.0, 0.5, 4),
    "gap": spacing,
    "periodic": st.booleans(),
}


def ycoords(case):
    y = np.concatenate([[0.0], np.cumsum(case["steps"][1:])])
    if case["periodic"]:
        # Can start anywhere
        return 4 * case["first"] - 1 + y, float(y[-1] + case["first"] + case["gap"])
    # The slices are inside of the domain, not on its ends
    y = case["first"] + 0.125 + y
    return y, float(y[-1] + case["gap"])


def y_at(y, Ly, periodic, i):
    """y of any whole or half index, and whether there is a slice"""
    ny = len(y)

    def whole(i):
        if periodic:
            return y[i % ny] + (i // ny) * Ly, True
        if i < 0:
            return 0.0, False
        if i >= ny:
            return Ly, False
        return y[i], True

    lo = int(np.floor(i))
    if lo == i:
        return whole(lo)
    (a, ea), (b, eb) = whole(lo), whole(lo + 1)
    if ea and eb:
        return 0.5 * (a + b), False
    return (b if ea else a), False


rect_case = {
    "nx": st.integers(5, 8),
    "nz": st.integers(2, 5),
    "rects": st.lists(
        st.fixed_dictionaries(
            {
                "Lx": q(0.5, 2.0, 6),
                "Lz": q(0.5, 2.0, 6),
                "Rc": sq(1.0, 4),
                "Zc": sq(1.0, 4),
            }
        ),
        min_size=1,
        max_size=4,
    ),
}


def rect_pols(case, ny, mxg=2):
    """Rectangular slices (each its own if there are enough), with their geometry"""
    from zoidberg.poloidal_grid import RectangularPoloidalGrid

    pols, geo = [], []
    for j in range(ny):
        r = case["rects"][j % len(case["rects"])]
        nx, nz_ = case["nx"], case["nz"]
        pols.append(RectangularPoloidalGrid(nx, nz_, r["Lx"], r["Lz"], Rcentre=r["Rc"], Zcentre=r["Zc"]))
        dx, dz = r["Lx"] / (nx - 4), r["Lz"] / nz_
        geo.append((r["Rc"] - r["Lx"] / 2 - 1.5 * dx, dx, r["Zc"] - r["Lz"] / 2 + 0.5 * dz, dz))
    return pols, geo


boundary_case = st.one_of(
    st.none(),
    st.tuples(sq(1.0, 4), sq(1.0, 4), sq(0.5, 4), sq(1.0, 4)).map(list),
)

small_annulus = annulus.case.map(lambda c: {**c, "nx": 6, "nz": 14})


def annulus_pols(specs, ny):
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    pols = []
    for j in range(ny):
        spec = dict(specs[j % len(specs)])
        # Same centre and sense for all slices
        for k in ("R0", "Z0", "clockwise", "nx", "nz"):
            spec[k] = specs[0][k]
        R, Z, f = annulus.arrays(spec)
        pols.append(StructuredPoloidalGrid(R, Z))
    return pols


def swirl(case, R0, Z0):
    """A linear_case which rotates about the centre of an annulus"""
    a, b = case
    return {
        "M": [b, a, -a, b],
        "c": [R0, Z0],
        "u": [0.0, 0.0],
        "w": [0.0, 0.0],
        "k": 1.0,
        "p": 0.0,
        "R": "varying",
        "By": 1.0,
        "ripple": 0.2,
        "combined": False,
    }


__all__ = ["LinearLines", "linear_field"]

# Sizes far above the usual ones
big_case = {
    "nx": st.integers(9, 24),
    "nz": st.integers(6, 20),
    "steps": st.lists(q(0.1, 0.4, 8), min_size=5, max_size=12),
}
big_annulus = annulus.case.map(lambda c: {**c, "nx": 14, "nz": 40})
