"""Grid files: a grid, a field with known lines, the maps, and what is in the file"""

import netCDF4
import numpy as np
from hypothesis import strategies as st

from vlib import maps as vm
from vlib.gen import linear_field, nz, q, sq

case = {
    "curved": st.booleans(),
    "ny": st.integers(1, 4),
    "dy": q(0.1, 0.5, 8),
    "first": q(0.0, 0.5, 4),
    "periodic": st.booleans(),
    "nslice": st.sampled_from([1, 1, 2, 3]),
    "nx": st.integers(5, 8),
    "nz": st.integers(4, 6),
    "rects": st.lists(
        st.fixed_dictionaries(
            {"Lx": q(0.2, 0.5, 6), "Lz": q(0.25, 2.0, 6), "Rc": q(2.0, 3.0, 8), "Zc": sq(1.0, 4)}
        ),
        min_size=1,
        max_size=3,
    ),
    "grids": st.lists(vm.small_annulus, min_size=1, max_size=3),
    "swirl": st.tuples(sq(0.6, 6), sq(0.15, 3)).map(list),
    "R": st.sampled_from(["none", "const", "varying", "x"]),
    "By": nz(0.5, 2.0, 6),
    "attributes": st.integers(0, 2),
    "pressure": st.booleans(),
}


# Sizes far above the usual ones
big_case = {
    "nx": st.integers(9, 20),
    "ny": st.integers(5, 10),
    "nz": st.integers(7, 24),
    "dy": q(0.05, 0.2, 8),
    "grids": st.lists(vm.big_annulus, min_size=1, max_size=3),
}


def attribute(i):
    return lambda x, z, y: (i + 1) * x + 0.5 * z**2 - np.sin(y + i) * z


def pressure(case, x, z, y):
    return 3.0 + np.sin(x) * z + 0.25 * np.cos(ky(case) * y)


def ky(case):
    """The field is periodic in the length of the domain"""
    return 2 * np.pi / (case["dy"] * case["ny"])


def setup(case):
    """grid, field, lines (rectangular grids: lines along y only move in z)"""
    from zoidberg.grid import Grid

    ny, dy = case["ny"], case["dy"]
    Ly = dy * ny
    y = dy * (np.arange(ny) + 0.5)
    if case["periodic"]:
        y = case["first"] + dy * np.arange(ny)
    if case["curved"]:
        pols = vm.annulus_pols(case["grids"], ny)
        spec = case["grids"][0]
        centre = spec["R0"], spec["Z0"]
        fc = vm.swirl(case["swirl"], *centre)
    else:
        pols, _ = vm.rect_pols(case, ny)
        fc = vm.swirl([0.0, 0.0], 0.0, 0.0)
    fc["R"] = case["R"]
    fc["By"] = case["By"]
    fc["ky"] = ky(case)
    field, lines = linear_field(fc)
    if case["pressure"]:
        field.pressure = lambda x, z, y: pressure(case, x, z, y)
    for i in range(case["attributes"]):
        field.attributes[f"attr{i}"] = attribute(i)
    return Grid(pols, y, Ly, yperiodic=case["periodic"]), field, lines


def make(case, grid, field, lines, **kw):
    from zoidberg import zoidberg

    return zoidberg.make_maps(
        grid,
        field,
        nslice=case["nslice"],
        quiet=True,
        field_tracer=vm.ExactTracer(lines),
        refine_parallel_integral=2,
        n_chunks=1,
        **kw,
    )


def read(fn):
    """Variables, their dimensions, and attributes"""
    with netCDF4.Dataset(fn) as f:
        f.set_auto_mask(False)
        v = {k: np.array(f.variables[k][...]) for k in f.variables}
        d = {k: tuple(f.variables[k].dimensions) for k in f.variables}
        a = {k: f.getncattr(k) for k in f.ncattrs()}
    return v, d, a
