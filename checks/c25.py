"""C25  Metric, field and pressure in the grid file, at the cells and at the ends of their field lines"""

import os

import numpy as np
from hypothesis import strategies as st

from vlib import files
from vlib import maps as vm
from vlib.gen import close, larger
from vlib.harness import Law

ASSUMPTIONS = [
    "the poloidal metric of a set of positions is what the poloidal grid made of them gives (decided by C13)",
    "equal steps in y, as required for writing",
    "parallel slices: curvilinear grids (for rectangular ones see the known finding)",
]


def write(case, **kw):
    from zoidberg import zoidberg

    grid, field, lines = files.setup(case)
    maps = files.make(case, grid, field, lines)
    with zoidberg.MapWriter("grid.nc", quiet=True, metric2d=False) as mw:
        mw.add_grid_field(grid, field)
        mw.add_maps(maps)
    v, d, a = files.read("grid.nc")
    os.remove("grid.nc")
    return grid, field, lines, maps, v


POL = {
    "dx": "dx",
    "dz": "dz",
    "g_xx": "g_11",
    "g_xz": "g_13",
    "g_zz": "g_33",
    "gxx": "g11",
    "gxz": "g13",
    "gzz": "g33",
}


def strength(field, R, Z, y):
    bx, by, bz = field.Bxfunc(R, Z, y), field.Byfunc(R, Z, y), field.Bzfunc(R, Z, y)
    return np.sqrt(bx**2 + by**2 + bz**2), by


def values(case, field, pol_metric, R, Z, y):
    """Expected metric and field at positions of a slice"""
    B, By = strength(field, R, Z, y)
    Rm = field.Rfunc(R, Z, y)
    Rm = 1.0 if Rm is None else Rm
    out = {f: pol_metric[k] + 0 * R for k, f in POL.items()}
    out["B"] = out["Bxy"] = B
    out["pressure"] = files.pressure(case, R, Z, y) if case["pressure"] else 0 * R
    out["g22"] = (By / (B * Rm)) ** 2
    out["g_22"] = (B * Rm / By) ** 2
    return out


def scale(a):
    return max(1.0, float(np.max(np.abs(a))))


def cells(case):
    """all cells of all slices; trivial if all slices are the same"""
    grid, field, lines, maps, v = write(case)
    nx, ny, nz = grid.shape
    dy = case["dy"]
    for j in range(ny):
        pol = grid.poloidal_grids[j]
        fresh = type(pol)(pol.R.copy(), pol.Z.copy()) if case["curved"] else pol
        y = grid.ycoords[j]
        e = values(case, field, fresh.metric(), pol.R, pol.Z, y)
        e["dy"] = np.full((nx, nz), dy)
        # Here the length of the field line across the cell
        e["g_yy_old"] = e.pop("g_22")
        for post in ("", "_cell_ylow", "_cell_yhigh"):
            e["g_22" + post] = (maps["Ly" + post][:, j, :] / dy) ** 2
        if "g_yy_correct" in v:
            e["g_yy_correct"] = e["g_22"]
        for i in range(case["attributes"]):
            e[f"attr{i}"] = files.attribute(i)(pol.R, pol.Z, y)
        for k, x in e.items():
            close(v[k][:, j, :], x, 1e-9, k, scale(x))
        close(
            v["g11"][:, j] * v["g33"][:, j] - v["g13"][:, j] ** 2,
            1 / (v["g_11"][:, j] * v["g_33"][:, j] - v["g_13"][:, j] ** 2),
            1e-6,
            "inverse",
            scale(v["g11"] * v["g33"]),
        )
    n = len(case["grids"] if case["curved"] else case["rects"])
    return ["curved" if case["curved"] else "rectangular"] + (["trivial"] if min(n, ny) < 2 else [])


mostly_curved = st.fixed_dictionaries({**files.case, "curved": st.sampled_from([True, True, False])})
curved_case = st.fixed_dictionaries({**files.case, "curved": st.just(True)})


def parallel(case):
    """all parallel slices, also beyond the ends of the domain; trivial if the lines do not move and there is one slice"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    grid, field, lines, maps, v = write(case)
    nx, ny, nz = grid.shape
    y, Ly = grid.ycoords, grid.Ly
    labels = set()
    for n in range(1, case["nslice"] + 1):
        for pre, off in (("forward_", n), ("backward_", -n)):
            post = "" if n == 1 else f"_{n}"
            for j in range(ny):
                yt, there = vm.y_at(y, Ly, case["periodic"], j + off)
                if not there:
                    labels.add("end of domain")
                R0, Z0 = grid.poloidal_grids[j].R, grid.poloidal_grids[j].Z
                R, Z = lines.exact(R0, Z0, y[j], yt)
                if case["curved"]:
                    e = values(case, field, StructuredPoloidalGrid(R, Z).metric(), R, Z, yt)
                else:
                    # See the known finding
                    e = values(case, field, {k: 0.0 for k in POL}, R, Z, yt)
                    for k in POL.values():
                        del e[k]
                e["dy"] = np.full((nx, nz), case["dy"])
                e["R"], e["Z"] = R, Z
                for k, x in e.items():
                    close(v[pre + k + post][:, j, :], x, 1e-6, pre + k + post, scale(x))
    return sorted(labels) + ([] if any(case["swirl"]) and case["curved"] or case["ny"] > 1 else ["trivial"])


def rigid(case):
    """lines which rotate rigidly about the axis of a grid: the poloidal metric at the ends is that of the cell"""
    case = {**case, "swirl": [case["swirl"][0], 0.0]}
    grid, field, lines, maps, v = write(case)
    for n in range(1, case["nslice"] + 1):
        for pre in ("forward_", "backward_"):
            post = "" if n == 1 else f"_{n}"
            for k in POL.values():
                close(v[pre + k + post], v[k], 1e-6, pre + k + post, scale(v[k]))
    return [] if case["swirl"][0] else ["trivial"]


def known_rectangular(case):
    """Parallel slices of a rectangular grid with straight lines should have the metric of the cells"""
    from zoidberg import field, zoidberg
    from zoidberg.grid import rectangular_grid

    g = rectangular_grid(8, 4, 8, Ly=2.0, xcentre=case["xcentre"], yperiodic=True)
    f = field.Slab(By=1.0, Bz=0.0, Bzprime=0.0)
    m = zoidberg.make_maps(g, f, quiet=True)
    zoidberg.write_maps(g, f, m, gridfile="known.nc", metric2d=False, quiet=True)
    v, _, _ = files.read("known.nc")
    return not np.allclose(v["forward_g_33"] * v["forward_dz"] ** 2, v["g_33"] * v["dz"] ** 2, rtol=1e-3)


KNOWN = {"rectangular": known_rectangular}

LAWS = [
    Law("cells", st.fixed_dictionaries(files.case), cells, 160),
    Law("parallel", mostly_curved, parallel, 160),
    Law("rigid", curved_case, rigid, 80),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large cells",
        larger(files.case, **files.big_case),
        cells,
        5,
        100,
        "as cells, with more cells and slices",
    ),
    Law(
        "large",
        larger(mostly_curved, **files.big_case),
        parallel,
        5,
        100,
        "as parallel, with more cells and slices",
    ),
]
