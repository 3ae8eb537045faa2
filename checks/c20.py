"""C20  Volumes, lengths and field at the cells and their ends along the field"""

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson

from checks.c18 import name
from vlib import annulus
from vlib import maps as vm
from vlib.gen import close, larger, linear_field, nz, q, sq, units
from vlib.harness import Law

ASSUMPTIONS = [
    "fields in cylindrical coordinates, where x is the major radius (other fields: see the known finding)",
    "volumes: equal steps in y, which writing a grid file needs anyway",
    "integrals compared with a much finer quadrature along the exactly known line; tolerance from the requested refinement",
]

lines_case = st.fixed_dictionaries(
    {
        "M": st.tuples(sq(0.3, 6), sq(0.3, 6), sq(0.3, 6), sq(0.3, 6)).map(list),
        "c": st.tuples(q(2.0, 3.0, 4), sq(0.5, 4)).map(list),
        "u": st.tuples(sq(0.3, 6), sq(0.3, 6)).map(list),
        "w": st.tuples(sq(0.2, 4), sq(0.2, 4)).map(list),
        "k": q(0.5, 2.0, 6),
        "p": q(0.0, 3.0, 6),
        "R": st.just("x"),
        "By": nz(0.5, 2.0, 6),
        "ripple": q(0.0, 0.4, 4),
        "combined": st.booleans(),
    }
)
base = {
    **vm.y_case,
    "uniform": st.sampled_from([True, True, False]),
    "field": lines_case,
    "refine": st.sampled_from([None, 4, 8, 20, 21, 33]),
    "n_chunks": st.sampled_from([None, 1, 2, 5, 9]),
    "tracer": st.sampled_from(["exact", "exact", "exact", "default"]),
    "nslice": st.sampled_from([None, 1, 2]),
}
rect_case = st.fixed_dictionaries(
    {
        **base,
        "nx": st.integers(5, 7),
        "nz": st.integers(1, 4),
        "rects": st.lists(
            st.fixed_dictionaries(
                {"Lx": q(0.2, 0.5, 6), "Lz": q(0.25, 2.0, 6), "Rc": q(2.0, 3.0, 8), "Zc": sq(1.0, 4)}
            ),
            min_size=1,
            max_size=4,
        ),
        "curved": st.booleans(),
        "grids": st.lists(
            vm.small_annulus.map(
                lambda c: {**c, "nx": 5, "nz": 12, "r_in": c["r_in"] / 2, "r_out": c["r_out"] / 2, "R0": 2.5}
            ),
            min_size=1,
            max_size=4,
        ),
    }
)


def coordinates(case):
    ny = len(case["steps"])
    dy = case["gap"]
    if not case["uniform"]:
        return dy * (np.arange(ny) + 0.5 + 0.4 * (np.array(case["steps"]) - 0.6)), dy * ny
    if case["periodic"]:
        return case["first"] + dy * np.arange(ny), dy * ny
    return dy * (np.arange(ny) + 0.5), dy * ny


def integrals(case):
    """lengths, volumes and By of all cells; trivial if By and the lines do not vary"""
    from zoidberg import zoidberg
    from zoidberg.grid import Grid

    field, lines = linear_field(case["field"])
    y, Ly = coordinates(case)
    ny = len(y)
    if case["curved"]:
        pols = vm.annulus_pols(case["grids"], ny)
    else:
        pols, _ = vm.rect_pols(case, ny)
    grid = Grid(pols, y, Ly, yperiodic=case["periodic"])
    kw = {"quiet": True}
    for k, arg in (("refine", "refine_parallel_integral"), ("n_chunks", "n_chunks"), ("nslice", "nslice")):
        if case[k]:
            kw[arg] = case[k]
    if case["tracer"] == "exact":
        kw["field_tracer"] = vm.ExactTracer(lines)
    m = zoidberg.make_maps(grid, field, **kw)
    nx, nz_ = pols[0].nx, pols[0].nz
    rf = case["refine"] or 20
    per = case["periodic"]
    n = 200
    for k in ("J", "Ly", "By"):
        assert m[k].shape == (nx, ny, nz_)
    for j in range(ny):
        R0, Z0 = pols[j].R, pols[j].Z
        y0 = y[j]
        ylow = vm.y_at(y, Ly, per, j - 0.5)[0]
        yhigh = vm.y_at(y, Ly, per, j + 0.5)[0]
        yprev, there = vm.y_at(y, Ly, per, j - 1)
        if not there:
            yprev = 2 * yprev - y0
        ynext, there = vm.y_at(y, Ly, per, j + 1)
        if not there:
            ynext = 2 * ynext - y0
        tolB = 1e-8 if case["tracer"] == "exact" else 1e-4
        # The field at the middle and at both ends
        for post, yv in (("_cell_ylow", ylow), ("", y0), ("_cell_yhigh", yhigh)):
            R, Z = lines.exact(R0, Z0, y0, yv)
            close(m["By" + post][:, j, :], field.Byfunc(R, Z, yv), tolB, "By" + post, 3)

        def length(a, b):
            # in two pieces, as the length of steps may change at y0
            s = 0.0
            for lo, hi in ((a, min(max(y0, a), b)), (min(max(y0, a), b), b)):
                if hi <= lo:
                    continue
                t = np.linspace(lo, hi, n + 1)
                f = []
                for v in t:
                    R, Z = lines.exact(R0, Z0, y0, v)
                    dr, dz = lines.rate(R, Z, v)
                    f.append(np.sqrt(R**2 + dr**2 + dz**2))
                s = s + simpson(np.array(f), x=t, axis=0)
            return s

        tolL = 2e-3 / rf**2 + tolB
        if not case["uniform"]:
            # The step changes suddenly at y0, which the interpolation smooths
            tolL += 0.02 / rf
        for post, a, b in (
            ("_cell_ylow", yprev, y0),
            ("", ylow, yhigh),
            ("_cell_yhigh", y0, ynext),
        ):
            close(m["Ly" + post][:, j, :], length(a, b), tolL, "Ly" + post, 4)
        if not case["uniform"]:
            continue
        t = np.linspace(ylow, yhigh, 2 * n + 1)
        f = []
        for v in t:
            R, Z = lines.exact(R0, Z0, y0, v)
            f.append(R / field.Byfunc(R, Z, v))
        B0 = field.Byfunc(R0, Z0, y0)
        pm = pols[j].metric()
        Jp = np.sqrt(pm["g_xx"] * pm["g_zz"] - np.asarray(pm["g_xz"]) ** 2)
        f = Jp * B0 * np.array(f) / (yhigh - ylow)
        J = simpson(f, x=t, axis=0)
        scale = np.max(np.abs(J))
        # As good as the trapezoidal rule with the requested refinement
        step = len(t) // (2 * rf)
        err = np.max(np.abs(np.trapezoid(f[::step], t[::step], axis=0) - J)) / scale
        close(m["J"][:, j, :], J, 1.5 * err + 1e-4 / rf**2 + tolB, "J", scale)
    varies = case["field"]["ripple"] or any(case["field"][k][i] for k in "Muw" for i in range(2))
    return [
        "curved" if case["curved"] else "rectangular",
        "uniform" if case["uniform"] else "not uniform",
    ] + ([] if varies else ["trivial"])


torus_case = st.fixed_dictionaries(
    {
        "grid": vm.small_annulus,
        "ny": st.integers(1, 4),
        "periodic": st.booleans(),
        "B0": nz(0.5, 2.0, 6),
    }
)


def torus(case):
    """purely toroidal field of a torus: total volume and lengths are those of the torus"""
    from zoidberg import field, zoidberg
    from zoidberg.grid import Grid

    class Toroidal(field.MagneticField):
        def Byfunc(self, x, z, phi):
            return case["B0"] / x

        def Rfunc(self, x, z, phi):
            return x

    spec = {**case["grid"], "nx": 10, "nz": 24}
    spec["R0"] = max(spec["R0"], 2.0)
    pols = vm.annulus_pols([spec], case["ny"])
    ny = case["ny"]
    Ly = 2 * np.pi
    y = Ly * (np.arange(ny) + (0 if case["periodic"] else 0.5)) / ny
    grid = Grid(pols[0], y, Ly, yperiodic=case["periodic"])
    m = zoidberg.make_maps(grid, Toroidal(), quiet=True, refine_parallel_integral=4)
    R = np.broadcast_to(pols[0].R[:, None, :], m["Ly"].shape)
    for post in ("", "_cell_ylow", "_cell_yhigh"):
        close(m["Ly" + post], R * Ly / ny, 1e-4, "length " + post, 10)
    g = grid.metric()
    cells = m["J"] * g["dx"] * g["dy"] * g["dz"]
    # Inner cells only: their outer edges are between the points
    i = np.arange(1, 9)
    f = annulus.mapping(spec)

    def area_moment(i0, i1):
        """Integral of R over the area between two surfaces, by Green's theorem"""
        k = np.linspace(0, 24, 2401)
        out = 0.0
        for s, ii in ((1, i1), (-1, i0)):
            r, z = f(np.full_like(k, ii), k)
            out += s * np.trapezoid(0.5 * r**2, z)
        return abs(out)

    for ii in i:
        expect = area_moment(ii - 0.5, ii + 0.5) * Ly
        close(np.sum(cells[ii]), expect, 2e-2, f"volume of surface {ii}", expect)
    return []


def slab(case):
    """the Cartesian slab: no volumes and lengths are given, but By"""
    from zoidberg import field, zoidberg
    from zoidberg.grid import rectangular_grid

    g = rectangular_grid(6, 3, 4, Ly=3.0, yperiodic=case["periodic"])
    m = zoidberg.make_maps(g, field.Slab(By=case["B0"], Bz=case["Bz"], Bzprime=0.0), quiet=True)
    for post in ("", "_cell_ylow", "_cell_yhigh"):
        close(m["By" + post], np.full((6, 3, 4), case["B0"]), 1e-12, "By" + post, 3)
        assert "Ly" + post not in m
    assert "J" not in m
    return []


def known_cartesian(case):
    """J and Ly of a field in Cartesian coordinates contain a factor x"""
    from zoidberg import field, zoidberg
    from zoidberg.grid import rectangular_grid

    f = field.StraightStellarator(I_coil=0.0)
    g = rectangular_grid(6, 2, 4, xcentre=case["xcentre"], Ly=2.0, Lx=0.5, Lz=0.5, yperiodic=True)
    m = zoidberg.make_maps(g, f, quiet=True)
    # straight lines, By = 1: J = 1, Ly = dy = 1
    return not (np.allclose(m["J"], 1.0, atol=1e-3) and np.allclose(m["Ly"], 1.0, atol=1e-3))


KNOWN = {"cartesian": known_cartesian}

LAWS = [
    Law("integrals", rect_case, integrals, 400),
    Law("torus", torus_case, torus, 30),
    Law(
        "slab",
        st.fixed_dictionaries({"periodic": st.booleans(), "B0": nz(0.5, 2.0), "Bz": sq(0.5)}),
        slab,
        16,
        50,
    ),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            rect_case,
            nx=st.integers(9, 16),
            nz=st.integers(6, 14),
            steps=st.lists(q(0.2, 0.6, 8), min_size=6, max_size=10),
            n_chunks=st.sampled_from([None, 1, 7, 40]),
        ),
        integrals,
        8,
        150,
        "as integrals, with more cells and slices",
    ),
]

unit_case = st.fixed_dictionaries(
    {
        **vm.y_case,
        "field": lines_case,
        "nx": st.integers(5, 7),
        "nz": st.integers(1, 4),
        "rects": st.lists(
            st.fixed_dictionaries(
                {"Lx": q(0.2, 0.5, 6), "Lz": q(0.25, 2.0, 6), "Rc": q(2.0, 3.0, 8), "Zc": sq(1.0, 4)}
            ),
            min_size=1,
            max_size=2,
        ),
        "refine": st.sampled_from([2, 5, 20]),
        "unit": units,
    }
)


def scaled(case):
    """the same rectangular slices and field in other units: the same field at the cells and their ends; lengths and the Jacobian times the factor; trivial never"""
    from zoidberg import zoidberg
    from zoidberg.grid import Grid

    u = case["unit"]
    field, lines = linear_field(case["field"])
    other, tracer = vm.in_units(field, lines, u)
    y, Ly = coordinates({**case, "uniform": True})
    got = []
    for s, f, t in ((1.0, field, vm.ExactTracer(lines)), (u, other, tracer)):
        rects = [{k: s * r[k] for k in r} for r in case["rects"]]
        pols, _ = vm.rect_pols({**case, "rects": rects}, len(y))
        grid = Grid(pols, y, Ly, yperiodic=case["periodic"])
        got.append(
            zoidberg.make_maps(grid, f, field_tracer=t, quiet=True, refine_parallel_integral=case["refine"])
        )
    m, n = got
    for post in ("", "_cell_ylow", "_cell_yhigh"):
        close(n["By" + post], m["By" + post], 1e-9, f"By{post}, in units of {u}", 5)
        close(n["Ly" + post] / u, m["Ly" + post], 1e-8, f"Ly{post}, in units of {u}", 10)
    close(n["J"] / u, m["J"], 1e-8, f"J, in units of {u}", np.max(np.abs(m["J"])))
    return []


LAWS += [Law("scaled", unit_case, scaled, 60, 1000)]
