"""C18  Maps: where the field line through each cell meets the neighbouring slices"""

import numpy as np
from hypothesis import strategies as st

from vlib import maps as vm
from vlib.gen import close, larger, linear_field, q, sq, units
from vlib.harness import Law

ASSUMPTIONS = [
    "fields whose lines are known exactly; the tracer of the package, or one without error given as option",
    "curvilinear grids: indices compared with a search on a grid made anew (decided by C12), and by the positions of the indices",
]


def name(field, offset):
    """Documented names in the grid file"""
    if offset == 0.5:
        return field + "_cell_yhigh"
    if offset == -0.5:
        return field + "_cell_ylow"
    s = ("forward_" if offset > 0 else "backward_") + field
    return s + (f"_{abs(offset)}" if abs(offset) > 1 else "")


options = {
    "nslice": st.sampled_from([None, 1, 2, 3]),
    "tracer": st.sampled_from(["exact", "exact", "default", "reversible"]),
    "mxg": st.sampled_from([None, None, 1, 3]),
    "rtol": st.sampled_from([None, None, 1e-9]),
    "boundary": vm.boundary_case,
    "refine": st.sampled_from([None, 2, 3]),
    "n_chunks": st.sampled_from([None, 1, 2, 3]),
}
rect_case = st.fixed_dictionaries({**vm.y_case, **vm.rect_case, **options, "field": vm.lines_case})


def make(case, grid, lines, field):
    from zoidberg import fieldtracer, zoidberg

    if case["boundary"]:
        field.boundary = vm.Band(*case["boundary"])
    kw = {"quiet": True}
    tracer = None
    if case["tracer"] == "exact":
        tracer = kw["field_tracer"] = vm.ExactTracer(lines)
    elif case["tracer"] == "reversible":
        kw["field_tracer"] = fieldtracer.FieldTracerReversible(field, nsteps=40)
    if case["nslice"]:
        kw["nslice"] = case["nslice"]
    if case["mxg"]:
        kw["MXG"] = case["mxg"]
    if case["rtol"]:
        kw["rtol"] = case["rtol"]
    kw["refine_parallel_integral"] = case["refine"] or 2
    if case["n_chunks"]:
        kw["n_chunks"] = case["n_chunks"]
    m = zoidberg.make_maps(grid, field, **kw)
    if tracer is not None:
        assert tracer.rtol == {case["rtol"]}, f"accuracy of the tracing: {tracer.rtol}"
    return m


def tolerance(case):
    return {"exact": 1e-9, "default": 2e-5, "reversible": 2e-3}[case["tracer"]]


def check(case, m, y, Ly, pols, lines, field, index):
    """index(j, R, Z) -> expected indices in slice j, and which of them can be judged"""
    ny = len(y)
    nx, nz = pols[0].nx, pols[0].nz
    ns = case["nslice"] or 1
    tol = tolerance(case)
    per = case["periodic"]
    scale = 10.0
    assert m["MYG"] == ns
    assert m["MXG"] == (case["mxg"] or 2)
    close(np.asarray(m["subcell_weights"]), np.ones(1), 1e-14, "weights")
    for j in range(ny):
        close(m["R"][:, j, :], pols[j].R, 0, "R")
        close(m["Z"][:, j, :], pols[j].Z, 0, "Z")
    labels = set()
    for off in [0.5, -0.5, *range(1, ns + 1), *range(-ns, 0)]:
        for k in ("R", "Z"):
            assert m[name(k, off)].shape == (nx, ny, nz), name(k, off)
        for j in range(ny):
            yt, there = vm.y_at(y, Ly, per, j + off)
            eR, eZ = lines.exact(pols[j].R, pols[j].Z, y[j], yt)
            close(m[name("R", off)][:, j, :], eR, tol, f"{name('R', off)} of slice {j}", scale)
            close(m[name("Z", off)][:, j, :], eZ, tol, f"{name('Z', off)} of slice {j}", scale)
            if abs(off) < 1:
                continue
            xt = m[name("xt_prime", off)][:, j, :]
            zt = m[name("zt_prime", off)][:, j, :]
            for a, b in ((xt, "xt_primes"), (zt, "zt_primes")):
                s = m[name(b, off)]
                assert s.shape == (nx, ny, nz, 1)
                close(s[:, j, :, 0], a, 0, name(b, off))
            if not there:
                labels.add("end of domain")
                close(xt, np.full((nx, nz), -1.0), 0, "x index beyond the end")
                close(zt, np.full((nx, nz), -1.0), 0, "z index beyond the end")
                continue
            out = np.zeros((nx, nz), bool)
            sure = np.ones((nx, nz), bool)
            if case["boundary"]:
                v = field.boundary.value(eR, yt, eZ)
                out = v > 0
                sure = np.abs(v) > 1e-3
                if np.any(out & sure):
                    labels.add("boundary")
            neg = out & sure
            close(xt[neg], np.full(np.sum(neg), -1.0), 0, "x index outside of the boundary")
            close(zt[neg], np.full(np.sum(neg), -1.0), 0, "z index outside of the boundary")
            ok = ~out & sure
            labels |= set(index((j + off) % ny, xt, zt, eR, eZ, ok) or [])
    for k in m:
        assert not ("_cell_y" in k and "t_prime" in k), k
    return sorted(labels)


def rectangular(case):
    """rectangular slices, each with its own size: exact indices; trivial if the lines do not move"""
    from zoidberg.grid import Grid

    field, lines = linear_field(case["field"])
    y, Ly = vm.ycoords(case)
    pols, geo = vm.rect_pols(case, len(y))
    grid = Grid(pols, y, Ly, yperiodic=case["periodic"])
    m = make(case, grid, lines, field)
    tol = tolerance(case)

    def index(j, xt, zt, R, Z, ok):
        x0, dx, z0, dz = geo[j]
        close(xt[ok], ((R - x0) / dx)[ok], tol * 200, "x index", 10)
        close(zt[ok], ((Z - z0) / dz)[ok], tol * 200, "z index", 10)

    labels = check(case, m, y, Ly, pols, lines, field, index)
    moves = any(case["field"][k][i] for k in "Muw" for i in range(2))
    return labels + ([] if moves else ["trivial"])


curved_case = st.fixed_dictionaries(
    {
        **vm.y_case,
        **options,
        "grids": st.lists(vm.small_annulus, min_size=1, max_size=4),
        "swirl": st.tuples(sq(0.6, 6), sq(0.15, 3)).map(list),
    }
)


def curved(case):
    """curvilinear slices, each with its own shape; trivial if the lines do not move"""
    from zoidberg.grid import Grid
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    spec = case["grids"][0]
    field, lines = linear_field(vm.swirl(case["swirl"], spec["R0"], spec["Z0"]))
    y, Ly = vm.ycoords(case)
    pols = vm.annulus_pols(case["grids"], len(y))
    fresh = [StructuredPoloidalGrid(p.R.copy(), p.Z.copy()) for p in pols]
    grid = Grid(pols, y, Ly, yperiodic=case["periodic"])
    m = make(case, grid, lines, field)
    tol = tolerance(case)
    nx, nz = pols[0].nx, pols[0].nz

    def index(j, xt, zt, R, Z, ok):
        if case["tracer"] == "exact":
            ex, ez = fresh[j].findIndex(R, Z)
            ins = ok & (ex > 0.5) & (ex < nx - 1.5)
            close(xt[ins], ex[ins], 1e-5, "x index", 10)
            close(np.remainder(zt - ez + nz / 2, nz)[ins], np.full(np.sum(ins), nz / 2), 1e-5, "z index", 14)
        inside = ok & (xt >= 0) & (xt <= nx - 1)
        if np.any(inside):
            r, z = fresh[j].getCoordinate(xt[inside], zt[inside])
            close(r, R[inside], max(tol, 1e-6) * 10, "R of the index", 10)
            close(z, Z[inside], max(tol, 1e-6) * 10, "Z of the index", 10)
        # Inside of the row next to the end of the grid
        rho = np.hypot(R - spec["R0"], Z - spec["Z0"])
        lost = ok & ~inside
        out = np.hypot(fresh[j].R[-1] - spec["R0"], fresh[j].Z[-1] - spec["Z0"])
        inn = np.hypot(fresh[j].R[0] - spec["R0"], fresh[j].Z[0] - spec["Z0"])
        far = ok & (rho > out.max() + 1e-3)
        assert np.all(xt[far] >= nx - 1), "index of a position outside of the outer end"
        deep = ok & (rho < inn.min() - 1e-3)
        assert np.all(xt[deep] <= 0), "index of a position inside of the inner end"
        return ["lost"] if np.any(lost) else []

    labels = check(case, m, y, Ly, pols, lines, field, index)
    return labels + ([] if any(case["swirl"]) else ["trivial"])


identity_case = st.fixed_dictionaries(
    {
        **vm.y_case,
        **vm.rect_case,
        "nslice": st.sampled_from([1, 2, 3]),
        "By": q(0.5, 2.0, 6),
        "annulus": vm.small_annulus,
        "curved": st.booleans(),
    }
)


def identity(case):
    """straight lines: every cell is mapped to the same cell of the other slices, and forward and backward maps undo each other"""
    from zoidberg import field, zoidberg
    from zoidberg.grid import Grid

    y, Ly = vm.ycoords(case)
    ny = len(y)
    if case["curved"]:
        pols = vm.annulus_pols([case["annulus"]], ny)
    else:
        pols, _ = vm.rect_pols({**case, "rects": case["rects"][:1]}, ny)
    grid = Grid(pols[0], y, Ly, yperiodic=case["periodic"])
    f = field.Slab(By=case["By"], Bz=0.0, Bzprime=0.0)
    ns = case["nslice"]
    m = zoidberg.make_maps(grid, f, nslice=ns, quiet=True, refine_parallel_integral=1)
    nx, nz = pols[0].nx, pols[0].nz
    i, _, k = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    for off in [*range(1, ns + 1), *range(-ns, 0)]:
        there = np.array([vm.y_at(y, Ly, case["periodic"], j + off)[1] for j in range(ny)])
        # Positions on the ends of a curvilinear grid may be inside or outside
        s = slice(1, -1) if case["curved"] else slice(None)
        got = m[name("xt_prime", off)][s, there, :]
        close(got, 1.0 * i[s, there, :], 1e-6, "x index", 10)
        close(
            np.remainder(m[name("zt_prime", off)] - k + nz / 2, nz)[s, there, :],
            np.full(got.shape, nz / 2),
            1e-6,
            "z index",
            10,
        )
        assert np.all(m[name("xt_prime", off)][:, ~there, :] == -1)
    return []


LAWS = [
    Law("rectangular", rect_case, rectangular, 200),
    Law("curved", curved_case, curved, 120),
    Law("identity", identity_case, identity, 60),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(rect_case, **vm.big_case),
        rectangular,
        8,
        200,
        "as rectangular, with more cells and slices",
    ),
    Law(
        "large curved",
        larger(
            curved_case,
            grids=st.lists(vm.big_annulus, min_size=1, max_size=3),
            steps=st.lists(q(0.2, 0.6, 8), min_size=1, max_size=6),
        ),
        curved,
        5,
        100,
        "as curved, with more cells and slices",
    ),
]

unit_case = st.fixed_dictionaries(
    {
        **vm.y_case,
        **vm.rect_case,
        "field": vm.lines_case,
        "boundary": vm.boundary_case,
        "nslice": st.integers(1, 3),
        "unit": units,
    }
)


def scaled(case):
    """the same rectangular slices and field in other units: the same indices, and positions times the factor; trivial if the lines do not move"""
    from zoidberg import zoidberg
    from zoidberg.grid import Grid

    u = case["unit"]
    field, lines = linear_field(case["field"])
    other, tracer = vm.in_units(field, lines, u)
    y, Ly = vm.ycoords(case)
    got = []
    for s, f, t in ((1.0, field, vm.ExactTracer(lines)), (u, other, tracer)):
        rects = [{k: s * r[k] for k in r} for r in case["rects"]]
        pols, _ = vm.rect_pols({**case, "rects": rects}, len(y))
        if case["boundary"]:
            a, b, c, d = case["boundary"]
            f.boundary = vm.Band(a, b, s * c, s * d)
        grid = Grid(pols, y, Ly, yperiodic=case["periodic"])
        got.append(
            zoidberg.make_maps(
                grid, f, nslice=case["nslice"], field_tracer=t, quiet=True, refine_parallel_integral=2
            )
        )
    m, n = got
    assert set(m) == set(n), set(m) ^ set(n)
    for k in m:
        if "t_prime" in k:
            close(n[k], m[k], 1e-8, f"{k}, in units of {u}", 10)
        elif k.split("_")[0] in ("R", "Z") or k.split("_")[-1] in ("R", "Z") or "_R_" in k or "_Z_" in k:
            close(np.asarray(n[k]) / u, np.asarray(m[k]), 1e-9, f"{k}, in units of {u}", 10)
    moves = any(case["field"][k][i] for k in "Muw" for i in range(2))
    return [] if moves else ["trivial"]


LAWS += [Law("scaled", unit_case, scaled, 60, 1000)]
