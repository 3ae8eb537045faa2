"""C27  Finite-volume coefficients of the perpendicular Laplacian"""

import os

import numpy as np
from hypothesis import strategies as st

from vlib import annulus, files
from vlib import maps as vm
from vlib.gen import close, larger, q, sq, units
from vlib.harness import Law

ASSUMPTIONS = [
    "the coefficients are used as documented: the flux through the face at higher x (z) is the first coefficient times the difference of the function in x, plus the second times that in z, averaged to the face",
    "a grid which is traversed clockwise has negative coefficients and volumes, so that their ratio is the Laplacian",
]


def apply(c, f):
    """Fluxes through the faces at higher x and at higher z, and their sum"""
    dx = f[1:] - f[:-1]
    dz = np.roll(f, -1, -1) - np.roll(f, 1, -1)
    dz = 0.5 * (dz[1:] + dz[:-1])
    fx = c["dagp_fv_XX"][:-1] * dx + c["dagp_fv_XZ"][:-1] * dz
    dx2 = f[2:] - f[:-2]
    dx2 = 0.5 * (np.roll(dx2, -1, -1) + dx2)
    dz2 = (np.roll(f, -1, -1) - f)[1:-1]
    # Differences in x are over two cells
    fz = c["dagp_fv_ZX"][1:-1] * dx2 + c["dagp_fv_ZZ"][1:-1] * dz2
    div = fx[1:] - fx[:-1] + fz - np.roll(fz, 1, -1)
    return fx, fz, div


def compute(pols, slab):
    from zoidberg.stencil_dagp_fv import doit

    c = doit(pols, isSlab=slab)
    nx, nz = pols[0].nx, pols[0].nz
    names = {"dagp_fv_" + k for k in ("XX", "XZ", "ZX", "ZZ", "volume")}
    assert set(c) == names, f"got {set(c)}"
    for k, v in c.items():
        assert v.shape == (nx, len(pols), nz), f"shape of {k}"
        assert np.all(np.isfinite(v)), f"{k} is not finite"
    for k in ("ZX", "ZZ", "volume"):
        v = c["dagp_fv_" + k]
        assert np.all(v[0] == 0) and np.all(v[-1] == 0), f"{k} at the ends in x"
    for k in ("XX", "XZ"):
        assert np.all(c["dagp_fv_" + k][-1] == 0), f"{k} at the end in x"
    return c


def normals(pos, slab):
    """Integral of the normal (to the right of the path) along the paths in the last axis, and of the area"""
    R, Z = pos
    dR, dZ = np.diff(R, axis=-1), np.diff(Z, axis=-1)
    w = 1.0 if slab else 0.5 * (R[..., 1:] + R[..., :-1])
    return np.sum(w * dZ, axis=-1), np.sum(-w * dR, axis=-1)


def moment(pos, slab):
    """Integral of -R dZ (or R^2/2) along the paths"""
    R, Z = pos
    m = 0.5 * (R[..., 1:] + R[..., :-1])
    dZ = np.diff(Z, axis=-1)
    if slab:
        return np.sum(m * dZ, axis=-1)
    # Integral of R^2/2 along straight pieces
    sq_ = (R[..., 1:] ** 2 + R[..., 1:] * R[..., :-1] + R[..., :-1] ** 2) / 6
    return np.sum(sq_ * dZ, axis=-1)


base = {
    "curved": st.sampled_from([True, True, False]),
    "slab": st.booleans(),
    "grids": st.lists(annulus.case, min_size=1, max_size=3),
    "nx": st.integers(5, 8),
    "nz": st.integers(3, 7),
    "rects": st.lists(
        st.fixed_dictionaries(
            {"Lx": q(0.2, 0.5, 6), "Lz": q(0.25, 2.0, 6), "Rc": q(2.0, 3.0, 8), "Zc": sq(1.0, 4)}
        ),
        min_size=1,
        max_size=3,
    ),
}


def pols_of(case):
    if case["curved"]:
        return vm.annulus_pols(case["grids"], len(case["grids"]))
    # Same size in z for all, as they are periodic with it
    rects = [{**r, "Lz": case["rects"][0]["Lz"]} for r in case["rects"]]
    return vm.rect_pols({**case, "rects": rects}, len(rects))[0]


def faces(case):
    """linear functions: the flux through each face is the gradient times the face, and the volume that of the cell; trivial never"""
    pols = pols_of(case)
    slab = case["slab"]
    c = compute(pols, slab)
    m = 241
    s = np.linspace(0, 1, m)
    for j, g in enumerate(pols):
        nx, nz = g.nx, g.nz
        cj = {k: v[:, j] for k, v in c.items()}
        i, k, t = np.meshgrid(np.arange(nx - 1) + 0.5, np.arange(nz) - 0.5, s, indexing="ij")
        px = g.getCoordinate(i, k + t)
        i, k, t = np.meshgrid(np.arange(nx - 2) + 0.5, np.arange(nz) + 0.5, s, indexing="ij")
        pz = g.getCoordinate(i + t, k)
        nxR, nxZ = normals(px, slab)
        nzR, nzZ = normals(pz, slab)
        nzR, nzZ = -nzR, -nzZ
        size = np.hypot(nxR, nxZ).max() + np.hypot(nzR, nzZ).max()
        # Faces are short pieces of lines
        tol = 1e-9 if slab or not case["curved"] else 3e-3
        for a, b in ((1.0, 0.0), (0.0, 1.0), (0.7, -1.3)):
            f = a * g.R + b * g.Z
            if case["curved"]:
                fx, fz, div = apply(cj, f)
            else:
                # Continue the linear function over the periodic end, by its gradient
                e = np.concatenate([f[:, -1:] - b * g.Lz, f, f[:, :1] + b * g.Lz], axis=1)
                cc = {kk: np.concatenate([v[:, -1:], v, v[:, :1]], axis=1) for kk, v in cj.items()}
                fx, fz, _ = apply(cc, e)
                fx, fz = fx[:, 1:-1], fz[:, 1:-1]
            close(fx, a * nxR + b * nxZ, tol, "flux through faces in x", size)
            close(fz, a * nzR + b * nzZ, tol, "flux through faces in z", size)
        # Volume: around the cell, from the paths
        mx, mz = moment(px, slab), moment(pz, slab)
        vol = mx[1:] - mx[:-1] - (mz - np.roll(mz, 1, -1))
        if not case["curved"]:
            vol = mx[1:] - mx[:-1]
        close(cj["dagp_fv_volume"][1:-1], vol, 3e-3, "volume", np.max(np.abs(vol)))
        assert np.all(vol > 0) or np.all(vol < 0)
    return ["curved" if case["curved"] else "rectangular", "slab" if slab else "torus"]


rect_case = st.fixed_dictionaries({**base, "curved": st.just(False)})


def rectangular(case):
    """rectangular grids: all coefficients in closed form"""
    pols = pols_of(case)
    c = compute(pols, case["slab"])
    for j, g in enumerate(pols):
        dx, dz = g.R[1, 0] - g.R[0, 0], g.Lz / g.nz
        Rc = g.R[1:-1] if not case["slab"] else 1.0 + 0 * g.R[1:-1]
        Rf = 0.5 * (g.R[1:] + g.R[:-1]) if not case["slab"] else 1.0 + 0 * g.R[1:]
        close(c["dagp_fv_XX"][:-1, j], dz / dx * Rf, 1e-8, "XX", 30 * dz / dx)
        close(c["dagp_fv_XZ"][:-1, j], 0 * Rf, 1e-8, "XZ", 30 * dx / dz)
        close(c["dagp_fv_ZX"][1:-1, j], 0 * Rc, 1e-8, "ZX", 30 * dz / dx)
        close(c["dagp_fv_ZZ"][1:-1, j], dx / dz * Rc, 1e-8, "ZZ", 30 * dx / dz)
        close(c["dagp_fv_volume"][1:-1, j], dx * dz * Rc, 1e-8, "volume", 4 * dx * dz)
    return []


laplace_case = st.fixed_dictionaries(
    {
        "grid": annulus.case,
        "slab": st.booleans(),
        "f": st.tuples(sq(1.0, 4), sq(1.0, 4), q(0, 3, 6)).map(list),
    }
)


def laplace(case):
    """smooth functions: converges to the analytic Laplacian with second order; trivial for constant functions"""
    a, b, p = case["f"]
    a, b = 2 * a, 2 * b
    err = []
    for n in (1, 2):
        spec = {**case["grid"], "nx": 8 * n + 1, "nz": 32 * n}
        (g,) = vm.annulus_pols([spec], 1)
        c = {k: v[:, 0] for k, v in compute([g], case["slab"]).items()}
        ph = a * g.R + b * g.Z + p
        f = np.sin(ph)
        lap = -(a * a + b * b) * np.sin(ph)
        if not case["slab"]:
            lap = lap + a * np.cos(ph) / g.R
        div = apply(c, f)[2] / c["dagp_fv_volume"][1:-1]
        # Same part of the domain, away from the ends
        err.append(np.sqrt(np.mean((div - lap[1:-1])[n : -n or None] ** 2)))
    size = a * a + b * b + abs(a)
    if size == 0:
        assert err[0] < 1e-9
        return ["trivial"]
    assert err[1] < 0.6 * err[0] + 1e-6 * size, f"error does not decrease: {err}"
    assert err[0] < 0.35 * size, f"error {err}"
    return []


file_case = st.fixed_dictionaries({**files.case, "slab": st.booleans()})


def in_file(case):
    """the coefficients in the grid file are those of each slice on its own, and can be loaded again"""
    from zoidberg import field as zfield
    from zoidberg import stencil_dagp_fv, zoidberg

    if not case["curved"]:
        case = {**case, "rects": case["rects"][:1]}
    grid, field, lines = files.setup(case)
    if case["slab"]:
        field = zfield.Slab(By=1.0, Bz=0.1, Bzprime=0.0)
    with zoidberg.MapWriter("d.nc", quiet=True) as mw:
        mw.add_grid_field(grid, field)
        mw.add_dagp()
    v, d, _ = files.read("d.nc")
    RZ, volume, cX, cZ = stencil_dagp_fv.load("d.nc")
    os.remove("d.nc")
    for j, pol in enumerate(grid.poloidal_grids):
        c = compute([pol], case["slab"])
        for k, x in c.items():
            assert d[k] == ("x", "y", "z"), f"dimensions of {k}"
            close(v[k][:, j], x[:, 0], 1e-12, k, max(1.0, np.max(np.abs(x))))
        close(RZ[:, :, j], np.array([pol.R, pol.Z]), 1e-12, "positions", 5)
        close(volume[:, j], c["dagp_fv_volume"][:, 0], 1e-12, "volume", 1)
        for i, n in enumerate("XZ"):
            close(cX[:, j, :, i], c["dagp_fv_X" + n][:-1, 0], 1e-12, "X" + n, max(1, np.max(np.abs(cX))))
            close(cZ[:, j, :, i], c["dagp_fv_Z" + n][1:-1, 0], 1e-12, "Z" + n, max(1, np.max(np.abs(cZ))))
    return []


LAWS = [
    Law("faces", st.fixed_dictionaries(base), faces, 500),
    Law("rectangular", rect_case, rectangular, 200),
    Law("laplace", laplace_case, laplace, 200),
    Law("in_file", file_case, in_file, 150),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            base,
            nx=st.integers(9, 40),
            nz=st.integers(9, 60),
            grids=st.lists(
                annulus.case.map(lambda c: {**c, "nx": c["nx"] * 3, "nz": c["nz"] * 3}),
                min_size=4,
                max_size=7,
            ),
        ),
        faces,
        8,
        200,
        "as faces, with more cells and slices",
    ),
    Law(
        "large rectangular",
        larger(rect_case, nx=st.integers(9, 40), nz=st.integers(9, 60)),
        rectangular,
        20,
        300,
        "as rectangular, with more cells",
    ),
]


def scaled(case):
    """the same grids in other units: the coefficients are the same in a slab, and times the factor otherwise; the volume times its square, or cube"""
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    u, slab = case["unit"], case["slab"]
    pols = pols_of(case)
    if case["curved"]:
        other = [StructuredPoloidalGrid(u * g.R, u * g.Z) for g in pols]
    else:
        rects = [{k: u * r[k] for k in r} for r in case["rects"]]
        other = pols_of({**case, "rects": rects})
    a, b = compute(pols, slab), compute(other, slab)
    for k in a:
        f = (u * u if k.endswith("volume") else 1.0) * (1.0 if slab else u)
        close(b[k] / f, a[k], 1e-8, f"{k}, in units of {u}", np.max(np.abs(a[k])))
    return ["curved" if case["curved"] else "rectangular"]


LAWS += [Law("scaled", st.fixed_dictionaries({**base, "unit": units}), scaled, 120, 2000)]
