"""C08  Equilibria from g-files"""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import poly
from vlib.gen import close, larger, nz, q, sq
from vlib.gfile import write_g
from vlib.harness import Law

ASSUMPTIONS = [
    "flux which is a cubic polynomial of R and Z, profiles which are cubic polynomials of the normalised flux: spline interpolation of these is exact",
    "profiles are compared at the nodes of the file, where the normalised flux is known exactly",
    "numbers in the file have 10 digits",
]

case_st = st.fixed_dictionaries(
    {
        "nw": st.integers(5, 17),
        "nh": st.integers(5, 17),
        "rleft": q(0.5, 2.0, 12),
        "rdim": q(0.5, 2.0, 12),
        "zmid": sq(1.0, 8),
        "zdim": q(0.5, 3.0, 10),
        # psi = sum c_ij r^i z^j with r, z in [-1,1]
        "psi": st.lists(sq(1.0), min_size=16, max_size=16),
        "axis": st.tuples(sq(0.3, 8), sq(0.3, 8)).map(list),
        "dpsi": nz(0.5, 2.0, 12),
        "fpol": st.lists(sq(1.0), min_size=4, max_size=4),
        "pres": st.lists(sq(1000.0), min_size=4, max_size=4),
        # star shaped boundaries: radii relative to the size of the box
        "bdry": st.lists(q(0.3, 0.9, 12), min_size=4, max_size=12),
        "lim": st.one_of(st.just([]), st.lists(q(0.3, 1.2, 12), min_size=3, max_size=8)),
        "scalar": st.booleans(),
        "seed": st.integers(0, 999),
    }
)


def star(case, radii):
    th = np.arange(len(radii)) * 2 * np.pi / len(radii) + 0.1
    r = np.array(radii)
    return [
        (float("%.9E" % a), float("%.9E" % b))
        for a, b in zip(
            case["rleft"] + case["rdim"] / 2 * (1 + r * np.cos(th)),
            case["zmid"] + case["zdim"] / 2 * r * np.sin(th),
        )
    ]


def make(case, fn):
    from zoidberg import field

    nw, nh = case["nw"], case["nh"]
    rc, hr = case["rleft"] + case["rdim"] / 2, case["rdim"] / 2
    zc, hz = case["zmid"], case["zdim"] / 2
    c = np.array(case["psi"]).reshape(4, 4)

    def psi(R, Z, dr=0, dz=0):
        P = np.polynomial.polynomial
        a, b = (R - rc) / hr, (Z - zc) / hz
        cc = c
        if dr:
            cc = P.polyder(cc, axis=0) / hr
        if dz:
            cc = P.polyder(cc, axis=1) / hz
        return P.polyval2d(a, b, cc)

    R1 = case["rleft"] + case["rdim"] * np.arange(nw) / (nw - 1)
    Z1 = case["zmid"] + case["zdim"] * (np.arange(nh) / (nh - 1) - 0.5)
    R2, Z2 = np.meshgrid(R1, Z1, indexing="ij")
    axis = (rc + hr * case["axis"][0], zc + hz * case["axis"][1])
    psi_axis = float(psi(np.array(axis[0]), np.array(axis[1])))
    psi_bndry = psi_axis + case["dpsi"]
    s = np.arange(nw) / (nw - 1)
    f0 = np.array([3.0, 0, 0, 0]) + np.array(case["fpol"]) * 0.3
    fpol = np.polynomial.polynomial.polyval(s, f0)
    pres = np.polynomial.polynomial.polyval(s, case["pres"])
    bdry, lim = star(case, case["bdry"]), star(case, case["lim"])
    write_g(
        fn,
        psi(R2, Z2),
        case["rleft"],
        case["rdim"],
        case["zmid"],
        case["zdim"],
        axis,
        psi_axis,
        psi_bndry,
        fpol,
        pres,
        bdry,
        lim,
    )
    return field.GEQDSK(fn), psi, (R1, Z1, R2, Z2), (psi_axis, psi_bndry), f0, bdry, lim


def equilibrium(case):
    """flux, field, pressure and limiter of a generated g-file with different numbers of points in R and Z; trivial if the flux is constant"""
    from zoidberg import field

    with tempfile.TemporaryDirectory(dir=".") as d:
        f, psi, (R1, Z1, R2, Z2), (pa, pb), f0, bdry, lim = make(case, os.path.join(d, "g.file"))
    rng = np.random.RandomState(case["seed"])
    n = 12
    R = R1[0] + (R1[-1] - R1[0]) * rng.rand(n)
    Z = Z1[0] + (Z1[-1] - Z1[0]) * rng.rand(n)
    phi = rng.rand() * 6
    scale = 1 + np.abs(np.array(case["psi"])).sum()
    dx = min(R1[1] - R1[0], Z1[1] - Z1[0])
    tol = 2e-8 * scale
    close(f.attributes["psi"](R, Z, phi), psi(R, Z), tol, "psi")
    eBx = -psi(R, Z, dz=1) / R
    eBz = psi(R, Z, dr=1) / R
    close(f.Bxfunc(R, Z, phi), eBx, tol / dx / 0.5, "Bx")
    close(f.Bzfunc(R, Z, phi), eBz, tol / dx / 0.5, "Bz")
    close(f.Rfunc(R, Z, phi), R, 0, "R")
    # At the nodes the normalised flux is known
    val = np.polynomial.polynomial.polyval
    inside = np.zeros(R2.shape, dtype=bool)
    sure = np.ones(R2.shape, dtype=bool)
    for i in range(R2.shape[0]):
        for j in range(R2.shape[1]):
            c = poly.contains(bdry, R2[i, j], Z2[i, j])
            inside[i, j] = bool(c)
            if c is None or poly.distance(bdry, R2[i, j], Z2[i, j]) < 1e-6:
                sure[i, j] = False
    s = np.where(inside, (psi(R2, Z2) - pa) / (pb - pa), 1.0)
    s = np.clip(s, 0, 1)
    By = f.Byfunc(R2, Z2, phi)
    P = f.pressure(R2, Z2, phi)
    assert By.shape == R2.shape and P.shape == R2.shape
    if np.all(sure):
        close(By, val(s, f0) / R2, 1e-5 * scale, "By")
        close(P, val(s, np.array(case["pres"])), 1e-5 * scale, "pressure", 3000.0)
        if case["scalar"]:
            i, j = case["seed"] % R2.shape[0], case["seed"] % R2.shape[1]
            close(np.asarray(f.Byfunc(R2[i, j], Z2[i, j], phi)), By[i, j], 1e-9, "By at a single point", 10)
            close(
                np.asarray(f.pressure(R2[i, j], Z2[i, j], phi)),
                P[i, j],
                1e-9,
                "pressure at a single point",
                3000.0,
            )
    # Limiter
    out = f.boundary.outside(R, phi, Z)
    if lim:
        for k in range(n):
            c = poly.contains(lim, R[k], Z[k])
            if c is None or poly.distance(lim, R[k], Z[k]) < 1e-7:
                continue
            assert bool(out[k]) == (not c), f"limiter: ({R[k]}, {Z[k]}) outside={out[k]}"
    else:
        assert not np.any(out), "outside of a limiter which does not exist"
    # Other fields are not affected
    assert field.MagneticField.attributes == {} and field.Slab().attributes == {}
    triv = np.all(np.array(case["psi"])[1:] == 0)
    return ["limiter" if lim else "no limiter", "all nodes" if np.all(sure) else "skipped nodes"] + (
        ["trivial"] if triv else []
    )


def two(case):
    """two equilibria in one process stay independent of each other"""
    with tempfile.TemporaryDirectory(dir=".") as d:
        a, psia, _, _, _, _, _ = make(case["a"], os.path.join(d, "a"))
        R = np.array([case["a"]["rleft"] + 0.4 * case["a"]["rdim"]])
        Z = np.array([case["a"]["zmid"]])
        before = [g(R, Z, 0.0) for g in (a.Bxfunc, a.Byfunc, a.Bzfunc, a.pressure)]
        before.append(a.boundary.outside(R, 0.0, Z))
        make(case["b"], os.path.join(d, "b"))
    after = [g(R, Z, 0.0) for g in (a.Bxfunc, a.Byfunc, a.Bzfunc, a.pressure)]
    after.append(a.boundary.outside(R, 0.0, Z))
    for x, y in zip(before, after):
        assert np.array_equal(x, y)
    close(a.attributes["psi"](R, Z, 0.0), psia(R, Z), 1e-6, "psi")
    return ["two"]


LAWS = [
    Law("equilibrium", case_st, equilibrium, 320, 6000),
    Law("two", st.fixed_dictionaries({"a": case_st, "b": case_st}), two, 24, 200),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            case_st,
            nw=st.integers(33, 80),
            nh=st.integers(33, 80),
            bdry=st.lists(q(0.3, 0.9, 12), min_size=20, max_size=40),
        ),
        equilibrium,
        8,
        200,
        "as equilibrium, with many points",
    ),
]
