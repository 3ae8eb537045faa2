"""C06  The built-in analytic fields are the fields they document"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, larger, nz, q, sq
from vlib.harness import Law

ASSUMPTIONS = [
    "positions at least 5% of the coil radius away from the coils",
    "the vector potential of Screwpinch is not part of the property",
]

pts = {
    "n": st.integers(1, 5),
    "two_d": st.booleans(),
    "seed": st.integers(0, 9999),
    "phi": sq(8.0, 64),
    # a scalar angle, or one for each point
    "phi_array": st.booleans(),
}


def points(case, x0, x1, z0, z1):
    rng = np.random.RandomState(case["seed"])
    shape = (case["n"], 3) if case["two_d"] else (case["n"],)
    x = x0 + (x1 - x0) * rng.rand(*shape)
    z = z0 + (z1 - z0) * rng.rand(*shape)
    phi = case["phi"]
    if case["phi_array"]:
        phi = phi + rng.rand(*shape)
    return x, z, phi


slab_case = st.fixed_dictionaries(
    {
        **pts,
        "curved": st.booleans(),
        "By": nz(0.25, 3.0),
        "Bz": sq(2.0),
        "xcentre": sq(3.0),
        "Bzprime": sq(2.0),
        "Rmaj": q(0.5, 5.0),
        "given": st.lists(
            st.sampled_from(["By", "Bz", "xcentre", "Bzprime", "Rmaj"]), max_size=5, unique=True
        ),
    }
)


def slab(case):
    """Slab and CurvedSlab with any subset of their parameters given; trivial if Bz is the same everywhere"""
    from zoidberg import field

    default = {"By": 1.0, "Bz": 0.1, "xcentre": 0.0, "Bzprime": 1.0, "Rmaj": 1.0}
    given = {k: case[k] for k in case["given"]}
    if not case["curved"]:
        given.pop("Rmaj", None)
    p = {**default, **given}
    f = (field.CurvedSlab if case["curved"] else field.Slab)(**given)
    x, z, phi = points(case, -3.0, 3.0, -3.0, 3.0)
    close(f.Bxfunc(x, z, phi), 0 * x, 0, "Bx")
    close(f.Byfunc(x, z, phi), 0 * x + p["By"], 1e-14, "By", 5)
    close(f.Bzfunc(x, z, phi), p["Bz"] + (x - p["xcentre"]) * p["Bzprime"], 1e-12, "Bz", 20)
    R = f.Rfunc(x, z, phi)
    if case["curved"]:
        close(R, 0 * x + p["Rmaj"], 1e-14, "R", 5)
    else:
        assert R is None, "Slab has a major radius"
    return ["curved" if case["curved"] else "straight"] + (["trivial"] if p["Bzprime"] == 0 else [])


stell_case = st.fixed_dictionaries(
    {
        **pts,
        "toroidal": st.booleans(),
        "xcentre": sq(3.0, 12),
        "zcentre": sq(2.0, 8),
        "radius": q(0.3, 2.0, 17),
        "yperiod": q(0.5, 7.0, 26),
        "I_coil": nz(0.01, 0.5, 7),
        "Btor": nz(0.25, 3.0, 11),
        "defaults": st.booleans(),
        "turns": st.integers(-2, 3),
    }
)


def stellarator(case):
    """four rotating line currents of alternating sign: B = curl A, periodic in yperiod; trivial never"""
    from zoidberg import field

    kw = {k: case[k] for k in ("xcentre", "zcentre", "radius", "yperiod", "I_coil")}
    if case["defaults"]:
        kw = {"xcentre": case["xcentre"]}
    tor = case["toroidal"]
    if tor:
        # Away from the axis of the torus
        kw["xcentre"] = 6.0 + case["xcentre"]
        if not case["defaults"]:
            kw["Btor"] = case["Btor"]
    f = (field.RotatingEllipse if tor else field.StraightStellarator)(**kw)
    p = {"xcentre": 0.0, "zcentre": 0.0, "radius": 0.8, "yperiod": np.pi, "I_coil": 0.05, "Btor": 1.0, **kw}
    r = p["radius"]
    x, z, phi = points(
        case, p["xcentre"] - 1.5 * r, p["xcentre"] + 1.5 * r, p["zcentre"] - 1.5 * r, p["zcentre"] + 1.5 * r
    )
    A = Bx = Bz = 0.0
    dist = np.inf
    for i in range(4):
        ang = 2 * np.pi * phi / p["yperiod"] + i * np.pi / 2
        dx = x - (p["xcentre"] + r * np.cos(ang))
        dz = z - (p["zcentre"] + r * np.sin(ang))
        r2 = dx**2 + dz**2
        dist = np.minimum(dist, np.sqrt(r2))
        I = p["I_coil"] * (-1) ** i  # noqa
        A = A - 0.1 * I * np.log(r2)
        Bx = Bx + 0.2 * I * dz / r2
        Bz = Bz - 0.2 * I * dx / r2
    good = dist > 0.05 * r
    labels = ["toroidal" if tor else "straight"]
    if not np.any(good):
        return ["trivial"]
    x, z = x[good], z[good]
    A, Bx, Bz = A[good], Bx[good], Bz[good]
    if case["phi_array"]:
        phi = phi[good]
    scale = 1 + np.max(np.abs(Bx)) + np.max(np.abs(Bz))
    tol = 1e-9
    close(f.Bxfunc(x, z, phi), Bx, tol, "Bx", scale)
    close(f.Bzfunc(x, z, phi), Bz, tol, "Bz", scale)
    close(f.Afunc(x, z, phi), A, tol, "vector potential", 1 + np.max(np.abs(A)))
    close(f.Byfunc(x, z, phi), p["Btor"] / x if tor else np.ones(x.shape), 1e-12, "By", 5)
    R = f.Rfunc(x, z, phi)
    if tor:
        close(R, x, 1e-14, "R", 10)
    else:
        assert R is None
    close(f.Bxfunc(x, z, phi + case["turns"] * p["yperiod"]), Bx, tol, "Bx one period on", scale * 10)
    close(f.Bzfunc(x, z, phi + case["turns"] * p["yperiod"]), Bz, tol, "Bz one period on", scale * 10)
    mag = np.sqrt(Bx**2 + Bz**2 + f.Byfunc(x, z, phi) ** 2)
    close(f.Bmag(x, z, phi), mag, tol, "Bmag", scale)
    return labels


screw_case = st.fixed_dictionaries(
    {
        **pts,
        "xcentre": q(1.0, 4.0),
        "zcentre": sq(2.0),
        "shear": sq(1.0),
        "Btor": nz(0.25, 3.0),
    }
)


def screwpinch(case):
    """circular field lines about the centre, strength proportional to the square of the radius; trivial without shear"""
    from zoidberg import field

    kw = {k: case[k] for k in ("xcentre", "zcentre", "shear", "Btor")}
    f = field.Screwpinch(**kw)
    x, z, phi = points(
        case,
        case["xcentre"] - 0.8,
        case["xcentre"] + 0.8,
        case["zcentre"] - 1.0,
        case["zcentre"] + 1.0,
    )
    dx, dz = x - case["xcentre"], z - case["zcentre"]
    r = np.hypot(dx, dz)
    Bx, Bz, By = f.Bxfunc(x, z, phi), f.Bzfunc(x, z, phi), f.Byfunc(x, z, phi)
    # np.broadcast: lambdified constants are scalars
    close(np.broadcast_to(Bx, x.shape), -case["shear"] * r * dz, 1e-10, "Bx", 3)
    close(np.broadcast_to(Bz, x.shape), case["shear"] * r * dx, 1e-10, "Bz", 3)
    close(By, case["Btor"] / x, 1e-12, "By", 20)
    close(f.Rfunc(x, z, phi), x, 0, "R")
    return ["trivial"] if case["shear"] == 0 else ["sheared"]


def independent(case):
    """two fields of the same kind do not share state: using one does not change the other"""
    from zoidberg import field

    kind = getattr(field, case["kind"])
    x, z, phi = points(case, 1.0, 2.0, -0.5, 0.5)
    names = ["Bxfunc", "Byfunc", "Bzfunc"]
    pa = {"Slab": {"Bz": case["a"]}, "CurvedSlab": {"Bz": case["a"], "Rmaj": 3.0}}.get(
        case["kind"], {"xcentre": 5.0 + case["a"]}
    )
    pb = {"Slab": {"Bz": case["b"]}, "CurvedSlab": {"Bz": case["b"], "Rmaj": 4.0}}.get(
        case["kind"], {"xcentre": 5.0 + case["b"]}
    )
    fa = kind(**pa)
    alone = [np.array(getattr(fa, n)(x, z, phi)) for n in names]
    attrs = dict(fa.attributes)
    fb = kind(**pb)
    for n in names:
        getattr(fb, n)(x, z, phi)
    fb.boundary = None
    for n, v in zip(names, alone):
        close(getattr(fa, n)(x, z, phi), v, 0, n)
    assert fa.boundary is not None
    assert dict(fa.attributes) == attrs and attrs == {}
    return [case["kind"]] + (["trivial"] if case["a"] == case["b"] else [])


LAWS = [
    Law("slab", slab_case, slab, 600, 8000),
    Law("stellarator", stell_case, stellarator, 320, 6000),
    Law("screwpinch", screw_case, screwpinch, 160, 3000),
    Law(
        "independent",
        st.fixed_dictionaries(
            {
                **pts,
                "kind": st.sampled_from(
                    ["Slab", "CurvedSlab", "StraightStellarator", "RotatingEllipse", "Screwpinch"]
                ),
                "a": sq(1.0),
                "b": sq(1.0),
            }
        ),
        independent,
        60,
        600,
    ),
]

# Sizes far above those of the other laws
LAWS += [
    Law("large slab", larger(slab_case, n=st.integers(20, 400)), slab, 30, 400, "as slab, with many points"),
    Law(
        "large stellarator",
        larger(stell_case, n=st.integers(20, 200)),
        stellarator,
        12,
        200,
        "as stellarator, with many points",
    ),
    Law(
        "large screwpinch",
        larger(screw_case, n=st.integers(20, 200)),
        screwpinch,
        12,
        200,
        "as screwpinch, with many points",
    ),
]
