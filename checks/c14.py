"""C14  Grid generation between an inner and an outer line"""

import numpy as np
from hypothesis import strategies as st

from vlib import curves
from vlib.gen import close, larger, q, raises, snapshot, sq, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "smooth star-shaped lines, the inner one well inside of the outer one",
    "the grid generator solves its equations by iteration until a step changes no position by more than the requested tolerance; it may reject a case with RuntimeError if that is not reached",
]

pair_case = {
    "inner": curves.curve_case(0.15),
    "outer": curves.curve_case(0.15),
    "size": q(0.25, 0.45, 8),
    "shift": st.tuples(sq(0.08, 4), sq(0.08, 4)).map(list),
    "R0": q(1.5, 4.0, 10),
    "n_in": st.integers(24, 70),
    "n_out": st.integers(24, 70),
    "same": st.booleans(),
    "start_in": st.integers(0, 23),
    "start_out": st.integers(0, 23),
    "reverse": st.tuples(st.booleans(), st.booleans()).map(list),
}


def lines(case):
    from zoidberg.rzline import RZline

    out = []
    for which, size, shift in (
        ("inner", case["size"], case["shift"]),
        ("outer", 1.0, (0.0, 0.0)),
    ):
        n = case["n_in"] if case["same"] else case["n_" + which[: 2 if which == "inner" else 3]]
        th = 2 * np.pi * (np.arange(n) + case["start_" + which[: 2 if which == "inner" else 3]]) / n
        if case["reverse"][which == "outer"]:
            th = th[::-1]
        R, Z = curves.points(case[which], th, size=size, centre=(case["R0"] + shift[0], shift[1]))
        out.append(RZline(R, Z))
    return out


def theta_on_line(line, R, Z):
    """theta of points on the line and their distance from it, found independently of zoidberg"""
    t = np.linspace(0, 2 * np.pi, 60 * len(line.R), endpoint=False)
    r, z = np.asarray(line.Rvalue(t)), np.asarray(line.Zvalue(t))
    k = np.argmin((r[:, None] - R) ** 2 + (z[:, None] - Z) ** 2, axis=0)
    th = t[k]
    for _ in range(6):
        dr, dz = line.Rvalue(th, deriv=1), line.Zvalue(th, deriv=1)
        er, ez = R - line.Rvalue(th), Z - line.Zvalue(th)
        th = th + (er * dr + ez * dz) / (dr**2 + dz**2)
    d = np.hypot(R - line.Rvalue(th), Z - line.Zvalue(th))
    return np.remainder(th, 2 * np.pi), d


def closest_on_polygon(line, R, Z):
    A = np.stack([line.R, line.Z], -1)
    d = np.roll(A, -1, axis=0) - A
    p = np.stack([R, Z], -1)[:, None, :]
    t = np.clip(((p - A) * d).sum(-1) / (d**2).sum(-1), 0, 1)
    dist = ((A + t[..., None] * d - p) ** 2).sum(-1)
    k = np.argmin(dist, axis=1)
    return np.remainder((k + t[np.arange(len(k)), k]) * 2 * np.pi / len(A), 2 * np.pi)


annulus_case = st.fixed_dictionaries(
    {**pair_case, "nx": st.integers(2, 12), "nz": st.integers(4, 30), "coords": st.booleans()}
)


def annulus(case):
    """grid of straight radial lines between the same angles of both lines"""
    from zoidberg import poloidal_grid

    inner, outer = lines(case)
    before = snapshot(inner.R, inner.Z, outer.R, outer.Z)
    nx, nz = case["nx"], case["nz"]
    if case["coords"] or nx < 4:
        R, Z = poloidal_grid.grid_annulus(inner, outer, nx, nz, return_coords=True)
    else:
        g = poloidal_grid.grid_annulus(inner, outer, nx, nz)
        assert (g.nx, g.nz) == (nx, nz)
        R, Z = g.R, g.Z
    unchanged(before, inner.R, inner.Z, outer.R, outer.Z)
    th = 2 * np.pi * np.arange(nz) / nz
    x = (np.arange(nx) / (nx - 1))[:, None]
    close(R, x * outer.Rvalue(th) + (1 - x) * inner.Rvalue(th), 1e-10, "R", 5)
    close(Z, x * outer.Zvalue(th) + (1 - x) * inner.Zvalue(th), 1e-10, "Z", 5)
    return []


elliptic_case = st.fixed_dictionaries(
    {
        **pair_case,
        "nx": st.integers(5, 14),
        "nz": st.integers(6, 40),
        "nx_inner": st.sampled_from([0, 1, 2, 3]),
        "nx_outer": st.sampled_from([0, 1, 2, 3]),
        "align": st.booleans(),
        "legacy": st.booleans(),
        "inner_ort": st.booleans(),
        "maxfac": st.sampled_from([None, None, 1.2, 1.5, 3.0]),
        "maxmode": st.sampled_from([None, None, 2, 3]),
        "restrict": st.sampled_from([None, None, 12, 16]),
        "dz_relax": st.sampled_from([None, None, 1.0, 2.0]),
        "coords": st.booleans(),
        "tol": st.sampled_from([None, 1e-8]),
    }
)


def jacobi(R, Z, s):
    """One step of the smoothing: the largest change of the square of the distance"""
    nx, nz = R.shape
    dx = 1.0 / (nx - 1)
    dz = 2 * np.pi / nz

    def d(f):
        fp, fm = np.roll(f, -1, 1), np.roll(f, 1, 1)
        i = slice(1, -1)
        return dict(
            x=(f[2:] - f[:-2]) / (2 * dx),
            z=s * (fp - fm)[i] / (2 * dz),
            xx=(f[2:] - 2 * f[i] + f[:-2]) / dx**2,
            zz=(fp - 2 * f + fm)[i] / dz**2,
            xz=(fp[2:] - fp[:-2] - fm[2:] + fm[:-2]) / (4 * dx * dz),
        )

    r, z = d(R), d(Z)
    a = r["z"] ** 2 + z["z"] ** 2
    b = r["z"] * r["x"] + z["z"] * z["x"]
    c = r["x"] ** 2 + z["x"] ** 2
    diag = 2 * a / dx**2 + 2 * c / dz**2
    cr = (a * r["xx"] - 2 * b * r["xz"] + c * r["zz"]) / diag
    cz = (a * z["xx"] - 2 * b * z["xz"] + c * z["zz"]) / diag
    return np.max(cr**2 + cz**2)


def orientation(R, Z):
    """Cross product of the diagonals of each cell"""
    Rp, Zp = np.roll(R, -1, 1), np.roll(Z, -1, 1)
    return (Rp[1:] - R[:-1]) * (Z[1:] - Zp[:-1]) - (R[1:] - Rp[:-1]) * (Zp[1:] - Z[:-1])


def offset_of(line, R, Z):
    """Offset in theta, in points of the line, of positions at equally spaced theta"""
    n, nz = len(line.R), len(R)
    th = 2 * np.pi * np.arange(nz) / nz
    best = None
    for i in range(n):
        t = th + 2 * np.pi * i / n
        e = np.max(np.hypot(line.Rvalue(t) - R, line.Zvalue(t) - Z))
        if best is None or e < best[0]:
            best = (e, i)
    return best


def elliptic(case):
    """all options of the elliptic generator; trivial if it rejected the case"""
    from zoidberg import poloidal_grid

    inner, outer = lines(case)
    before = snapshot(inner.R, inner.Z, outer.R, outer.Z)
    nz = case["nz"]
    if case["dz_relax"]:
        # Weaker smoothing needs more points
        nz = max(nz, 14)
        if case["restrict"]:
            case = {**case, "restrict": 28}
    ni, no = case["nx_inner"], case["nx_outer"]
    nx = case["nx"] + ni + no
    kw = {}
    for key, arg in (
        ("maxfac", "maxfac_inner"),
        ("maxmode", "inner_maxmode"),
        ("restrict", "restrict_size"),
        ("dz_relax", "dz_relax"),
        ("tol", "tol"),
    ):
        if case[key] is not None:
            kw[arg] = case[key]
    if ni:
        kw["nx_inner"] = ni
    if no:
        kw["nx_outer"] = no
    tol = case["tol"] or 1e-10
    kw.update(align=case["align"], legacy_align=case["legacy"], inner_ort=case["inner_ort"])
    labels = []
    try:
        if case["coords"]:
            R, Z = poloidal_grid.grid_elliptic(inner, outer, nx, nz, return_coords=True, **kw)
        else:
            g = poloidal_grid.grid_elliptic(inner, outer, nx, nz, **kw)
            assert (g.nx, g.nz) == (nx, nz)
            R, Z = g.R, g.Z
    except RuntimeError:
        # Lines which start at different angles are not expected to work
        assert not (case["align"] or case["inner_ort"]), "did not converge"
        return ["rejected", "trivial"]
    unchanged(before, inner.R, inner.Z, outer.R, outer.Z)
    assert R.shape == (nx, nz) and Z.shape == (nx, nz), f"shape {R.shape}"
    lo, hi = ni, nx - 1 - no
    # Added points continue in a straight line with the same distance
    for k in range(1, no + 1):
        close(R[hi + k], R[hi] + k * (R[hi] - R[hi - 1]), 1e-10, "outside", 5)
        close(Z[hi + k], Z[hi] + k * (Z[hi] - Z[hi - 1]), 1e-10, "outside", 5)
    for k in range(1, ni + 1):
        close(R[lo - k], R[lo] + k * (R[lo] - R[lo + 1]), 1e-10, "inside", 5)
        close(Z[lo - k], Z[lo] + k * (Z[lo] - Z[lo + 1]), 1e-10, "inside", 5)
    C, D = R[lo : hi + 1], Z[lo : hi + 1]
    # The interior solves the equations
    res = jacobi(C, D, case["dz_relax"] or 10 / 3)
    assert res <= 4 * tol, f"a further step of the iteration changes positions by {np.sqrt(res)}"
    # The ends are on the lines, once around anticlockwise
    th = 2 * np.pi * np.arange(nz) / nz
    t_in, d = theta_on_line(inner, C[0], D[0])
    assert np.max(d) < 1e-7, f"points {np.max(d)} away from the inner line"
    step = np.remainder(np.roll(t_in, -1) - t_in, 2 * np.pi)
    assert np.all(step > 0) and abs(np.sum(step) - 2 * np.pi) < 1e-6, "inner points are not in order"
    if case["inner_ort"] or not case["align"]:
        close(C[-1], outer.Rvalue(th), 1e-10, "outer R", 5)
        close(D[-1], outer.Zvalue(th), 1e-10, "outer Z", 5)
    if case["inner_ort"]:
        labels.append("inner_ort")
        if case["maxmode"] is None and case["maxfac"]:
            ratio = np.max(step) / np.min(step)
            assert ratio <= case["maxfac"] * (1 + 1e-5), f"ratio of spacings {ratio}"
        if case["maxmode"] is not None and nz > 2 * case["maxmode"]:
            # Part of the first and of the highest mode remains
            f = np.fft.fft(np.remainder(t_in - np.roll(t_in, 1), 2 * np.pi))
            f = np.abs(f[case["maxmode"] + 1 : nz // 2])
            assert np.all(f < 1e-5), f"spacing has higher modes: {f}"
        if case["maxfac"] is None and case["maxmode"] is None:
            # The closest points of the polygon, a little smoothed
            t = closest_on_polygon(inner, C[-1], D[-1])
            wrap = lambda v: np.remainder(v + np.pi, 2 * np.pi) - np.pi  # noqa
            err = np.abs(wrap(t_in - t))
            second = np.abs(wrap(np.roll(t, 1) - t) + wrap(np.roll(t, -1) - t))
            if np.all(wrap(np.roll(t, -1) - t) > 0):
                labels.append("closest")
                lim = 0.02 * 2 * np.pi / len(inner.R) + 10 * 0.1 * nz / 192 * np.max(second)
                assert np.max(err) < lim, f"inner points are up to {np.max(err)} from the closest, {lim}"
    elif not case["align"]:
        close(C[0], inner.Rvalue(th), 1e-10, "inner R", 5)
        close(D[0], inner.Zvalue(th), 1e-10, "inner Z", 5)
    else:
        labels.append("aligned")
        ei, oi = offset_of(inner, C[0], D[0])
        eo, oo = offset_of(outer, C[-1], D[-1])
        assert max(ei, eo) < 1e-9, "not equally spaced in theta"
        if case["legacy"]:
            assert inner.R[oi] == np.max(inner.R) and outer.R[oo] == np.max(outer.R)
        else:
            # No other offset brings the lines closer together
            t = 2 * np.pi * np.arange(360) / 360
            n = len(outer.R)
            a = np.array(inner.position(t + 2 * np.pi * oi / len(inner.R)))

            def total(i):
                b = np.array(outer.position(t + 2 * np.pi * (oo + i) / n))
                return np.mean(((a - b) ** 2).sum(0))

            ref = total(0)
            best = min(total(i) for i in range(n))
            assert ref <= best + 0.1, f"mean square distance {ref}, possible is {best}"
    gap = np.min(curves.distance_to_polyline(outer.R, outer.Z, inner.R, inner.Z))
    if (case["align"] or case["inner_ort"]) and nz >= 12 and gap > 0.3:
        o = orientation(C, D)
        assert np.all(o < 0) or np.all(o > 0), "the grid is folded"
        labels.append("not folded")
    return labels


circle_case = st.fixed_dictionaries(
    {
        "R0": q(0.0, 4.0, 8),
        "r_in": q(0.2, 0.6, 8),
        "r_out": q(0.8, 2.0, 8),
        # Points of the line for each point of the grid
        "k": st.integers(2, 4),
        "nx": st.integers(5, 12),
        "nz": st.integers(8, 24),
    }
)


def circles(case):
    """between concentric circles all surfaces are circles with increasing radius, all radial lines straight"""
    from zoidberg import poloidal_grid, rzline

    inner = rzline.circle(R0=case["R0"], r=case["r_in"], n=case["k"] * case["nz"])
    outer = rzline.circle(R0=case["R0"], r=case["r_out"], n=case["k"] * case["nz"])
    R, Z = poloidal_grid.grid_elliptic(inner, outer, case["nx"], case["nz"], return_coords=True)
    r = np.hypot(R - case["R0"], Z)
    m = r.mean(axis=1, keepdims=True)
    close(r, m + 0 * r, 2e-3, "radius", case["r_out"])
    assert np.all(np.diff(m[:, 0]) > 0)
    th = np.unwrap(np.arctan2(Z, R - case["R0"]), axis=1)
    expect = 2 * np.pi * np.arange(case["nz"]) / case["nz"]
    close(np.remainder(th - expect + np.pi, 2 * np.pi) - np.pi, 0 * th, 2e-3, "angle", 1.0)
    return []


reject_case = st.fixed_dictionaries(
    {
        **pair_case,
        "which": st.sampled_from(["annulus nx", "annulus nz", "nx", "nz", "nx with extra"]),
    }
)


def reject(case):
    """too few points"""
    from zoidberg import poloidal_grid

    inner, outer = lines(case)
    f = {
        "annulus nx": lambda: poloidal_grid.grid_annulus(inner, outer, 1, 8),
        "annulus nz": lambda: poloidal_grid.grid_annulus(inner, outer, 4, 1),
        "nx": lambda: poloidal_grid.grid_elliptic(inner, outer, 1, 8),
        "nz": lambda: poloidal_grid.grid_elliptic(inner, outer, 4, 1),
        "nx with extra": lambda: poloidal_grid.grid_elliptic(inner, outer, 4, 8, nx_outer=1, nx_inner=2),
    }[case["which"]]
    raises((AssertionError, ValueError), f, case["which"])
    return [case["which"]]


LAWS = [
    Law("annulus", annulus_case, annulus, 300),
    Law("elliptic", elliptic_case, elliptic, 1200),
    Law("circles", circle_case, circles, 80),
    Law("reject", reject_case, reject, 15, 30),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large annulus",
        larger(
            annulus_case,
            nx=st.integers(13, 60),
            nz=st.integers(31, 150),
            n_in=st.integers(70, 300),
            n_out=st.integers(70, 300),
        ),
        annulus,
        15,
        200,
        "as annulus, with more cells and points",
    ),
    Law(
        "large",
        larger(
            elliptic_case,
            dz_relax=st.none(),
            nx=st.integers(15, 34),
            nz=st.integers(41, 90),
            n_in=st.integers(70, 200),
            n_out=st.integers(70, 200),
        ),
        elliptic,
        24,
        400,
        "as elliptic, with more cells and points",
    ),
]

unit_case = st.fixed_dictionaries(
    {
        **pair_case,
        "nx": st.integers(4, 9),
        "nz": st.integers(8, 24),
        "extra": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list),
        "align": st.sampled_from([True, True, False]),
        "legacy": st.booleans(),
        "inner_ort": st.booleans(),
        "maxfac": st.sampled_from([None, None, 1.5]),
        "maxmode": st.sampled_from([None, None, 3]),
        "unit": units,
    }
)


def scaled(case):
    """the same lines (and the same tolerance) in other units: the same grids times the factor; trivial if rejected"""
    from zoidberg import poloidal_grid
    from zoidberg.rzline import RZline

    u = case["unit"]
    inner, outer = lines(case)
    big = [RZline(u * v.R, u * v.Z) for v in (inner, outer)]
    nx, nz = case["nx"], case["nz"]
    a = np.array(poloidal_grid.grid_annulus(inner, outer, nx, nz, return_coords=True))
    b = np.array(poloidal_grid.grid_annulus(*big, nx, nz, return_coords=True))
    close(b / u, a, 1e-10, f"annulus in units of {u}", 10)
    kw = {
        "align": case["align"],
        "legacy_align": case["legacy"],
        "inner_ort": case["inner_ort"],
        "nx_inner": case["extra"][0],
        "nx_outer": case["extra"][1],
        "return_coords": True,
    }
    if case["maxfac"]:
        kw["maxfac_inner"] = case["maxfac"]
    if case["maxmode"]:
        kw["inner_maxmode"] = case["maxmode"]
    got = []
    for s, ln in ((1.0, (inner, outer)), (u, big)):
        try:
            n = nx + sum(case["extra"])
            got.append(np.array(poloidal_grid.grid_elliptic(*ln, n, nz, tol=1e-10 * s * s, **kw)))
        except RuntimeError:
            got.append(None)
    a, b = got
    assert (a is None) == (b is None), f"rejected only in units of {u if b is None else 1}"
    if a is None:
        return ["trivial"]
    close(b / u, a, 1e-6, f"elliptic grid in units of {u}", 10)
    return []


LAWS += [Law("scaled", unit_case, scaled, 60, 1000)]
