"""C32  More points in y along the field lines"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, larger, raises, snapshot, sq, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "away from the edges in x and z, where interpolation needs points outside of the grid",
    "field lines do not cross between slices (displacements are affine and small)",
]

affine_case = st.fixed_dictionaries(
    {
        "nx": st.integers(13, 16),
        "nz": st.integers(13, 16),
        "ny": st.integers(1, 4),
        "factor": st.integers(1, 5),
        # Displacement of the field lines of each slice: d + A (p - centre)
        "d": st.lists(st.tuples(sq(0.9, 9), sq(0.9, 9)).map(list), min_size=4, max_size=4),
        "A": st.lists(
            st.tuples(sq(0.06, 3), sq(0.06, 3), sq(0.06, 3), sq(0.06, 3)).map(list), min_size=4, max_size=4
        ),
        # Function in each slice: c + g . (p - centre)
        "f": st.lists(st.tuples(sq(3, 6), sq(1, 8), sq(1, 8)).map(list), min_size=4, max_size=4),
        "integer": st.booleans(),
        "transposed": st.booleans(),
        "quiet": st.sampled_from([True, True, True, False]),
    }
)


def affine(case):
    """functions affine in x and z, different in each slice, on field lines with affine displacements: exact solution in the middle of the grid, at all new positions in y including those from the last to the first slice; also as integers and with the axes reversed; trivial if there is nothing to interpolate"""
    from zoidberg.zoidberg import upscale

    nx, ny, nz, U = case["nx"], case["ny"], case["nz"], case["factor"]
    cen = np.array([(nx - 1) // 2, (nz - 1) // 2])
    X, Z = np.meshgrid(np.arange(nx) - cen[0], np.arange(nz) - cen[1], indexing="ij")
    p = np.stack([X, Z], -1).astype(float)
    f = np.zeros((nx, ny, nz))
    xt, zt = np.zeros((nx, ny, nz)), np.zeros((nx, ny, nz))
    F = []
    for j in range(ny):
        c, gx, gz = case["f"][j]
        if case["integer"]:
            c, gx, gz = round(2 * c), round(3 * gx), round(3 * gz)
        F.append((c, np.array([gx, gz], dtype=float)))
        f[:, j] = c + gx * X + gz * Z
        end = p + np.array(case["d"][j]) + p @ np.reshape(case["A"][j], (2, 2)).T
        xt[:, j], zt[:, j] = end[..., 0] + cen[0], end[..., 1] + cen[1]
    if case["integer"]:
        f = f.astype(int)
    maps = {"forward_xt_prime": xt, "forward_zt_prime": zt, "other": 1}
    given = np.ascontiguousarray(f.T) if case["transposed"] and nx != nz else f
    before = snapshot(given, xt, zt)
    kw = {} if U == 4 else {"upscale_factor": U}
    if not case["quiet"]:
        kw["quiet"] = False
    got = upscale(given, maps, **kw)
    unchanged(before, given, xt, zt)
    assert sorted(maps) == ["forward_xt_prime", "forward_zt_prime", "other"]
    assert got.shape == (nx, U * ny, nz), f"shape {got.shape}"
    close(got[:, ::U, :], f, 1e-9, "original slices", 1 + np.max(np.abs(f)))
    m = 1
    inner = (slice(cen[0] - m, cen[0] + m + 1), slice(cen[1] - m, cen[1] + m + 1))
    pi = p[inner]
    for j in range(ny):
        A, d = np.reshape(case["A"][j], (2, 2)), np.array(case["d"][j])
        for i in range(U):
            s = i / U
            # Start of the line through the point
            x0 = (pi - s * d) @ np.linalg.inv(np.eye(2) + s * A).T
            x1 = x0 + d + x0 @ A.T
            (c0, g0), (c1, g1) = F[j], F[(j + 1) % ny]
            expect = (1 - s) * (c0 + x0 @ g0) + s * (c1 + x1 @ g1)
            close(got[:, j * U + i, :][inner], expect, 4e-3, f"slice {j} + {i}/{U}", 1 + np.abs(g1).sum())
    return ["trivial"] if U == 1 else []


random_case = st.fixed_dictionaries(
    {
        "nx": st.integers(4, 8),
        "nz": st.integers(4, 8),
        "ny": st.integers(1, 4),
        "factor": st.integers(2, 4),
        "d": st.tuples(sq(0.6, 6), sq(0.6, 6)).map(list),
        "a": sq(2.0, 8),
        "seed": st.integers(0, 9999),
        "unit": units,
    }
)


def relations(case):
    """random fields: slices of the original are kept, linear in the field, and rolling all slices in y rolls the result; wrong shapes are rejected; trivial never"""
    from zoidberg.zoidberg import upscale

    rng = np.random.RandomState(case["seed"])
    nx, ny, nz, U = case["nx"], case["ny"], case["nz"], case["factor"]
    X, _, Z = np.mgrid[0:nx, 0:ny, 0:nz].astype(float)
    # Displacements which differ at each point, but lines do not cross
    wob = 0.2 * (rng.rand(2, nx, ny, nz) - 0.5)
    maps = {"forward_xt_prime": X + case["d"][0] + wob[0], "forward_zt_prime": Z + case["d"][1] + wob[1]}
    f, g = rng.rand(nx, ny, nz), rng.rand(nx, ny, nz)
    F, G = upscale(f, maps, U), upscale(g, maps, U)
    close(F[:, ::U, :], f, 1e-9, "original slices")
    close(upscale(f + case["a"] * g, maps, U), F + case["a"] * G, 1e-8, "linearity", 4)
    u = case["unit"]
    close(upscale(u * f, maps, U) / u, F, 1e-9, f"in units of {u}")
    rolled = {k: np.roll(v, 1, 1) for k, v in maps.items()}
    got = upscale(np.roll(f, 1, 1), rolled, U)
    close(got, np.roll(F, U, 1), 1e-8, "rolled in y")
    raises(ValueError, lambda: upscale(rng.rand(nx, ny, nz + 1), maps, U), "field of another size")
    return []


LAWS = [
    Law("affine", affine_case, affine, 1000),
    Law("relations", random_case, relations, 600),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(affine_case, nx=st.integers(17, 40), nz=st.integers(17, 40), factor=st.integers(6, 12)),
        affine,
        30,
        500,
        "as affine, with more cells and slices in between",
    ),
    Law(
        "large relations",
        larger(
            random_case,
            nx=st.integers(9, 24),
            nz=st.integers(9, 24),
            ny=st.integers(5, 10),
            factor=st.integers(5, 9),
        ),
        relations,
        15,
        300,
        "as relations, with more cells and slices",
    ),
]
