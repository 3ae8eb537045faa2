"""C22  The parallel interpolation operators"""

import numpy as np
from hypothesis import strategies as st

from vlib import legs
from vlib.gen import close, larger, lst, q, sq
from vlib.harness import Law

ASSUMPTIONS = [
    "reference: cubic convolution interpolation in x and z on the next slice, periodic in z; x is limited to evolving cells",
]
case_st = st.fixed_dictionaries(legs.maps_case)


def operator(case):
    """all rows of both operators compared with a dense model; trivial if no leg reaches another cell"""
    from zoidberg import weights

    m = legs.build(case)
    res = weights.calculate_parallel_map_operators(m)
    nx, ny, nz = m["R"].shape
    cell = np.asarray(res["cell_number"])
    reached = 0
    for d, off in (("forward", 1), ("backward", -1)):
        rows = legs.csr_rows(res, d)
        used = set()
        for (dd, x, y, z), (h, inside, outside, W) in legs.expected(m).items():
            if dd != d:
                continue
            if np.any(h):
                r = int(res[f"{d}_leg_boundary_number"][x, y, z])
                used.add(r)
                b = int(res[f"{d}_cell_number"][x, y, z])
                assert rows[r] == {b: 1.0}, f"{d}: row of a boundary leg is {rows[r]}, boundary {b}"
            if np.any(~h):
                reached += 1
                r = int(res[f"{d}_leg_interior_number"][x, y, z])
                used.add(r)
                got = np.zeros((nx, nz))
                here = cell[:, (y + off) % ny, :]
                for c, w in rows[r].items():
                    hit = np.argwhere(here == c)
                    assert len(hit) == 1, f"{d}: cell {(x, y, z)} uses a cell of another slice"
                    got[tuple(hit[0])] += w
                close(got, W, 1e-8, f"{d}: weights of cell {(x, y, z)}", 1)
                close(got.sum(), 1.0, 1e-9, "sum of weights")
                b = m["MXG"]
                rest = np.concatenate([got[:b].ravel(), got[nx - b :].ravel()])
                close(rest, 0 * rest, 1e-10, "weights in the radial boundary")
        assert used == set(range(len(rows))), "rows without a cell"
    return [case["kind"]] + ([] if reached else ["trivial"])


poly_case = st.fixed_dictionaries(
    {
        "mxg": st.integers(0, 2),
        "inner": st.integers(6, 8),
        "nz": st.integers(6, 10),
        "ny": st.integers(1, 3),
        "ns": st.sampled_from([1, 2, 4]),
        "seed": st.integers(0, 9999),
        "c": st.lists(sq(1.0, 8), min_size=6, max_size=6),
    }
)


def polynomial(case):
    """quadratic functions of x and z are interpolated exactly away from the ends, constants everywhere; trivial for constants"""
    from zoidberg import weights

    rng = np.random.RandomState(case["seed"])
    mxg = case["mxg"]
    nx, ny, nz, ns = case["inner"] + 2 * mxg, case["ny"], case["nz"], case["ns"]
    shape = (nx, ny, nz, ns)
    m = {"R": np.ones(shape[:3]), "MXG": mxg, "subcell_weights": np.full(ns, 1.0 / ns)}
    for d in ("forward", "backward"):
        m[d + "_xt_primes"] = mxg + 1 + (nx - 2 * mxg - 3) * rng.rand(*shape) * (1 - 1e-9)
        m[d + "_zt_primes"] = 1 + (nz - 3) * rng.rand(*shape) * (1 - 1e-9)
    res = weights.calculate_parallel_map_operators(m)
    c = case["c"]

    def f(x, y, z):
        return c[0] + c[1] * x + c[2] * z + c[3] * x**2 + c[4] * x * z + c[5] * z**2 + y

    vec = np.zeros(res["total_cells"])
    I, J, K = np.meshgrid(*[np.arange(n) for n in shape[:3]], indexing="ij")
    vec[np.asarray(res["cell_number"])] = f(I, J, K)
    for d, off in (("forward", 1), ("backward", -1)):
        rows = legs.csr_rows(res, d)
        num = np.asarray(res[f"{d}_leg_interior_number"])
        for x in range(mxg, nx - mxg):
            for y in range(ny):
                for z in range(nz):
                    got = sum(w * vec[k] for k, w in rows[num[x, y, z]].items())
                    e = f(m[d + "_xt_primes"][x, y, z], (y + off) % ny, m[d + "_zt_primes"][x, y, z]).mean()
                    close(got, e, 1e-9, f"{d} value at {(x, y, z)}", 100)
    return [] if any(c[1:]) else ["trivial"]


shift_case = st.fixed_dictionaries({**legs.maps_case, "turns": st.integers(-3, 3), "roll": st.integers(1, 5)})


def shift(case):
    """adding whole turns in z changes nothing; rolling the maps in z rolls the operator"""
    from zoidberg import weights

    m = legs.build({**case, "fallback": False})
    a = weights.calculate_parallel_map_operators(m)
    nx, ny, nz = m["R"].shape
    m2 = {k: v.copy() if hasattr(v, "copy") else v for k, v in m.items()}
    r = case["roll"]
    for d in ("forward", "backward"):
        m2[d + "_xt_primes"] = np.roll(m[d + "_xt_primes"], r, axis=2)
        m2[d + "_zt_primes"] = np.roll(m[d + "_zt_primes"], r, axis=2) + r + nz * case["turns"]
    b = weights.calculate_parallel_map_operators(m2)
    rng = np.random.RandomState(case["seed"])
    f = rng.rand(nx, ny, nz)
    out = []
    for res, ff in ((a, f), (b, np.roll(f, r, axis=2))):
        vec = np.zeros(res["total_cells"])
        vec[np.asarray(res["cell_number"])] = ff
        o = []
        for d in ("forward", "backward"):
            rows = legs.csr_rows(res, d)
            num = np.asarray(res[f"{d}_leg_interior_number"])
            o.append(
                np.array(
                    [np.nan if k < 0 else sum(w * vec[i] for i, w in rows[k].items()) for k in num.ravel()]
                ).reshape(num.shape)
            )
        out.append(o)
    for p, s in zip(*out):
        p = np.roll(p, r, axis=2)
        assert np.array_equal(np.isnan(p), np.isnan(s)), "legs"
        ok = ~np.isnan(p)
        close(s[ok], p[ok], 1e-6, "rolled operator", 1)
    return []


LAWS = [
    Law("operator", case_st, operator, 300),
    Law("polynomial", poly_case, polynomial, 40),
    Law("shift", shift_case, shift, 120),
]

# Sizes far above those of the other laws
LAWS += [
    Law("large", larger(legs.maps_case, **legs.big_case), operator, 8, 120, "as operator, with more cells"),
]

huge_case = st.fixed_dictionaries(
    {
        "mxg": st.integers(1, 2),
        "inner": st.integers(44, 50),
        "ny": st.integers(14, 15),
        "nz": st.integers(110, 120),
        "hit": st.sampled_from([0.0, 0.1]),
        "seed": st.integers(0, 9999),
    }
)


def huge(case):
    """more cells than fit in two bytes: lines which end in the centres of cells use only those cells"""
    from zoidberg import weights

    rng = np.random.RandomState(case["seed"])
    mxg = case["mxg"]
    nx, ny, nz = case["inner"] + 2 * mxg, case["ny"], case["nz"]
    m = {"R": np.ones((nx, ny, nz)), "Z": np.zeros((nx, ny, nz)), "MXG": mxg}
    to = {}
    for d in ("forward", "backward"):
        x, z = rng.randint(mxg, nx - mxg, (nx, ny, nz)), rng.randint(0, nz, (nx, ny, nz))
        h = rng.rand(nx, ny, nz) < case["hit"]
        to[d] = x, z, h
        m[d + "_xt_prime"], m[d + "_zt_prime"] = np.where(h, -1.0, x), np.where(h, -1.0, z)
    res = weights.calculate_parallel_map_operators(m)
    cell = np.asarray(res["cell_number"])
    y = np.arange(ny)[None, :, None]
    inner = slice(mxg, nx - mxg)
    for d, off in (("forward", 1), ("backward", -1)):
        x, z, h = (a[inner] for a in to[d])
        n = res[f"n_{d}_legs"]
        expect = np.full(n, -1)
        num = np.where(h, res[f"{d}_leg_boundary_number"][inner], res[f"{d}_leg_interior_number"][inner])
        expect[num] = np.where(h, res[f"{d}_cell_number"][inner], cell[x, (y + off) % ny, z])
        ptr, col, w = (np.asarray(res[f"{d}_{k}"]) for k in ("rows", "columns", "weights"))
        row = np.repeat(np.arange(n), np.diff(ptr))
        assert row.shape == col.shape == w.shape, "sizes"
        close(np.bincount(row, w, n), np.ones(n), 1e-9, f"{d}: sum of weights")
        there = col == expect[row]
        close(np.bincount(row[there], w[there], n), np.ones(n), 1e-9, f"{d}: weight of the cell at the end")
        close(w[~there], 0 * w[~there], 1e-9, f"{d}: weights of other cells")
    return []


LAWS += [Law("huge", huge_case, huge, 1, 12)]
