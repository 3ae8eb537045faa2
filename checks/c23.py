"""C23  Consistent boundaries and operators from maps with several samples"""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import legs
from vlib import maps as vm
from vlib.gen import close, larger, linear_field
from vlib.harness import Law

SAMPLED = [f"{d}_{v}t_primes" for d in ("forward", "backward") for v in "xz"] + ["subcell_weights"]
OPERATORS = [
    "total_cells",
    "cell_number",
    *(
        k.format(d)
        for d in ("forward", "backward")
        for k in (
            "{}_cell_number",
            "n_{}_legs",
            "{}_leg_interior_number",
            "{}_leg_boundary_number",
            "{}_leg_weights",
            "{}_weights",
            "{}_columns",
            "{}_rows",
        )
    ),
]

base = {k: v for k, v in legs.maps_case.items() if k != "fallback"}
case_st = st.fixed_dictionaries({**base, "centre": st.sampled_from(["sample", "mean", "hit", "inside"])})


def build(case):
    m = legs.build({**case, "fallback": False})
    nx, ny, nz = m["R"].shape
    mxg = m["MXG"]
    rng = np.random.RandomState(case["seed"] + 1)
    for d in ("forward", "backward"):
        if case["centre"] == "mean":
            for v in "xz":
                m[f"{d}_{v}t_prime"] = m[f"{d}_{v}t_primes"].mean(axis=-1)
        elif case["centre"] == "hit":
            m[f"{d}_xt_prime"] = np.where(rng.rand(nx, ny, nz) < 0.5, -1.0, m[f"{d}_xt_prime"])
        elif case["centre"] == "inside":
            m[f"{d}_xt_prime"] = mxg + (nx - 2 * mxg - 1) * rng.rand(nx, ny, nz)
            m[f"{d}_zt_prime"] = nz * rng.rand(nx, ny, nz)
    m["By"] = rng.rand(nx, ny, nz)
    return m


def same_operators(res, ref):
    for k in OPERATORS:
        assert k in res, f"{k} missing"
        if k.startswith(("n_", "total")):
            assert res[k] == ref[k], k
        else:
            close(res[k], ref[k], 1e-12, k, 1)


def finish(m, out, before, changed):
    """Same dictionary; only what is expected to change did"""
    assert out is m, "not the same dictionary"
    for k in SAMPLED:
        assert k not in m, f"{k} is still there"
    for k in before:
        if k not in SAMPLED and k not in changed:
            assert np.array_equal(m[k], before[k]), f"{k} changed"
    assert set(m) == (set(before) | set(OPERATORS)) - set(SAMPLED), "names"


def partial(case):
    """cells of which a part hits the boundary are boundary cells, with split legs; trivial if none is hit"""
    from zoidberg import weights

    m = build(case)
    before = copy.deepcopy(m)
    ref = weights.calculate_parallel_map_operators(copy.deepcopy(m))
    out = weights.modify_maps(m) if case["seed"] % 2 else weights.modify_maps(m, partial_boundaries=True)
    finish(m, out, before, ["forward_xt_prime", "backward_xt_prime"])
    nx = m["R"].shape[0]
    n = 0
    for d in ("forward", "backward"):
        h = legs.hits(before[d + "_xt_primes"], nx, m["MXG"]).any(axis=-1)
        n += np.sum(h)
        close(m[d + "_xt_prime"], np.where(h, -1.0, before[d + "_xt_prime"]), 0, d + "_xt_prime", 1)
    same_operators(m, ref)
    return [] if n else ["trivial"]


def whole(case):
    """cells either hit the boundary as a whole, or not at all, as their centre does; trivial if none is hit in part"""
    from zoidberg import weights

    m = build(case)
    before = copy.deepcopy(m)
    expect = copy.deepcopy(m)
    nx, ny, nz = m["R"].shape
    mxg = m["MXG"]
    n = 0
    for d in ("forward", "backward"):
        h = legs.hits(before[d + "_xt_primes"], nx, mxg)
        part = h.any(axis=-1) & ~h.all(axis=-1)
        n += np.sum(part)
        centre = legs.hits(before[d + "_xt_prime"], nx, mxg)
        # All samples if the centre hits, otherwise those which hit
        use = part[..., None] & (centre[..., None] | h)
        for v in "xz":
            a = before[f"{d}_{v}t_primes"]
            c = before[f"{d}_{v}t_prime"][..., None]
            expect[f"{d}_{v}t_primes"] = np.where(use, c, a)
    ref = weights.calculate_parallel_map_operators(expect)
    out = weights.modify_maps(m, partial_boundaries=False)
    finish(m, out, before, [])
    same_operators(m, ref)
    for d in ("forward", "backward"):
        i, b = np.asarray(m[d + "_leg_interior_number"]), np.asarray(m[d + "_leg_boundary_number"])
        inner = slice(mxg, nx - mxg)
        assert np.all(((i >= 0) != (b >= 0))[inner]), "not exactly one leg"
        close(m[d + "_leg_weights"], np.ones_like(m[d + "_leg_weights"]), 1e-12, "weights of legs")
    return [] if n else ["trivial"]


end_case = st.fixed_dictionaries(
    {
        **vm.y_case,
        **vm.rect_case,
        "samples": st.sampled_from([1, 2, 3]),
        "MXG": st.sampled_from([0, 1, 2]),
        "boundary": vm.boundary_case,
        "partial": st.booleans(),
        "field": vm.lines_case,
    }
)


def end_to_end(case):
    """maps of a real grid: the operators interpolate what the maps say, and boundaries agree; trivial if nothing hits"""
    from zoidberg import weights, zoidberg
    from zoidberg.grid import Grid

    field, lines = linear_field(case["field"])
    if case["boundary"]:
        field.boundary = vm.Band(*case["boundary"])
    y, Ly = vm.ycoords(case)
    pols, geo = vm.rect_pols(case, len(y))
    m = zoidberg.make_maps(
        Grid(pols, y, Ly, yperiodic=case["periodic"]),
        field,
        quiet=True,
        samples_per_dim=case["samples"],
        field_tracer=vm.ExactTracer(lines),
        refine_parallel_integral=1,
        n_chunks=1,
        MXG=case["MXG"],
    )
    before = copy.deepcopy(m)
    weights.modify_maps(m, partial_boundaries=case["partial"])
    nx, ny, nz = m["R"].shape
    mxg = m["MXG"]
    assert mxg == case["MXG"]
    n = 0
    cell = np.asarray(m["cell_number"])
    for d, dy in (("forward", 1), ("backward", -1)):
        X, Z, w = legs.samples(before, d)
        xc = before[d + "_xt_prime"]
        rows = legs.csr_rows(m, d)
        lw = np.asarray(m[d + "_leg_weights"])
        bnd = np.asarray(m[d + "_cell_number"])
        for i in range(mxg, nx - mxg):
            for j in range(ny):
                for k in range(nz):
                    h = legs.hits(X[i, j, k], nx, mxg)
                    c = bool(legs.hits(xc[i, j, k], nx, mxg))
                    n += np.sum(h)
                    f = w[h].sum()
                    if not case["partial"] and np.any(h) and not np.all(h):
                        f = 1.0 if c else 0.0
                    if np.all(h):
                        f = 1.0
                    if case["partial"] and np.any(h):
                        assert m[d + "_xt_prime"][i, j, k] == -1, "boundary is not marked"
                    row = {}
                    for num in ("interior", "boundary"):
                        r = np.asarray(m[f"{d}_leg_{num}_number"])[i, j, k]
                        if r >= 0:
                            for col, v in rows[r].items():
                                row[col] = row.get(col, 0.0) + lw[r] * v
                    close(sum(row.values()), 1.0, 1e-9, "sum of a row")
                    if f > 0:
                        close(row[int(bnd[i, j, k])], f, 1e-9, "part at the boundary")
                    else:
                        assert bnd[i, j, k] == -1
                    # Other entries: cells of the neighbouring slice
                    allowed = set(cell[:, (j + dy) % ny, :].ravel().tolist()) | {int(bnd[i, j, k])}
                    assert set(row) <= allowed, "cells of other slices"
    return [f"samples {case['samples']}"] + ([] if n else ["trivial"])


LAWS = [
    Law("partial", case_st, partial, 400),
    Law("whole", case_st, whole, 400),
    Law("end_to_end", end_case, end_to_end, 150),
]

# Sizes far above those of the other laws
LAWS += [
    Law("large partial", larger(case_st, **legs.big_case), partial, 12, 200, "as partial, with more cells"),
    Law("large whole", larger(case_st, **legs.big_case), whole, 12, 200, "as whole, with more cells"),
]
