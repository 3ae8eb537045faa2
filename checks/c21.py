"""C21  Numbers of cells and of the parallel legs"""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import legs
from vlib.gen import close, larger, raises
from vlib.harness import Law

case_st = st.fixed_dictionaries(legs.maps_case)


def numbering(case):
    """every cell, boundary and leg has exactly one number; trivial without any boundary hit"""
    from zoidberg import weights

    m = legs.build(case)
    before = copy.deepcopy(m)
    res = weights.calculate_parallel_map_operators(m)
    assert m.keys() == before.keys()
    for k in m:
        assert np.array_equal(m[k], before[k]), f"{k} was modified"
    nx, ny, nz = m["R"].shape
    mxg = m["MXG"]
    cell = np.asarray(res["cell_number"])
    assert cell.shape == (nx, ny, nz)
    inner = slice(mxg, nx - mxg)
    n_ev = (nx - 2 * mxg) * ny * nz
    # Evolving cells first, then those inside, then those outside
    assert sorted(cell[inner].ravel()) == list(range(n_ev)), "numbers of evolving cells"
    nb = mxg * ny * nz
    assert sorted(cell[:mxg].ravel()) == list(range(n_ev, n_ev + nb)), "inner boundary"
    assert sorted(cell[nx - mxg :].ravel()) == list(range(n_ev + nb, n_ev + 2 * nb)), "outer boundary"
    hit = {}
    allhit = {}
    for d in ("forward", "backward"):
        X, Z, w = legs.samples(m, d)
        h = legs.hits(X, nx, mxg)
        hit[d] = h.any(axis=-1)
        allhit[d] = h.all(axis=-1)
    numbers = []
    for d in ("forward", "backward"):
        b = np.asarray(res[f"{d}_cell_number"])
        assert b.shape == (nx, ny, nz)
        mask = np.zeros((nx, ny, nz), bool)
        mask[inner] = hit[d][inner]
        assert np.all(b[~mask] == -1), f"{d}: boundary number without a boundary"
        assert np.all(b[mask] >= 0), f"{d}: boundary without a number"
        numbers += b[mask].tolist()
    first = n_ev + 2 * nb
    assert sorted(numbers) == list(range(first, first + len(numbers))), "numbers of parallel boundaries"
    assert res["total_cells"] == first + len(numbers), "number of cells"
    split = 0
    for d in ("forward", "backward"):
        X, Z, w = legs.samples(m, d)
        li = np.asarray(res[f"{d}_leg_interior_number"])
        lb = np.asarray(res[f"{d}_leg_boundary_number"])
        lw = np.asarray(res[f"{d}_leg_weights"])
        n = res[f"n_{d}_legs"]
        assert li.shape == lb.shape == (nx, ny, nz) and lw.shape == (n,)
        mi = np.zeros((nx, ny, nz), bool)
        mb = np.zeros((nx, ny, nz), bool)
        mi[inner] = ~allhit[d][inner]
        mb[inner] = hit[d][inner]
        assert np.array_equal(li >= 0, mi), f"{d}: cells with a leg to other cells"
        assert np.array_equal(lb >= 0, mb), f"{d}: cells with a leg to the boundary"
        assert np.all(li[~mi] == -1) and np.all(lb[~mb] == -1)
        assert sorted(li[mi].tolist() + lb[mb].tolist()) == list(range(n)), f"{d}: numbers of legs"
        h = legs.hits(X, nx, mxg)
        f = (w * h).sum(axis=-1)
        both = mi & mb
        split += np.sum(both)
        for mask, num, frac in ((mi, li, 1 - f), (mb, lb, f)):
            e = np.where(both, frac, 1.0)
            close(lw[num[mask]], e[mask], 1e-12, f"{d}: weights of legs")
        total = np.zeros((nx, ny, nz))
        total[mi] += lw[li[mi]]
        total[mb] += lw[lb[mb]]
        close(total[inner], np.ones_like(total[inner]), 1e-10, f"{d}: sum of the weights of a cell")
    return (["split"] if split else []) + ([] if numbers else ["trivial"])


parts_case = st.fixed_dictionaries(legs.maps_case)


def parts(case):
    """the steps one by one give what the whole gives"""
    from zoidberg import weights

    if not all(
        hasattr(weights, k)
        for k in (
            "assign_cell_space_numbers",
            "build_leg_space_metadata",
            "build_leg_weight_vector",
            "build_leg_destination_operator",
        )
    ):
        return ["trivial"]
    m = legs.build(case)
    res = weights.calculate_parallel_map_operators(copy.deepcopy(m))
    cells = weights.assign_cell_space_numbers(m)
    assert cells["N_cells"] == res["total_cells"]
    nx, ny, nz = m["R"].shape
    assert cells["N_evolving"] == (nx - 2 * m["MXG"]) * ny * nz
    assert np.array_equal(cells["cell_number"], res["cell_number"])
    for d, direction in (("forward", weights.FORWARD_DIRECTION), ("backward", weights.BACKWARD_DIRECTION)):
        space = weights.build_leg_space_metadata(cells, m, direction)
        assert space["n_legs"] == res[f"n_{d}_legs"]
        X, Z, w = legs.samples(m, d)
        h = legs.hits(X, nx, m["MXG"])
        inner = slice(m["MXG"], nx - m["MXG"])
        close(space["boundary_fraction"][inner], (w * h).sum(-1)[inner], 1e-12, "fraction at the boundary")
        close(space["interior_fraction"][inner], (w * ~h).sum(-1)[inner], 1e-12, "fraction inside")
        assert np.array_equal(weights.build_leg_weight_vector(space), res[f"{d}_leg_weights"])
        op = weights.build_leg_destination_operator(cells, space, m, direction)
        for k in ("weights", "columns", "rows"):
            assert np.array_equal(op[k], res[f"{d}_{k}"]), k
    return []


bad_case = st.fixed_dictionaries(
    {
        **legs.maps_case,
        "what": st.sampled_from(["missing weights", "sum", "length", "dims", "missing map", "array dims"]),
    }
)


def bad(case):
    """inconsistent weights or missing maps are rejected"""
    from zoidberg import weights

    case = {**case, "fallback": False, "ns": max(case["ns"], 2)}
    m = legs.build(case)
    w = m["subcell_weights"]
    if case["what"] == "missing weights":
        del m["subcell_weights"]
    elif case["what"] == "sum":
        m["subcell_weights"] = w * 1.001
    elif case["what"] == "length":
        m["subcell_weights"] = np.append(w[:-1] * 0, [0, 1])
    elif case["what"] == "dims":
        m["subcell_weights"] = w[:, None]
    elif case["what"] == "missing map":
        for k in ("backward_xt_primes", "backward_xt_prime"):
            del m[k]
    else:
        m["forward_xt_primes"] = m["forward_xt_primes"][0]
    raises(
        (ValueError, KeyError, IndexError), lambda: weights.calculate_parallel_map_operators(m), case["what"]
    )
    return [case["what"]]


LAWS = [
    Law("numbering", case_st, numbering, 500),
    Law("parts", parts_case, parts, 100),
    Law("bad", bad_case, bad, 60, 300),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large", larger(legs.maps_case, **legs.big_case), numbering, 30, 500, "as numbering, with more cells"
    ),
]

huge_case = larger(
    legs.maps_case,
    inner=st.integers(44, 50),
    ny=st.integers(14, 15),
    nz=st.integers(110, 120),
    mxg=st.integers(1, 2),
    ns=st.just(1),
)
LAWS += [Law("huge", huge_case, numbering, 1, 8, "as numbering, with more cells than fit in two bytes")]
