"""C24  The grid file holds what was computed, under the documented names"""

import copy
import os
import uuid

import numpy as np
from hypothesis import strategies as st

from vlib import files
from vlib.gen import close, larger
from vlib.harness import Law

ASSUMPTIONS = [
    "the library which writes the files (boututils) stores integers with 32 bits",
    "read back with the netCDF library, not with zoidberg",
]

OLD = {
    "g_yy": "g_22",
    "gyy": "g22",
    "gxx": "g11",
    "gxz": "g13",
    "gzz": "g33",
    "g_xx": "g_11",
    "g_xz": "g_13",
    "g_zz": "g_33",
}
METRIC = ["dx", "dy", "dz", *OLD, "B", "Bxy", "pressure"]


def same(v, m, what=""):
    for k, a in m.items():
        assert k in v, f"{what}{k} is not in the file"
        a = np.asarray(a)
        b = v[k]
        assert a.shape == b.shape, f"{what}{k}: shape {b.shape} instead of {a.shape}"
        if np.issubdtype(a.dtype, np.floating):
            assert b.dtype == np.float64, f"{what}{k} is stored as {b.dtype}"
        assert np.array_equal(a, b), f"{what}{k} is not what was written"


def suffixes(ns):
    out = []
    for i in range(1, ns + 1):
        for d in ("forward", "backward"):
            out.append((d + "_", "" if i == 1 else f"_{i}"))
    return out


base = {
    **files.case,
    "samples": st.sampled_from([1, 1, 2]),
    "modify": st.booleans(),
    "how": st.sampled_from(["write_maps", "writer", "writer open"]),
    "new_names": st.sampled_from([None, False, True]),
    "metric2d": st.sampled_from([None, False, True]),
}
case_st = st.fixed_dictionaries(base)


def write(case, grid, field, maps, fn="grid.nc", new_names=None, metric2d=None, how="write_maps"):
    from zoidberg import zoidberg

    kw = {}
    if new_names is not None:
        kw["new_names"] = new_names
    if metric2d is not None:
        kw["metric2d"] = metric2d
    if how == "write_maps":
        zoidberg.write_maps(grid, field, maps, gridfile=fn, quiet=True, **kw)
        return kw.get("new_names", False), kw.get("metric2d", True)
    mw = zoidberg.MapWriter(fn, quiet=True, **kw)
    if how == "writer":
        with mw:
            mw.add_grid_field(grid, field)
            mw.add_maps(maps)
    else:
        assert mw.open() is mw
        try:
            mw.add_field(field)
            mw.add_grid(grid)
            mw.add_maps(maps)
        finally:
            mw.__exit__(None, None, None)
    return kw.get("new_names", False), kw.get("metric2d", False)


def roundtrip(case):
    """everything in the maps, sizes, names for all options; trivial never"""
    from zoidberg import weights

    grid, field, lines = files.setup(case)
    maps = files.make(case, grid, field, lines, samples_per_dim=case["samples"])
    if case["modify"]:
        weights.modify_maps(maps)
    before = copy.deepcopy(maps)
    new, two = write(
        case, grid, field, maps, new_names=case["new_names"], metric2d=case["metric2d"], how=case["how"]
    )
    v, d, a = files.read("grid.nc")
    os.remove("grid.nc")
    same(v, before)
    nx, ny, nz = grid.shape
    same(v, {"nx": nx, "ny": ny, "nz": nz, "ixseps1": nx + 1, "ixseps2": nx + 1, "MYG": case["nslice"]})
    if "Rxy" not in before:
        same(v, {"Rxy": before["R"]})
    for j in range(ny):
        pol = grid.getPoloidalGrid(j)[0]
        close(v["R"][:, j, :], pol.R, 0, "R")
        close(v["Z"][:, j, :], pol.Z, 0, "Z")
    assert a["title"] == "BOUT++ grid file" and a["software_name"] == "zoidberg"
    assert a["id"] == a["grid_id"] and uuid.UUID(a["id"]), "identification"
    # Names and dimensions of the metric
    for k in METRIC:
        n = k if new else OLD.get(k, k)
        dims = ("x", "y", "z")
        shape = (nx, ny, nz)
        if two:
            dims, shape = ((), ()) if k == "dz" else (dims[:2], shape[:2])
        assert v[n].shape == shape and d[n] == dims, f"{n} has dimensions {d[n]}, shape {v[n].shape}"
        for pre, post in suffixes(case["nslice"]):
            m = pre + n + post
            assert m in v, f"{m} missing"
            assert v[m].shape == (nx, ny, nz) and d[m] == ("x", "y", "z"), f"dimensions of {m}"
    for i in range(case["attributes"]):
        n = f"attr{i}"
        assert n in v and v[n].shape == (nx, ny, nz) and d[n] == ("x", "y", "z"), (
            f"attribute {n} of the field"
        )
        for j in range(ny):
            pol, ypos = grid.getPoloidalGrid(j)
            close(v[n][:, j, :], files.attribute(i)(pol.R, pol.Z, ypos), 1e-12, n, 10)
    other = OLD.values() if new else OLD.keys()
    for k in other:
        assert k not in v, f"{k} for new_names={new}"
    for k in before:
        if np.shape(before[k]) == (nx, ny, nz):
            assert d[k] == ("x", "y", "z"), f"dimensions of {k}"
    return [case["how"], "2d" if two else "3d"]


options_case = st.fixed_dictionaries({k: base[k] for k in (*files.case, "how")})


def options(case):
    """the same grid with all options: only names and dimensions differ, files have different identifications"""
    grid, field, lines = files.setup(case)
    maps = files.make(case, grid, field, lines)
    ids = set()
    ref = None
    for new in (False, True):
        for two in (False, True):
            write(case, grid, field, dict(maps), new_names=new, metric2d=two, how=case["how"])
            v, d, a = files.read("grid.nc")
            os.remove("grid.nc")
            assert a["id"] not in ids, "same identification"
            ids.add(a["id"])
            if ref is None:
                ref = v
                continue
            back = {}
            for k in v:
                b = k
                if new:
                    # From new to old names
                    for n, o in OLD.items():
                        for pre, post in [
                            ("", ""),
                            ("", "_cell_ylow"),
                            ("", "_cell_yhigh"),
                            *suffixes(case["nslice"]),
                        ]:
                            if k == pre + n + post:
                                b = pre + o + post
                assert b in ref, f"{k} only with new_names={new}"
                back[b] = v[k]
            assert set(back) == set(ref), f"missing: {set(ref) - set(back)}"
            for k, val in back.items():
                r = ref[k]
                if two and val.ndim == 2 and not k.startswith(("attr", "forward", "backward")):
                    r = r[:, :, 0]
                elif two and k == "dz":
                    r = r[0, 0, 0]
                assert val.shape == r.shape and np.array_equal(val, r), (
                    f"{k} differs for new_names={new}, metric2d={two}"
                )
    return []


extra_case = st.fixed_dictionaries(
    {
        **{k: base[k] for k in files.case},
        "seed": st.integers(0, 9999),
        "where": st.sampled_from(["before", "after", "reopened"]),
        "replace": st.booleans(),
        "ints": st.booleans(),
    }
)


def extra(case):
    """additional variables before, after, or in a second session; existing variables stay or are replaced"""
    from zoidberg import zoidberg

    grid, field, lines = files.setup(case)
    maps = files.make(case, grid, field, lines)
    before = copy.deepcopy(maps)
    rng = np.random.RandomState(case["seed"])
    add = {"extra_a": rng.rand(*grid.shape), "extra_s": 3.5, "extra_2d": rng.rand(*grid.shape[:2])}
    if case["ints"]:
        add["extra_i"] = rng.randint(-5, 5, size=grid.shape)
    late = case["where"] != "before"
    if case["replace"] and late:
        add["J" if "J" in maps else "By"] = rng.rand(*grid.shape)
    given = copy.deepcopy(add)
    mw = zoidberg.MapWriter("grid.nc", metric2d=True, quiet=True)
    with mw:
        mw.add_grid_field(grid, field)
        if case["where"] == "before":
            mw.write_dict(add)
        mw.add_maps(maps)
        if case["where"] == "after":
            mw.write_dict(add)
    first, _, a = files.read("grid.nc")
    if case["where"] == "reopened":
        with zoidberg.MapWriter("grid.nc", create=False, quiet=True) as mw:
            mw.write_dict(add)
        second, _, b = files.read("grid.nc")
        assert a == b, "attributes changed"
        for k in first:
            if k not in add:
                assert np.array_equal(first[k], second[k]), f"{k} changed"
        first = second
    os.remove("grid.nc")
    same(first, given)
    same(first, {k: x for k, x in before.items() if k not in given})
    for k in given:
        assert np.array_equal(given[k], add[k]), f"{k} of the caller changed"
    return [case["where"]]


LAWS = [
    Law("roundtrip", case_st, roundtrip, 200),
    Law("options", options_case, options, 50),
    Law("extra", extra_case, extra, 80),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(case_st, **files.big_case),
        roundtrip,
        6,
        100,
        "as roundtrip, with more cells and slices",
    ),
]
