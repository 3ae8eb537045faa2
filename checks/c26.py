"""C26  Using a grid, a field or maps does not change them; invalid data does not get into a file"""

import copy
import os

import numpy as np
from hypothesis import strategies as st

from vlib import files
from vlib.gen import raises
from vlib.harness import Law

ASSUMPTIONS = [
    "a set of maps may get additional entries when it is written (Rxy), but none of the existing ones changes",
    "non-finite numbers are rejected with an AssertionError or a ValueError",
]

OPS = ["maps", "write", "write 2d", "write new", "get_metric", "metric", "slices", "poloidal", "volume"]
history_case = st.fixed_dictionaries(
    {
        **files.case,
        "ny": st.integers(1, 3),
        "ops": st.lists(st.sampled_from(OPS), min_size=2, max_size=7),
    }
)


def freeze(d):
    return {k: np.array(v) for k, v in d.items()}


def equal(a, b, what):
    assert set(a) == set(b), f"{what}: different entries {set(a) ^ set(b)}"
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        assert x.shape == y.shape and x.dtype == y.dtype, f"{what}: shape or type of {k}"
        assert np.array_equal(x, y), f"{what}: {k} differs by up to {np.max(np.abs(x - y))}"


def perform(op, case, grid, field, lines, maps):
    """Result of an operation, as dictionary of arrays"""
    from zoidberg import zoidberg

    if op == "maps":
        return freeze(files.make(case, grid, field, lines))
    if op.startswith("write"):
        kw = {"metric2d": op.endswith("2d"), "new_names": op.endswith("new")}
        zoidberg.write_maps(grid, field, maps, gridfile="h.nc", quiet=True, **kw)
        v, _, _ = files.read("h.nc")
        os.remove("h.nc")
        return v
    if op == "get_metric":
        m, B = zoidberg.get_metric(grid, field)
        return {**freeze(m), "BJg": np.array(B)}
    if op == "metric":
        return freeze(grid.metric())
    if op == "slices":
        out = {}
        for i in range(-3, 2 * case["ny"] + 3):
            pol, y = grid.getPoloidalGrid(i)
            out[str(i)] = np.array(y)
            out[f"there {i}"] = np.array(pol is not None)
        return out
    if op == "poloidal":
        out = {}
        for j in range(case["ny"]):
            for k, v in grid.poloidal_grids[j].metric().items():
                out[f"{k} {j}"] = np.array(v)
            out[f"R {j}"] = np.array(grid.poloidal_grids[j].R)
            out[f"Z {j}"] = np.array(grid.poloidal_grids[j].Z)
        return out
    out = {}
    pol, y = grid.getPoloidalGrid(0)
    for k in ("Bxfunc", "Byfunc", "Bzfunc", "Bmag", "pressure"):
        out[k] = np.array(getattr(field, k)(pol.R, pol.Z, y))
    for k in sorted(field.attributes):
        out[k] = np.array(field.attributes[k](pol.R, pol.Z, y))
    return out


def history(case):
    """sequences of operations on one grid, field and set of maps: each gives what it gives on fresh ones; trivial if all operations are the same"""
    grid, field, lines = files.setup(case)
    maps = files.make(case, grid, field, lines)
    given = copy.deepcopy(maps)
    fresh = {}
    for i, op in enumerate(case["ops"]):
        if op not in fresh:
            g, f, ls = files.setup(case)
            fresh[op] = perform(op, case, g, f, ls, files.make(case, g, f, ls))
        equal(perform(op, case, grid, field, lines, maps), fresh[op], f"{op} after {case['ops'][:i]}")
        for k in given:
            assert np.array_equal(given[k], maps[k]), f"{op} changed {k}"
    return ["trivial"] if len(set(case["ops"])) < 2 else []


bad_case = st.fixed_dictionaries(
    {
        **files.case,
        "what": st.sampled_from(["map", "map", "extra", "attribute", "pressure", "metric"]),
        "value": st.sampled_from(["nan", "inf", "-inf"]),
        "seed": st.integers(0, 9999),
        "how": st.sampled_from(["write_maps", "writer"]),
    }
)


def bad(case):
    """a single number which is not finite in the maps, a field or an additional variable is rejected, and not in the file"""
    from zoidberg import zoidberg

    grid, field, lines = files.setup({**case, "attributes": 1})
    maps = files.make(case, grid, field, lines)
    rng = np.random.RandomState(case["seed"])
    value = float(case["value"])
    shape = grid.shape
    pos = tuple(rng.randint(n) for n in shape)
    extra = None
    name = None
    if case["what"] == "map":
        names = sorted(k for k, v in maps.items() if np.shape(v) == shape)
        name = names[rng.randint(len(names))]
        # R is shared with the grid in some cases
        maps[name] = maps[name].copy()
        maps[name][pos] = value
        if name in ("R", "Z"):
            maps[name] = maps[name]
    elif case["what"] == "extra":
        name = "extra"
        extra = {"extra": np.ones(shape)}
        extra["extra"][pos] = value
    elif case["what"] == "attribute":
        name = "attr0"

        def broken(x, z, y, old=field.attributes["attr0"]):
            r = old(x, z, y)
            r[pos[0], pos[2]] = value
            return r

        field.attributes["attr0"] = broken
    else:
        name = "pressure" if case["what"] == "pressure" else "B"

        def broken(x, z, y):
            r = np.ones(np.shape(x))
            r[pos[0], pos[2]] = value
            return r

        if name == "B":
            field.Bmag = broken
        else:
            field.pressure = broken

    def run():
        if case["how"] == "write_maps" and extra is None:
            # Without the option all dimensions are checked
            zoidberg.write_maps(grid, field, maps, gridfile="bad.nc", metric2d=False, quiet=True)
        else:
            with zoidberg.MapWriter("bad.nc", quiet=True) as mw:
                mw.add_grid_field(grid, field)
                if extra:
                    mw.write_dict(extra)
                mw.add_maps(maps)

    raises((AssertionError, ValueError), run, f"{case['value']} in {name}")
    v, _, _ = files.read("bad.nc")
    os.remove("bad.nc")
    for k in v:
        assert np.all(np.isfinite(v[k])) or name in k, f"{k} in the file is not finite"
    if name in v:
        assert np.all(np.isfinite(v[name])), f"{name} in the file is not finite"
    return [case["what"]]


order_case = st.fixed_dictionaries(
    {**files.case, "what": st.sampled_from(["closed", "field", "grid", "dagp grid", "dagp field"])}
)


def order(case):
    """steps in the wrong order are rejected"""
    from zoidberg import zoidberg

    grid, field, lines = files.setup(case)
    maps = files.make(case, grid, field, lines)
    err = (AssertionError, ValueError)
    mw = zoidberg.MapWriter("o.nc", quiet=True)
    w = case["what"]
    if w == "closed":
        raises(err, lambda: mw.write_dict({"a": 1.0}), w)
        with mw:
            mw.add_grid_field(grid, field)
        raises(err, lambda: mw.write_dict({"a": 1.0}), w)
    else:
        with mw:
            if w.endswith("field"):
                mw.add_grid(grid)
            else:
                mw.add_field(field)
            raises(err, mw.add_dagp if w.startswith("dagp") else lambda: mw.add_maps(maps), w)
    if os.path.exists("o.nc"):
        os.remove("o.nc")
    return [w]


LAWS = [
    Law("history", history_case, history, 120),
    Law("bad", bad_case, bad, 120),
    Law("order", order_case, order, 30, 60),
]
