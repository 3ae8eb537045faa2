"""C05  Direction and strength of a field follow from its components"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, larger, nz, q, raises, snapshot, sq, store, stored, unchanged, units
from vlib.harness import Law

component = st.fixed_dictionaries({"c": sq(2.0), "x": sq(1.0), "z": sq(1.0), "s": sq(1.0), "k": q(0.0, 2.0)})
case_st = st.fixed_dictionaries(
    {
        "Bx": component,
        "Bz": component,
        "By": nz(0.2, 3.0),
        "Byvar": q(0.0, 0.8),
        "R": st.sampled_from(["none", "x", "const", "general"]),
        "how": st.sampled_from(["separate", "combined"]),
        "n": st.integers(1, 6),
        "two_d": st.booleans(),
        "seed": st.integers(0, 999),
        "y": sq(6.0),
    }
)


def make(case, small=None):
    from zoidberg import field

    def comp(c):
        return lambda x, z, y: c["c"] + c["x"] * x + c["z"] * z + c["s"] * np.sin(c["k"] * y + x * z)

    bx, bz = comp(case["Bx"]), comp(case["Bz"])

    def by(x, z, y):
        b = case["By"] * (1 + case["Byvar"] * np.cos(x - z + y))
        if small is not None:
            # By passes through a tiny value at one position
            b = np.where(np.abs(x - small[0]) < 1e-12, small[1], b)
        return b

    r = {
        "none": lambda x, z, y: None,
        "x": lambda x, z, y: x,
        "const": lambda x, z, y: np.full(np.shape(x), 1.7),
        "general": lambda x, z, y: 1.5 + 0.3 * np.sin(x + y) + 0.1 * z,
    }[case["R"]]

    class F(field.MagneticField):
        def Rfunc(self, x, z, phi):
            return r(x, z, phi)

    if case["how"] == "combined":
        F.Bxyzfunc = lambda self, x, z, phi: (bx(x, z, phi), by(x, z, phi), bz(x, z, phi))
    F.Bxfunc = lambda self, x, z, phi: bx(x, z, phi)
    F.Byfunc = lambda self, x, z, phi: by(x, z, phi)
    F.Bzfunc = lambda self, x, z, phi: bz(x, z, phi)
    return F(), bx, by, bz, r


def points(case):
    rng = np.random.RandomState(case["seed"])
    shape = (case["n"], 2) if case["two_d"] else (case["n"],)
    return 1.0 + rng.rand(*shape), rng.rand(*shape) * 2 - 1


def direction(case):
    """dx/dy = R*Bx/By and dz/dy = R*Bz/By in both call forms, and |B|; trivial if Bx and Bz vanish"""
    f, bx, by, bz, r = make(case)
    x, z = points(case)
    y = case["y"]
    before = snapshot(x, z)
    R = r(x, z, y)
    R = 1.0 if R is None else R
    ex = R * bx(x, z, y) / by(x, z, y)
    ez = R * bz(x, z, y) / by(x, z, y)
    scale = 1 + max(np.max(np.abs(ex)), np.max(np.abs(ez)))
    dx, dz = f.field_direction((x, z), y)
    close(dx, ex, 1e-12, "dx/dy", scale)
    close(dz, ez, 1e-12, "dz/dy", scale)
    unchanged(before, x, z)
    flat = np.column_stack((x.ravel(), z.ravel())).flatten()
    keep = flat.copy()
    got = f.field_direction(flat, y, True)
    expect = np.column_stack((ex.ravel(), ez.ravel())).flatten()
    close(got, expect, 1e-12, "flattened direction", scale)
    assert np.array_equal(flat, keep), "position was modified"
    got = f.field_direction(flat, y, flatten=True)
    close(got, expect, 1e-12, "flattened direction", scale)
    mag = np.sqrt(bx(x, z, y) ** 2 + by(x, z, y) ** 2 + bz(x, z, y) ** 2)
    close(f.Bmag(x, z, y), mag, 1e-12, "Bmag", np.max(mag))
    triv = np.max(np.abs(ex)) < 1e-6 and np.max(np.abs(ez)) < 1e-6
    return [case["R"], case["how"]] + (["trivial"] if triv else [])


small_case = st.fixed_dictionaries(
    {
        "base": case_st,
        "index": st.integers(0, 11),
        "value": st.sampled_from([0.0, 1e-12, -1e-12, 9e-9, -9e-9, 2e-8, -2e-8, 1e-4, -1e-4]),
        "flatten": st.booleans(),
    }
)


def small(case):
    """a field which does not point along y at one of the points has no direction there and is rejected; small but finite By is not"""
    base = case["base"]
    x, z = points(base)
    i = case["index"] % x.size
    f, bx, by, bz, r = make(base, small=(x.ravel()[i], case["value"]))
    y = base["y"]
    if case["flatten"]:
        flat = np.column_stack((x.ravel(), z.ravel())).flatten()
        call = lambda: f.field_direction(flat, y, True)  # noqa
    else:
        call = lambda: f.field_direction((x, z), y)  # noqa
    if abs(case["value"]) < 1e-8:
        raises(ValueError, call, f"By = {case['value']}")
        return ["rejected"]
    res = call()
    assert np.all(np.isfinite(np.asarray(res)))
    return ["accepted"]


def default(case):
    """the base class: unit field along y, no pressure, no boundary, Cartesian"""
    from zoidberg import field

    f = field.MagneticField()
    x, z = points({"n": case["n"], "two_d": case["two_d"], "seed": case["seed"]})
    y = case["y"]
    close(f.Bxfunc(x, z, y), 0 * x, 0.0, "Bx")
    close(f.Byfunc(x, z, y), 0 * x + 1, 0.0, "By")
    close(f.Bzfunc(x, z, y), 0 * x, 0.0, "Bz")
    close(f.Bmag(x, z, y), 0 * x + 1, 0.0, "Bmag")
    assert f.Rfunc(x, z, y) is None
    assert np.all(np.asarray(f.pressure(x, z, y)) == 0)
    dx, dz = f.field_direction((x, z), y)
    close(dx, 0 * x, 0.0, "dx/dy")
    close(dz, 0 * x, 0.0, "dz/dy")
    assert not np.any(f.boundary.outside(x, y, z))
    return ["default"]


LAWS = [
    Law("direction", case_st, direction, 1500, 30000),
    Law("small", small_case, small, 600, 10000),
    Law(
        "default",
        st.fixed_dictionaries(
            {
                "n": st.integers(1, 5),
                "two_d": st.booleans(),
                "seed": st.integers(0, 99),
                "y": sq(6.0),
            }
        ),
        default,
        40,
        400,
    ),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(case_st, n=st.integers(20, 600)),
        direction,
        60,
        1000,
        "as direction, with many points",
    ),
]

unit_case = st.fixed_dictionaries({"base": case_st, "unit": units, "which": st.sampled_from(["B", "R"])})


def scaled(case):
    """other units of the field do not change the direction, those of the major radius do in proportion; trivial if Bx and Bz vanish"""
    u, base = max(case["unit"], 2.0**-17), case["base"]
    f, bx, by, bz, r = make(base)
    g, *_ = make(base)
    x, z = points(base)
    y = base["y"]
    R = r(x, z, y)
    if case["which"] == "B":
        g.Bxfunc = lambda x, z, phi: u * bx(x, z, phi)
        g.Byfunc = lambda x, z, phi: u * by(x, z, phi)
        g.Bzfunc = lambda x, z, phi: u * bz(x, z, phi)
        g.Bxyzfunc = lambda x, z, phi: (u * bx(x, z, phi), u * by(x, z, phi), u * bz(x, z, phi))
        close(g.Bmag(x, z, y) / u, f.Bmag(x, z, y), 1e-12, f"Bmag, in units of {u}", 10)
        fac = 1.0
    else:
        g.Rfunc = lambda x, z, phi: u * (1.0 + 0 * x if R is None else r(x, z, phi))
        fac = u
    a, b = np.array(f.field_direction((x, z), y)), np.array(g.field_direction((x, z), y))
    scale = 1 + np.max(np.abs(a))
    close(b / fac, a, 1e-12, f"direction, {case['which']} in units of {u}", scale)
    return [] if np.max(np.abs(a)) > 1e-6 else ["trivial"]


LAWS += [Law("scaled", unit_case, scaled, 200, 4000)]

stored_case = st.fixed_dictionaries({"base": case_st, "how": stored, "flatten": st.booleans()})


def stored_as(case):
    """the direction at whole-numbered positions is the same however they are stored; trivial never"""
    base = case["base"]
    f, *_ = make(base)
    x, z = points(base)
    x, z = np.rint(3 * x), np.rint(3 * z)
    y = float(np.rint(base["y"]))
    a = np.array(f.field_direction((x, z), y))
    how = case["how"]
    tol = 1e-5 if how == "float32" else 1e-12
    scale = 1 + np.max(np.abs(a))
    if case["flatten"]:
        flat = np.column_stack((x.ravel(), z.ravel())).flatten()
        b = f.field_direction(store(flat, how), y, True)
        a = np.column_stack((a[0].ravel(), a[1].ravel())).flatten()
    else:
        b = np.array(f.field_direction((store(x, how), store(z, how)), y))
    close(b, a, tol, f"direction, {how}", scale)
    close(f.Bmag(store(x, how), store(z, how), y), f.Bmag(x, z, y), tol, f"Bmag, {how}", 30)
    return [how]


LAWS += [Law("stored", stored_case, stored_as, 150, 3000)]
