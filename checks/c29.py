"""C29  Differences along an axis, and the length of field lines"""

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad

from vlib.gen import close, larger, q, snapshot, sq, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "at least 3 (second order) or 5 (fourth order) points",
    "field lines sampled well enough for cubic interpolation",
]

diff_case = st.fixed_dictionaries(
    {
        "order": st.sampled_from([2, 4]),
        "shape": st.lists(st.integers(1, 4), min_size=0, max_size=2),
        "n": st.integers(5, 20),
        "short": st.booleans(),
        "axis": st.integers(0, 2),
        "negative": st.booleans(),
        "periodic": st.booleans(),
        "kind": st.sampled_from(["float", "int", "complex", "transposed"]),
        "seed": st.integers(0, 9999),
    }
)


def fn(order):
    from zoidberg import diff

    return {2: diff.c2, 4: diff.c4}[order]


def differences(case):
    """polynomials up to the order, in any direction of arrays of any shape, and waves on periodic arrays, are exact; trivial never"""
    rng = np.random.RandomState(case["seed"])
    o = case["order"]
    n = case["n"]
    if case["short"] and o == 2 and not case["periodic"]:
        n = 3 + case["n"] % 3
    shape = list(case["shape"])
    axis = case["axis"] % (len(shape) + 1)
    rest = tuple(shape)
    i = np.arange(n)
    if case["periodic"]:
        # Waves: known factors
        A = rng.randint(-3, 4, size=(4,) + rest).astype(float)
        f, d = np.zeros((n,) + rest), np.zeros((n,) + rest)
        for m in range(2):
            k = 2 * np.pi * rng.randint(0, n) / n
            c = np.sin(k) if o == 2 else (8 * np.sin(k) - np.sin(2 * k)) / 6
            ph = (k * i).reshape((n,) + (1,) * len(rest))
            f = f + A[2 * m] * np.sin(ph) + A[2 * m + 1] * np.cos(ph)
            d = d + c * (A[2 * m] * np.cos(ph) - A[2 * m + 1] * np.sin(ph))
    else:
        A = rng.randint(-3, 4, size=(o + 1,) + rest).astype(float)
        x = (i - n // 2).reshape((n,) + (1,) * len(rest)).astype(float)
        f = sum(A[p] * x**p for p in range(o + 1))
        d = sum(p * A[p] * x ** (p - 1) for p in range(1, o + 1)) + 0 * f
    kind = case["kind"]
    if kind == "int" and not case["periodic"]:
        f = f.astype(int)
    elif kind == "complex":
        f, d = f * (1 + 2j), d * (1 + 2j)
    f, d = np.moveaxis(f, 0, axis), np.moveaxis(d, 0, axis)
    if kind != "transposed":
        f = np.ascontiguousarray(f)
    before = snapshot(f)
    ax = axis - f.ndim if case["negative"] else axis
    if case["periodic"]:
        r = fn(o)(f, ax, periodic=True)
    elif case["seed"] % 2:
        r = fn(o)(f, ax)
    else:
        r = fn(o)(f, ax, periodic=False)
    unchanged(before, f)
    close(r, d, 1e-10, f"difference of order {o}", max(1.0, float(np.max(np.abs(f)))))
    return [kind, f"order {o}", "periodic" if case["periodic"] else "ends"]


type_case = st.fixed_dictionaries(
    {
        "order": st.sampled_from([2, 4]),
        "n": st.integers(5, 12),
        "m": st.integers(1, 3),
        "axis": st.integers(0, 1),
        "periodic": st.booleans(),
        "dtype": st.sampled_from(["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4"]),
        "seed": st.integers(0, 9999),
    }
)


def types(case):
    """numbers up to the limits of small types (integers with and without sign, single precision) give the differences of the same numbers in double precision; trivial if double precision is needed for integers"""
    rng = np.random.RandomState(case["seed"])
    shape = [case["m"], case["m"]]
    shape[case["axis"]] = case["n"]
    dt = np.dtype(case["dtype"])
    if dt.kind == "f":
        f = rng.randint(-99, 100, size=shape).astype(dt)
        scale = 100.0
    else:
        lim = np.iinfo(dt)
        lo, hi = max(lim.min, -(2**40)), min(lim.max, 2**40)
        f = rng.randint(lo, hi, size=shape, dtype=np.int64).astype(dt)
        scale = float(hi)
    before = snapshot(f)
    D = fn(case["order"])
    r = D(f, case["axis"], case["periodic"])
    unchanged(before, f)
    close(
        r,
        D(f.astype(float), case["axis"], case["periodic"]),
        1e-6 if dt.kind == "f" else 1e-11,
        f"difference of {dt}",
        scale,
    )
    return [case["dtype"]]


rand_case = st.fixed_dictionaries(
    {
        "order": st.sampled_from([2, 4]),
        "n": st.integers(5, 12),
        "m": st.integers(1, 3),
        "axis": st.integers(0, 1),
        "periodic": st.booleans(),
        "a": sq(2.0),
        "seed": st.integers(0, 9999),
        "shift": st.integers(1, 4),
    }
)


def linear(case):
    """linear in the function; rolling a periodic array rolls the result, reversing reverses the sign; trivial never"""
    rng = np.random.RandomState(case["seed"])
    shape = [case["m"], case["m"]]
    shape[case["axis"]] = case["n"]
    f, g = rng.rand(*shape), rng.rand(*shape)
    D = fn(case["order"])
    ax = case["axis"]
    p = case["periodic"]
    close(D(f + case["a"] * g, ax, p), D(f, ax, p) + case["a"] * D(g, ax, p), 1e-11, "linearity", 10)
    close(D(np.flip(f, ax), ax, p), -np.flip(D(f, ax, p), ax), 1e-11, "reversed", 10)
    if p:
        s = case["shift"]
        close(D(np.roll(f, s, ax), ax, p), np.roll(D(f, ax, p), s, ax), 1e-11, "rolled", 10)
    return []


length_case = st.fixed_dictionaries(
    {
        "lines": st.lists(
            st.tuples(q(0.5, 3.0, 10), sq(0.3, 6), sq(0.3, 6), sq(0.8, 8), q(0, 6, 6)).map(list),
            min_size=1,
            max_size=4,
        ),
        "square": st.booleans(),
        "n": st.integers(12, 40),
        "y0": sq(3.0, 6),
        "span": q(0.3, 4.0, 12),
        "warp": sq(0.3, 3),
        "reverse": st.sampled_from([False] * 7 + [True]),
        "refine": st.sampled_from([None, 10, 40, 100, 250]),
    }
)


def length(case):
    """lines R = R0 + a sin(y+p), Z = b cos(y+p) + c y in cylindrical coordinates: quadrature of the exact length; any shape; trivial if y decreases and is rejected"""
    from zoidberg import diff

    lines = list(case["lines"])
    if case["square"]:
        lines = (lines * 4)[:4]
    s = np.linspace(0, 1, case["n"])
    y = case["y0"] + case["span"] * (s + case["warp"] * s * (1 - s))
    if case["reverse"]:
        y = y[::-1].copy()
    R = np.array([L[0] + 1 + L[1] * np.sin(y + L[4]) for L in lines]).T
    Z = np.array([L[2] * np.cos(y + L[4]) + L[3] * y for L in lines]).T
    RZ = np.stack([R, Z], -1)
    if case["square"]:
        RZ = RZ.reshape(len(y), 2, 2, 2)
    before = snapshot(RZ, y)
    kw = {"refine": case["refine"]} if case["refine"] else {}
    try:
        got = diff.field_line_length(RZ, y, **kw)
    except ValueError:
        # Only increasing y is supported
        assert case["reverse"]
        return ["trivial"]
    unchanged(before, RZ, y)
    rf = case["refine"] or 100
    expect = []
    for L in lines:

        def ds(t):
            r = L[0] + 1 + L[1] * np.sin(t + L[4])
            return np.sqrt(r**2 + (L[1] * np.cos(t + L[4])) ** 2 + (L[3] - L[2] * np.sin(t + L[4])) ** 2)

        expect.append(abs(quad(ds, y[0], y[-1], epsabs=1e-11)[0]))
    expect = np.array(expect).reshape(RZ.shape[1:-1])
    step = case["span"] / (case["n"] - 1) * 1.3
    # Interpolation, and chords instead of arcs
    tol = 2e-2 * step**4 + (step / rf) ** 2
    close(got, expect, tol, "length", 1 + np.max(expect))
    assert np.all(got <= expect * (1 + 2e-2 * step**4) + 1e-9), "longer than the line"
    return ["reverse" if case["reverse"] else "forward"]


LAWS = [
    Law("differences", diff_case, differences, 2000),
    Law("types", type_case, types, 500),
    Law("linear", rand_case, linear, 500),
    Law("length", length_case, length, 500),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(rand_case, n=st.integers(30, 400), m=st.integers(4, 30)),
        linear,
        60,
        1000,
        "as linear, with many points",
    ),
    Law(
        "large length",
        larger(length_case, n=st.integers(60, 300)),
        length,
        30,
        500,
        "as length, with many points",
    ),
]

unit_case = st.fixed_dictionaries({"diff": rand_case, "length": length_case, "unit": units, "fine": units})


def scaled(case):
    """other units: differences and lengths of lines times the factor; lines along a short part of y are as long as their straight connection; trivial never"""
    from zoidberg import diff

    c, u = case["diff"], case["unit"]
    rng = np.random.RandomState(c["seed"])
    shape = [c["m"], c["m"]]
    shape[c["axis"]] = c["n"]
    f = rng.rand(*shape) - 0.5
    D = fn(c["order"])
    close(D(u * f, c["axis"], c["periodic"]) / u, D(f, c["axis"], c["periodic"]), 1e-12, f"in units of {u}")
    c = case["length"]
    s = np.linspace(0, 1, c["n"])
    y = c["y0"] + c["span"] * (s + c["warp"] * s * (1 - s))
    R = np.array([L[0] + 1 + L[1] * np.sin(y + L[4]) for L in c["lines"]]).T
    Z = np.array([L[2] * np.cos(y + L[4]) + L[3] * y for L in c["lines"]]).T
    RZ = np.stack([R, Z], -1)
    kw = {"refine": c["refine"]} if c["refine"] else {}
    a, b = diff.field_line_length(RZ, y, **kw), diff.field_line_length(u * RZ, y, **kw)
    close(b / u, a, 1e-10, f"length in units of {u}", 1 + np.max(a))
    # A short part, from y = 0 (without loss of digits)
    e = min(case["fine"], 1 / case["fine"]) * 0.1
    t = e * (s + c["warp"] * s * (1 - s))
    slope = np.array([L[1:3] for L in c["lines"]])
    R0 = np.array([L[0] for L in c["lines"]])
    RZ = np.stack([R0 + t[:, None] * slope[:, 0], t[:, None] * slope[:, 1]], -1)
    got = diff.field_line_length(RZ, t, **kw)
    tm = t[0] + 0.5 * (t[-1] - t[0])
    expect = (t[-1] - t[0]) * np.sqrt((R0 + tm * slope[:, 0]) ** 2 + (slope**2).sum(-1))
    close(got / e, expect / e, 1e-3 + 0.1 * e, f"length over {e} in y", 4)
    return []


LAWS += [Law("scaled", unit_case, scaled, 200, 4000)]
