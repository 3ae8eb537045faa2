"""C02  The reversible tracer takes trapezoidal steps, which can be undone"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import (
    close,
    larger,
    linear_case,
    linear_field,
    lst,
    positions,
    q,
    raises,
    shapes,
    snapshot,
    sq,
    unchanged,
    ygrid,
)
from vlib.harness import Law

ASSUMPTIONS = [
    "for fields with lines linear in position the trapezoidal rule can be solved exactly",
    "non-linear fields: step sizes for which Newton's method converges (|dy/2 * df/dx| < 0.3)",
]

# Also positions which are the same, or nearly the same, as the one before
length = st.one_of(q(0.02, 1.0), q(0.02, 1.0), st.sampled_from([0.0, 1e-9, 1e-6, 1e-4]))
steps = st.tuples(st.sampled_from([1.0, -1.0]), st.lists(length, min_size=1, max_size=4)).map(
    lambda t: [t[0] * s for s in t[1]]
)

model_case = st.fixed_dictionaries(
    {
        "field": linear_case,
        "shape": shapes,
        "seed": st.integers(0, 999),
        "start": sq(4.0),
        "steps": steps,
        "nsteps": st.integers(1, 12),
        "where": st.sampled_from(["init", "call", "override"]),
        "as": st.sampled_from(["array", "list", "int"]),
    }
)


def model(case):
    """agreement with the exactly solved trapezoidal rule with the requested number of sub-steps; trivial if nothing moves"""
    from zoidberg.fieldtracer import FieldTracerReversible

    f, lines = linear_field(case["field"])
    x, z = positions(case["shape"], case["seed"], integer=case["as"] == "int")
    ys = ygrid(case["start"], case["steps"])
    n = case["nsteps"]
    expect = lines.trapezoid_all(x, z, ys, n)
    xi, zi, yi = x, z, ys
    if case["as"] == "list":
        xi, zi, yi = np.asarray(x).tolist(), np.asarray(z).tolist(), ys.tolist()
    before = snapshot(xi, zi, yi)
    if case["where"] == "init":
        got = FieldTracerReversible(f, nsteps=n, rtol=1e-10).follow_field_lines(xi, zi, yi)
    elif case["where"] == "call":
        got = FieldTracerReversible(f).follow_field_lines(xi, zi, yi, nsteps=n, rtol=1e-10)
    else:
        got = FieldTracerReversible(f, nsteps=n + 3, rtol=1e-3).follow_field_lines(
            xi, zi, yi, nsteps=n, rtol=1e-10
        )
    unchanged(before, xi, zi, yi)
    close(got, expect, 1e-7, "trapezoidal rule", 3 * lines.growth(ys[-1] - ys[0]))
    moved = np.max(np.abs(expect[-1] - expect[0])) > 1e-3
    labels = [case["where"], case["as"], f"ndim{expect.ndim - 2}"]
    return labels if moved else labels + ["trivial"]


nonlinear = st.fixed_dictionaries(
    {
        "a": sq(0.6),
        "b": sq(0.6),
        "c": sq(0.6),
        "d": sq(0.6),
        "kx": q(0.3, 1.5),
        "kz": q(0.3, 1.5),
        "ky": q(0.3, 2.0),
        "By": st.sampled_from([1.0, -2.0, 0.5]),
    }
)


def nonlinear_field(c):
    from zoidberg import field

    class NL(field.MagneticField):
        def Byfunc(self, x, z, phi):
            return np.full(np.shape(x), c["By"])

        def Bxfunc(self, x, z, phi):
            return c["By"] * (c["a"] * np.sin(c["kx"] * x + c["ky"] * phi) + c["b"] * np.cos(c["kz"] * z))

        def Bzfunc(self, x, z, phi):
            return c["By"] * (c["c"] * np.cos(c["kx"] * x) + c["d"] * np.sin(c["kz"] * z - c["ky"] * phi))

    return NL()


roundtrip_case = st.fixed_dictionaries(
    {
        "field": nonlinear,
        "n": st.integers(1, 5),
        "seed": st.integers(0, 999),
        "start": sq(3.0),
        "steps": st.tuples(st.sampled_from([1.0, -1.0]), st.lists(q(0.1, 0.5), min_size=1, max_size=4)).map(
            lambda t: [t[0] * s for s in t[1]]
        ),
        "nsteps": st.integers(1, 5),
        "default_rtol": st.booleans(),
    }
)


def roundtrip(case):
    """tracing to the end and back returns to the start; trivial if nothing moves"""
    from zoidberg.fieldtracer import FieldTracerReversible

    f = nonlinear_field(case["field"])
    x, z = positions([case["n"]], case["seed"])
    ys = ygrid(case["start"], case["steps"])
    rtol = 1e-8 if case["default_rtol"] else 1e-18
    kw = {} if case["default_rtol"] else {"rtol": rtol}
    tracer = FieldTracerReversible(f, nsteps=case["nsteps"], **kw)
    there = tracer.follow_field_lines(x, z, ys)
    back = tracer.follow_field_lines(there[-1, :, 0], there[-1, :, 1], ys[::-1])
    # Newton's method converges quadratically: the error left after a change of
    # sqrt(rtol) is of order rtol, per step and amplified along the line
    tol = 2000 * rtol + 1e-10
    close(back[::-1], there, tol, "line traced there and back", 1.0)
    moved = np.max(np.abs(there[-1] - there[0])) > 1e-3
    return ["tight" if not case["default_rtol"] else "default"] + ([] if moved else ["trivial"])


agree_case = st.fixed_dictionaries(
    {
        "field": nonlinear,
        "n": st.integers(1, 4),
        "seed": st.integers(0, 999),
        "start": sq(3.0),
        "steps": st.tuples(st.sampled_from([1.0, -1.0]), st.lists(q(0.1, 0.5), min_size=1, max_size=3)).map(
            lambda t: [t[0] * s for s in t[1]]
        ),
    }
)


def agree(case):
    """agrees with the standard tracer up to the error of the trapezoidal rule, which falls with the square of the step; trivial if nothing moves"""
    from zoidberg.fieldtracer import FieldTracer, FieldTracerReversible

    f = nonlinear_field(case["field"])
    x, z = positions([case["n"]], case["seed"])
    ys = ygrid(case["start"], case["steps"])
    ref = FieldTracer(f).follow_field_lines(x, z, ys)
    got = FieldTracerReversible(f, nsteps=40, rtol=1e-16).follow_field_lines(x, z, ys)
    h = max(abs(s) for s in case["steps"]) / 40
    close(got, ref, 60 * h**2 + 1e-5, "agreement of the tracers")
    moved = np.max(np.abs(ref[-1] - ref[0])) > 1e-2
    return ["moved"] if moved else ["trivial"]


together_case = st.fixed_dictionaries(
    {
        "n": st.integers(2, 5),
        "axis": st.sampled_from([0, 1, 2, None]),
        "power": st.sampled_from([1, 2]),
        "rate": st.tuples(sq(0.3), q(0.2, 1.5), sq(0.3)).map(list),
        "seed": st.integers(0, 999),
        "steps": st.tuples(st.sampled_from([1.0, -1.0]), st.lists(q(0.1, 0.4), min_size=1, max_size=3)).map(
            lambda t: [t[0] * s for s in t[1]]
        ),
        "nsteps": st.integers(1, 4),
        "order": st.booleans(),
    }
)


def together(case):
    """lines around a magnetic axis, the faster the further away (some on the axis itself): each line traced together with others is the line traced alone, and obeys the implicit trapezoidal rule; trivial if nothing moves"""
    from zoidberg import field
    from zoidberg.fieldtracer import FieldTracerReversible

    a, b, c = case["rate"]
    p = case["power"]

    class Axis(field.MagneticField):
        def Bxfunc(self, x, z, phi):
            return (x**2 + z**2) ** p * (a * x - b * z)

        def Bzfunc(self, x, z, phi):
            return (x**2 + z**2) ** p * (b * x + c * z)

    f = Axis()
    rng = np.random.RandomState(case["seed"])
    x, z = rng.rand(case["n"]) - 0.5, rng.rand(case["n"]) - 0.5
    x[0] = 0.8
    if case["axis"] is not None:
        k = 1 + case["axis"] % (case["n"] - 1)
        x[k] = z[k] = 0.0
    if case["order"]:
        x, z = x[::-1].copy(), z[::-1].copy()
    ys = ygrid(0.2, case["steps"])
    tracer = FieldTracerReversible(f, nsteps=case["nsteps"], rtol=1e-18)
    got = tracer.follow_field_lines(x, z, ys)
    for i in range(case["n"]):
        one = tracer.follow_field_lines(x[i : i + 1], z[i : i + 1], ys)
        close(got[:, i : i + 1], one, 1e-8, "line traced with others")
    if case["nsteps"] == 1:
        for k, dy in enumerate(np.diff(ys)):
            x0, z0 = got[k, :, 0], got[k, :, 1]
            x1, z1 = got[k + 1, :, 0], got[k + 1, :, 1]
            for what, g, u0, u1 in (("x", f.Bxfunc, x0, x1), ("z", f.Bzfunc, z0, z1)):
                close(u1 - u0, 0.5 * dy * (g(x0, z0, 0) + g(x1, z1, 0)), 1e-8, "trapezoidal step in " + what)
    moved = np.max(np.abs(got[-1] - got[0])) > 1e-3
    return (["axis"] if case["axis"] is not None else ["no axis"]) + ([] if moved else ["trivial"])


def reject(case):
    """y values which are not a list of at least two numbers, and incompatible shapes, are rejected"""
    from zoidberg.fieldtracer import FieldTracerReversible

    tracer = FieldTracerReversible(nonlinear_field(case["field"]))
    n = case["n"]
    x = np.zeros(n)
    bad = {
        "one_y": lambda: tracer.follow_field_lines(x, x, [0.1]),
        "2d_y": lambda: tracer.follow_field_lines(x, x, [[0.1, 0.2], [0.3, 0.4]]),
        "shape": lambda: tracer.follow_field_lines(x, np.zeros(n + 1), [0.1, 0.2]),
    }[case["kind"]]
    raises(ValueError, bad, case["kind"])
    return [case["kind"]]


LAWS = [
    Law("model", model_case, model, 800, 20000),
    Law("roundtrip", roundtrip_case, roundtrip, 500, 10000),
    Law("together", together_case, together, 200, 4000),
    Law("agree", agree_case, agree, 120, 3000),
    Law(
        "reject",
        st.fixed_dictionaries(
            {
                "field": nonlinear,
                "n": st.integers(2, 5),
                "kind": st.sampled_from(["one_y", "2d_y", "shape"]),
            }
        ),
        reject,
        40,
        400,
    ),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            model_case,
            shape=lst(st.integers(5, 14), 1, 2),
            steps=st.tuples(st.sampled_from([1.0, -1.0]), lst(q(0.02, 0.2), 10, 30)).map(
                lambda t: [t[0] * s for s in t[1]]
            ),
            nsteps=st.sampled_from([13, 17, 25, 40]),
            field=linear_case,
        ),
        model,
        25,
        600,
        "as model, with many points, planes and sub-steps",
    ),
]
