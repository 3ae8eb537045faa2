"""C01  The field-line tracer follows the field lines of the field it was given"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import (
    close,
    linear_case,
    linear_field,
    positions,
    q,
    raises,
    shapes,
    snapshot,
    sq,
    unchanged,
    ygrid,
)
from vlib.harness import Law

ASSUMPTIONS = [
    "fields whose lines are linear in position and forced harmonically in y; exact by matrix exponential",
    "tolerance 3e-6 times the growth of errors along the line (odeint default tolerance is 1.5e-8 per step)",
]

# Also positions which are the same, or nearly the same, as the one before
length = st.one_of(q(0.02, 1.0), q(0.02, 1.0), st.sampled_from([0.0, 1e-9, 1e-6, 1e-4]))
steps = st.tuples(st.sampled_from([1.0, -1.0]), st.lists(length, min_size=1, max_size=4)).map(
    lambda t: [t[0] * s for s in t[1]]
)

exact_case = st.fixed_dictionaries(
    {
        "field": linear_case,
        "shape": shapes,
        "seed": st.integers(0, 999),
        "start": sq(4.0),
        "steps": steps,
        "rtol": st.sampled_from([None, 1e-6, 1e-9]),
        "as": st.sampled_from(["array", "list", "int", "fortran"]),
    }
)


def tolerance(lines, ys, rtol):
    base = 3e-6 if rtol != 1e-6 else 2e-4
    return base * lines.growth(ys[-1] - ys[0])


def exact(case):
    """lines of 1 or more points, of any shape, compared with the exact solution; trivial if the lines do not move"""
    from zoidberg.fieldtracer import FieldTracer

    f, lines = linear_field(case["field"])
    x, z = positions(case["shape"], case["seed"], integer=case["as"] == "int")
    ys = ygrid(case["start"], case["steps"])
    expect = lines.exact_all(x, z, ys)
    xi, zi, yi = x, z, ys
    if case["as"] == "list":
        xi, zi, yi = np.asarray(x).tolist(), np.asarray(z).tolist(), ys.tolist()
    elif case["as"] == "fortran":
        xi, zi = np.asfortranarray(x), np.asfortranarray(z)
    before = snapshot(xi, zi, yi)
    tracer = FieldTracer(f)
    got = tracer.follow_field_lines(xi, zi, yi, rtol=case["rtol"])
    unchanged(before, xi, zi, yi)
    close(got, expect, tolerance(lines, ys, case["rtol"]), "field line position", 3.0)
    # Start is exact
    close(got[0], expect[0], 1e-13, "first row", 5.0)
    # Same tracer, second call
    again = tracer.follow_field_lines(xi, zi, yi, rtol=case["rtol"])
    close(again, got, 0.0, "repeated call")
    moved = np.max(np.abs(expect[-1] - expect[0])) > 1e-3
    labels = [f"ndim{expect.ndim - 2}", case["as"], "backward" if ys[1] < ys[0] else "forward"]
    return labels if moved else labels + ["trivial"]


big_case = st.fixed_dictionaries(
    {
        "field": linear_case,
        "n": st.sampled_from([997, 999, 1000, 1001, 1003, 1999, 2000, 2001, 2999, 3001]),
        "two_d": st.booleans(),
        "seed": st.integers(0, 999),
        "start": sq(4.0),
        "steps": steps,
    }
)


def big(case):
    """around and beyond the size where the tracer splits its work into pieces; non-trivial from 1000 points"""
    from zoidberg.fieldtracer import FieldTracer

    f, lines = linear_field(case["field"])
    n = case["n"]
    shape = [n]
    if case["two_d"]:
        m = 7 if n % 7 == 0 else 5
        shape = [m, n // m + 1]
    x, z = positions(shape, case["seed"])
    ys = ygrid(case["start"], case["steps"])
    before = snapshot(x, z, ys)
    got = FieldTracer(f).follow_field_lines(x, z, ys)
    unchanged(before, x, z, ys)
    # The error is controlled in the rms over all lines which are traced together
    tol = tolerance(lines, ys, None) * np.sqrt(n)
    close(got, lines.exact_all(x, z, ys), min(tol, 1e-3), "field line position", 3.0)
    labels = ["chunked" if x.size >= 1000 else "trivial"]
    return labels


accuracy_case = st.fixed_dictionaries(
    {
        "rate": st.sampled_from([1.0, -1.0, 0.75, -1.5]),
        "grow": sq(0.2, 4),
        "By": st.sampled_from([1.0, -0.5, 2.0]),
        "n": st.sampled_from([1, 2, 5, 999, 1000, 1200, 2001]),
        "seed": st.integers(0, 999),
        "steps": st.tuples(st.sampled_from([1.0, -1.0]), st.integers(4, 9)).map(lambda t: [t[0]] * t[1]),
    }
)


def accuracy(case):
    """positions so large that the relative tolerance decides: a tight one is kept to; trivial if the lines turn little"""
    from zoidberg.field import MagneticField
    from zoidberg.fieldtracer import FieldTracer

    a, g, By = case["rate"], case["grow"] / 4, case["By"]

    class Turning(MagneticField):
        def Bxfunc(self, x, z, phi):
            return By * (g * x - a * z)

        def Byfunc(self, x, z, phi):
            return np.full_like(x, By)

        def Bzfunc(self, x, z, phi):
            return By * (a * x + g * z)

    rng = np.random.RandomState(case["seed"])
    w = 1e4 * (rng.uniform(0.5, 1, case["n"]) * np.exp(1j * rng.uniform(0, 6, case["n"])))
    ys = ygrid(0.0, case["steps"])
    got = FieldTracer(Turning()).follow_field_lines(w.real, w.imag, ys, rtol=1e-11)
    expect = w * np.exp((g + 1j * a) * ys[:, None])
    size = np.maximum(1.0, np.exp(np.abs(g * ys[-1])))
    # Measured 1e-10; the default tolerance gives 3e-8 or more
    close(
        (got[..., 0] + 1j * got[..., 1]) / 1e4,
        expect / 1e4,
        2e-9 * size,
        "position with tight tolerance",
        1.0,
    )
    return ["chunked" if case["n"] >= 1000 else "together"]


batch_case = st.fixed_dictionaries(
    {
        "field": linear_case,
        "n": st.integers(2, 6),
        "seed": st.integers(0, 999),
        "steps": steps,
    }
)


def batch(case):
    """each line traced alone gives the same line as when traced with others, also via interrupted tracing (restart at an intermediate y)"""
    from zoidberg.fieldtracer import FieldTracer

    f, lines = linear_field(case["field"])
    x, z = positions([case["n"]], case["seed"])
    ys = ygrid(0.3, case["steps"])
    tracer = FieldTracer(f)
    all_ = tracer.follow_field_lines(x, z, ys)
    tol = tolerance(lines, ys, None)
    for i in range(case["n"]):
        one = tracer.follow_field_lines(x[i], z[i], ys)
        close(one, all_[:, i : i + 1], 2 * tol, "line traced alone", 3.0)
    if len(ys) > 2:
        rest = tracer.follow_field_lines(all_[1, :, 0], all_[1, :, 1], ys[1:])
        close(rest, all_[1:], 2 * tol, "restarted line", 3.0)
    back = tracer.follow_field_lines(all_[-1, :, 0], all_[-1, :, 1], ys[::-1])
    close(back[::-1], all_, 2 * tol * lines.growth(ys[-1] - ys[0]), "line traced back", 3.0)
    return ["restart" if len(ys) > 2 else "single"]


reject_case = st.fixed_dictionaries(
    {
        "field": linear_case,
        "kind": st.sampled_from(["one_y", "no_y", "2d_y", "shape"]),
        "shape": st.tuples(
            st.lists(st.integers(1, 4), min_size=1, max_size=2),
            st.lists(st.integers(1, 4), min_size=1, max_size=2),
        ).map(list),
    }
)


def reject(case):
    """invalid y values or incompatible shapes are rejected; trivial if the shapes are compatible after all"""
    from zoidberg.fieldtracer import FieldTracer

    f, _ = linear_field(case["field"])
    tracer = FieldTracer(f)
    x = np.zeros(3)
    z = np.ones(3)
    kind = case["kind"]
    if kind == "one_y":
        raises(ValueError, lambda: tracer.follow_field_lines(x, z, [0.5]), kind)
    elif kind == "no_y":
        raises(ValueError, lambda: tracer.follow_field_lines(x, z, []), kind)
    elif kind == "2d_y":
        raises(
            ValueError,
            lambda: tracer.follow_field_lines(x, z, [[0.0, 0.1], [0.2, 0.3]]),
            kind,
        )
    else:
        a, b = case["shape"]
        x = np.zeros(a)
        z = np.zeros(b)
        if x.shape == z.shape or x.size == 1 or z.size == 1:
            return ["trivial"]
        raises(ValueError, lambda: tracer.follow_field_lines(x, z, [0.0, 0.1]), kind)
    return [kind]


LAWS = [
    Law("exact", exact_case, exact, 1200, 30000),
    Law("big", big_case, big, 40, 800),
    Law("accuracy", accuracy_case, accuracy, 40, 800),
    Law("batch", batch_case, batch, 160, 4000),
    Law("reject", reject_case, reject, 80, 500),
]
