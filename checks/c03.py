"""C03  Poincare tracing returns the crossings of the requested planes, in order"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, larger, linear_field, lst, positions, q, raises, snapshot, sq, unchanged
from vlib.harness import Law

ASSUMPTIONS = [
    "field lines which rotate about an axis and oscillate: known exactly by matrix exponential",
]

rotating = st.fixed_dictionaries(
    {
        "M": st.tuples(sq(0.05), q(-0.7, 0.7), q(-0.7, 0.7)).map(lambda t: [t[0], t[1], -t[1], -t[0]]),
        "c": st.tuples(sq(2.0), sq(2.0)).map(list),
        "u": st.tuples(sq(0.1), sq(0.1)).map(list),
        "w": st.tuples(sq(0.4), sq(0.4)).map(list),
        "k": q(0.5, 3.0),
        "p": q(0.0, 3.0),
        "R": st.sampled_from(["none", "const", "varying"]),
        "By": st.sampled_from([1.0, -1.5, 0.5]),
        "ripple": q(0.0, 0.5),
        "combined": st.booleans(),
    }
)

common = {
    "field": rotating,
    "shape": st.lists(st.integers(1, 3), min_size=1, max_size=2),
    "seed": st.integers(0, 999),
    "yperiod": st.one_of(
        q(3.0, 0.25), st.sampled_from([2 * np.pi, 2 * np.pi / 5, 2 * np.pi / 3, 1.1, 0.7, 0.1])
    ),
    "revs": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 9)),
    "nover": st.integers(1, 6),
}

equal_case = st.fixed_dictionaries({**common, "nplot": st.integers(1, 5)})
slices_case = st.fixed_dictionaries(
    {
        **common,
        # fractions of the period
        "slices": st.lists(
            st.one_of(st.integers(0, 32), st.sampled_from([0, 32])), min_size=1, max_size=5, unique=True
        ),
        "nplot": st.sampled_from([3, None, 1]),
        "as": st.sampled_from(["array", "list"]),
    }
)


def expected(lines, x, z, slices, yperiod, revs):
    out = np.empty((revs, len(slices)) + x.shape + (2,))
    for n in range(revs):
        for k, s in enumerate(slices):
            out[n, k, ..., 0], out[n, k, ..., 1] = lines.exact(x, z, slices[0], n * yperiod + s)
    return out


def compare(case, lines, got, slices, x, z):
    expect = expected(lines, x, z, slices, case["yperiod"], case["revs"])
    span = case["yperiod"] * case["revs"]
    close(got, expect, 2e-5, "crossing", 3.0 * (1 + span) * np.exp(0.1 * span))
    moved = np.max(np.abs(expect - expect[0, 0])) > 1e-2
    return ["multiple revolutions" if case["revs"] > 1 else "one revolution"] + ([] if moved else ["trivial"])


def equal(case):
    """nplot equally spaced planes; trivial if the lines do not move"""
    from zoidberg.fieldtracer import trace_poincare

    if case["revs"] * case["nplot"] < 2:
        # A single position is not a line
        case = dict(case, revs=2)
    f, lines = linear_field(case["field"])
    x, z = positions(case["shape"], case["seed"])
    before = snapshot(x, z)
    got, ysl = trace_poincare(
        f, x, z, case["yperiod"], nplot=case["nplot"], revs=case["revs"], nover=case["nover"]
    )
    unchanged(before, x, z)
    slices = case["yperiod"] * np.arange(case["nplot"]) / case["nplot"]
    close(ysl, slices, 1e-12, "planes", 3.0)
    return compare(case, lines, got, slices, x, z)


def given(case):
    """planes given in any order; trivial if the lines do not move"""
    from zoidberg.fieldtracer import trace_poincare

    if case["revs"] * len(case["slices"]) < 2:
        case = dict(case, revs=2)
    f, lines = linear_field(case["field"])
    x, z = positions(case["shape"], case["seed"])
    ysl_in = np.array(case["slices"]) / 32.0 * case["yperiod"]
    if case["as"] == "list":
        ysl_in = ysl_in.tolist()
    before = snapshot(x, z, ysl_in)
    got, ysl = trace_poincare(
        f,
        x,
        z,
        case["yperiod"],
        nplot=case["nplot"],
        y_slices=ysl_in,
        revs=case["revs"],
        nover=case["nover"],
    )
    unchanged(before, x, z, ysl_in)
    slices = np.sort(before[2])
    close(ysl, slices, 1e-12, "planes", 3.0)
    labels = compare(case, lines, got, slices, x, z)
    return labels + (["unsorted"] if np.any(np.diff(before[2]) < 0) else [])


reject_case = st.fixed_dictionaries(
    {
        "field": rotating,
        "yperiod": q(0.25, 3.0),
        "slices": st.lists(st.integers(0, 32), min_size=0, max_size=3),
        "bad": st.sampled_from([-2.0, -0.03, -1e-5, 1.00001, 1.03, 3.0, "none"]),
        "at": st.integers(0, 3),
    }
)


def reject(case):
    """planes outside [0, period], or no planes at all, are rejected"""
    from zoidberg.fieldtracer import trace_poincare

    f, _ = linear_field(case["field"])
    if case["bad"] == "none":
        raises(
            ValueError,
            lambda: trace_poincare(f, [0.0], [0.0], case["yperiod"], nplot=None),
            "no planes",
        )
        return ["none"]
    sl = [s / 32.0 * case["yperiod"] for s in case["slices"]]
    sl.insert(case["at"], case["bad"] * case["yperiod"])
    raises(
        ValueError,
        lambda: trace_poincare(f, [0.0], [0.0], case["yperiod"], y_slices=sl, revs=2),
        f"planes {sl} in period {case['yperiod']}",
    )
    return ["outside"]


LAWS = [
    Law("equal", equal_case, equal, 400, 10000),
    Law("given", slices_case, given, 600, 15000),
    Law("reject", reject_case, reject, 60, 600),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "many equal",
        larger(
            equal_case, shape=lst(st.integers(4, 9), 1, 2), revs=st.integers(12, 40), nplot=st.integers(6, 11)
        ),
        equal,
        12,
        300,
        "as equal, with many revolutions, planes and points",
    ),
    Law(
        "many given",
        larger(
            slices_case,
            shape=lst(st.integers(4, 9), 1, 2),
            revs=st.integers(12, 40),
            slices=st.lists(st.integers(0, 32), min_size=6, max_size=14, unique=True),
        ),
        given,
        12,
        300,
        "as given, with many revolutions, planes and points",
    ),
]
