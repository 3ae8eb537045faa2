"""C17  Lines through unordered points"""

import sys
import types

import numpy as np
from hypothesis import strategies as st

from vlib import curves
from vlib.gen import close, larger, q, raises, snapshot, sq, store, stored, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "order: points on smooth star-shaped curves at distances which vary by less than a factor 2.5; convex curves for the method based on the convex hull; nearly circular ones which start with a wide triangle for the insertion method",
    "the alphashape package is not installed: a stand-in returns the outline of the points",
]
TWOPI = 2 * np.pi
METHODS = ["nearest", "poly", "fast", "two_opt", "convex_hull", "alphashape", "sorted"]

case_st = st.fixed_dictionaries(
    {
        "method": st.sampled_from(METHODS),
        "curve": curves.curve_case(0.12),
        "n": st.integers(8, 40),
        "jitter": q(0.0, 0.4, 8),
        "perm": st.integers(0, 99999),
        "kind": st.sampled_from(["shuffle", "shuffle", "reverse", "roll", "stride"]),
        "size": q(0.2, 2.0, 9),
        "centre": st.tuples(sq(5.0, 10), sq(5.0, 10)).map(list),
        "order": st.sampled_from([None, 1, 3]),
        "smooth": st.sampled_from([None, None, None, 4]),
    }
)


def same_cycle(line, R, Z):
    """The points of the line are R, Z in this order (from any start)"""
    n = len(R)
    assert line.R.shape == (n,) and line.Z.shape == (n,), "number of points"
    a = sorted(zip(line.R.tolist(), line.Z.tolist()))
    b = sorted(zip(R.tolist(), Z.tolist()))
    assert a == b, "the points changed"
    if 0.5 * np.sum(R * np.roll(Z, -1) - Z * np.roll(R, -1)) < 0:
        R, Z = R[::-1], Z[::-1]
    (k,) = np.nonzero((R == line.R[0]) & (Z == line.Z[0]))
    return any(np.array_equal(np.roll(R, -i), line.R) and np.array_equal(np.roll(Z, -i), line.Z) for i in k)


def run(method, r, z, outline, kw):
    from zoidberg import rzline

    if method == "alphashape":
        import shapely

        fake = types.ModuleType("alphashape")
        seen = []

        def alphashape(points, alpha):
            seen.append(sorted(map(tuple, np.asarray(points).tolist())))
            return shapely.Polygon(zip(*outline))

        fake.alphashape = alphashape
        old = sys.modules.get("alphashape")
        sys.modules["alphashape"] = fake
        try:
            line = rzline.line_from_points_alphashape(r, z, **kw)
        finally:
            if old is None:
                del sys.modules["alphashape"]
            else:
                sys.modules["alphashape"] = old
        assert seen == [sorted(zip(r.tolist(), z.tolist()))]
        return line
    if method == "sorted":
        return rzline.line_from_points(r, z, is_sorted=True, **kw)
    f = {
        "nearest": rzline.line_from_points,
        "poly": rzline.line_from_points_poly,
        "fast": rzline.line_from_points_fast,
        "two_opt": rzline.line_from_points_two_opt,
        "convex_hull": rzline.line_from_points_convex_hull,
    }[method]
    return f(r, z, **kw)


def order(case):
    """each method restores the order of shuffled points of a smooth curve; trivial if they were in order"""
    n = case["n"]
    method = case["method"]
    rng = np.random.RandomState(case["perm"])
    jitter = case["jitter"]
    curve = case["curve"]
    if method in ("convex_hull", "poly"):
        # convex
        curve = {"c": [0.3 * v for v in curve["c"]], "s": [0.3 * v for v in curve["s"]], "elong": 1.0}
    if method in ("two_opt", "poly"):
        n = min(n, 24)
    if method == "nearest":
        n = max(n, 14)
        jitter *= 0.5
    th = TWOPI * (np.arange(n) + jitter * (rng.rand(n) - 0.5) + rng.rand()) / n
    R, Z = curves.points(curve, th, case["size"], case["centre"])
    if method == "sorted":
        perm = np.arange(n)
        if case["kind"] == "reverse":
            perm = perm[::-1]
        elif case["kind"] != "shuffle":
            perm = np.roll(perm, 3)
    elif case["kind"] == "shuffle":
        perm = rng.permutation(n)
    elif case["kind"] == "reverse":
        perm = np.arange(n)[::-1]
    elif case["kind"] == "roll":
        perm = np.roll(np.arange(n), 3)
    else:
        perm = np.concatenate([np.arange(n)[i::3] for i in range(3)])
    if method == "poly":
        # A wide triangle first
        tri = [0, n // 3, (2 * n) // 3]
        if case["kind"] == "reverse":
            tri = tri[::-1]
        perm = np.array(tri + [i for i in perm if i not in tri])
    r, z = R[perm].copy(), Z[perm].copy()
    before = snapshot(r, z)
    kw = {}
    if case["order"]:
        kw["spline_order"] = case["order"]
    if case["smooth"] and method != "poly" and n >= 24 and case["order"] != 1:
        kw["smooth"] = case["smooth"]
    line = run(method, r, z, (R, Z), kw)
    unchanged(before, r, z)
    assert same_cycle(line, R, Z), f"{method}: the points are not in the order of the curve"
    assert line.spline_order == (case["order"] or 3), "spline order"
    # The line follows the curve
    if "smooth" in kw or case["order"] != 1 and n >= 20:
        t = np.linspace(0, TWOPI, 100)
        dense = TWOPI * np.arange(3000) / 3000
        d = curves.distance_to_polyline(
            *curves.points(curve, dense, case["size"], case["centre"]), *line.position(t)
        )
        lim = 0.1 if "smooth" in kw else 0.06
        assert np.max(d) < lim * case["size"], f"line {np.max(d)} away from the curve"
    else:
        close(line.Rvalue(), line.R, 1e-9, "R", 20)
    return [method] + (["trivial"] if np.array_equal(perm, np.arange(n)) and method != "sorted" else [])


any_case = st.fixed_dictionaries(
    {
        "method": st.sampled_from(["nearest", "fast", "two_opt", "convex_hull"]),
        # Also few different coordinates, i.e. many equal distances and angles
        "pts": st.sampled_from([12, 12, 2]).flatmap(
            lambda k: st.lists(
                st.tuples(st.integers(-k, k), st.integers(-k, k)).map(list),
                min_size=5,
                max_size=9,
                unique_by=tuple,
            )
        ),
        "shift": sq(0.25, 8),
    }
)


def length(R, Z):
    return float(np.sum(np.hypot(R - np.roll(R, 1), Z - np.roll(Z, 1))))


def anypoints(case):
    """any points: no point is lost or doubled; the optimised line is not longer than the one it starts from; trivial if the result has no area (rejected)"""
    P = np.array(case["pts"], dtype=float)
    r, z = P[:, 0] + case["shift"], P[:, 1].copy()
    from zoidberg import rzline

    try:
        line = run(case["method"], r, z, (r, z), {"spline_order": 1})
    except (AssertionError, AttributeError):
        # Lines need an area.  All starts of the nearest neighbour search have to have one.
        c = P - P.mean(axis=0)
        if np.linalg.matrix_rank(c) < 2:
            return ["collinear", "trivial"]
        # Zero signed area of a possible order; not judged
        return ["rejected", "trivial"]
    a = sorted(zip(line.R.tolist(), line.Z.tolist()))
    assert a == sorted(zip(r.tolist(), z.tolist())), "the points changed"
    if case["method"] == "two_opt":
        fast = rzline.line_from_points_fast(r, z, spline_order=1)
        assert length(line.R, line.Z) <= length(fast.R, fast.Z) * (1 + 1e-12), "longer than at the start"
    if case["method"] == "nearest":
        # Not longer than the nearest neighbour walk from any of the points
        D = np.hypot(r[:, None] - r, z[:, None] - z)
        ties = len(set(np.round(D[np.triu_indices(len(r), 1)], 9))) < len(r) * (len(r) - 1) // 2
        if not ties:
            best = np.inf
            for s in range(len(r)):
                walk, rest = [s], set(range(len(r))) - {s}
                while rest:
                    k = min(rest, key=lambda i: D[walk[-1], i])
                    walk.append(k)
                    rest.remove(k)
                best = min(best, length(r[walk], z[walk]))
            assert length(line.R, line.Z) <= best * (1 + 1e-9), "a walk from another start is shorter"
            return ["nearest", "compared"]
    return [case["method"]]


LAWS = [
    Law("order", case_st, order, 700),
    Law("anypoints", any_case, anypoints, 600),
]

# Sizes far above those of the other laws
LAWS += [
    Law("large", larger(case_st, n=st.integers(50, 140)), order, 25, 500, "as order, with many points"),
]

unit_case = st.fixed_dictionaries(
    {
        "method": st.sampled_from(METHODS + ["nearest"] * 3),
        "n": st.integers(6, 20),
        "seed": st.integers(0, 99999),
        "scatter": st.sampled_from([0.0, 0.1, 0.5, 3.0, 3.0]),
        "shift": st.tuples(sq(2.0, 8), sq(2.0, 8)).map(list),
        "order": st.sampled_from([1, 3]),
        "unit": units,
    }
)


def scaled(case):
    """the same points in other units: the same order, whether or not it is that of a curve; trivial if they are rejected"""
    rng = np.random.RandomState(case["seed"])
    n, u = case["n"], case["unit"]
    th = np.sort(TWOPI * (np.arange(n) + 0.6 * rng.rand(n)) / n)
    f = 1 + case["scatter"] * rng.rand(n) + 0.3 * np.cos(3 * th)
    R, Z = case["shift"][0] + f * np.cos(th), case["shift"][1] + f * np.sin(th)
    perm = np.arange(n) if case["method"] == "sorted" else rng.permutation(n)
    kw = {"spline_order": case["order"]}
    got = []
    for s in (1.0, u):
        try:
            got.append(run(case["method"], s * R[perm], s * Z[perm], (s * R, s * Z), kw))
        except AssertionError:
            got.append(None)
    a, b = got
    assert (a is None) == (b is None), f"rejected only in {'other units' if b is None else 'the first units'}"
    if a is None:
        return ["trivial"]
    close(b.R / u, a.R, 1e-12, f"R, in units of {u}", 10)
    close(b.Z / u, a.Z, 1e-12, f"Z, in units of {u}", 10)
    return [case["method"]]


LAWS += [Law("scaled", unit_case, scaled, 300, 4000)]

stored_case = st.fixed_dictionaries({"case": unit_case, "how": stored})


def stored_as(case):
    """points of whole numbers give the same line however they are stored; trivial if they are rejected"""
    c = case["case"]
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    th = np.sort(TWOPI * (np.arange(n) + 0.6 * rng.rand(n)) / n)
    s = 1000 * (1 + c["scatter"] * rng.rand(n) + 0.3 * np.cos(3 * th))
    R, Z = np.rint(900 * c["shift"][0] + s * np.cos(th)), np.rint(s * np.sin(th))
    perm = np.arange(n) if c["method"] == "sorted" else rng.permutation(n)
    got = []
    for f in (lambda v: v, lambda v: store(v, case["how"])):
        try:
            got.append(run(c["method"], f(R[perm]), f(Z[perm]), (R, Z), {"spline_order": c["order"]}))
        except AssertionError:
            got.append(None)
    a, b = got
    assert (a is None) == (b is None), f"rejected only {'as ' + case['how'] if b is None else 'as float'}"
    if a is None:
        return ["trivial"]
    if case["how"] == "float32":
        # Lengths of different orders may be equal but for rounding
        same = sorted(zip(a.R.tolist(), a.Z.tolist())) == sorted(zip(b.R.tolist(), b.Z.tolist()))
        assert same, "the points changed"
        return ["float32"]
    close(b.R, a.R, 1e-12, f"R, {case['how']}", 1000)
    close(b.Z, a.Z, 1e-12, f"Z, {case['how']}", 1000)
    return [case["how"]]


LAWS += [Law("stored", stored_case, stored_as, 200, 3000)]
