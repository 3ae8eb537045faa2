"""C10  Boundaries decide correctly whether a point is outside"""

import numpy as np
from hypothesis import strategies as st

from vlib import poly
from vlib.gen import larger, snapshot, sq, store, stored, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "simple polygons; points exactly on a polygon line are not judged",
    "coordinates are multiples of a power of two times a factor, so that the exact answer is that of the rounded input",
]

poly_case = st.fixed_dictionaries(
    {
        "poly": poly.simple_polygons(3, 10),
        "points": st.lists(
            st.tuples(st.integers(-8, 40), st.integers(-8, 48)).map(list), min_size=1, max_size=20
        ),
        "rot": st.integers(0, 9),
        "reverse": st.booleans(),
        "scale": st.sampled_from([1.0, 0.25, 1.0 / 64, 3.0, 1024.0, 2.0**-23, 2.0**23]),
        "squeeze": st.sampled_from([1.0, 2.0**-10, 2.0**-20]),
        "shift": st.tuples(st.integers(-20, 20), st.integers(-20, 20)).map(list),
        "as": st.sampled_from(["1d", "2d", "scalar"]),
        "list": st.booleans(),
        "close": st.booleans(),
    }
)


def polygon(case):
    """points in quarters of the vertex spacing: most share x with a vertex, many are above, below or within reach of vertical edges; trivial if all points are on the line"""
    from zoidberg.boundary import PolygonBoundaryXZ

    s = case["scale"]
    sx = s * case["squeeze"]
    shift = case["shift"]
    p = [list(v) for v in case["poly"]]
    k = case["rot"] % len(p)
    p = p[k:] + p[:k]
    if case["reverse"]:
        p = p[::-1]
    P = [((v[0] + shift[0]) * sx, (v[1] + shift[1]) * s) for v in p]
    pts = [((v[0] / 4 + shift[0]) * sx, (v[1] / 4 + shift[1]) * s) for v in case["points"]]
    xa = [v[0] for v in P]
    za = [v[1] for v in P]
    if case["close"]:
        # Many programs repeat the first point
        xa.append(xa[0])
        za.append(za[0])
    if not case["list"]:
        xa, za = np.array(xa), np.array(za)
    before = snapshot(xa, za)
    b = PolygonBoundaryXZ(xa, za)
    x = np.array([v[0] for v in pts])
    z = np.array([v[1] for v in pts])
    expect = [poly.contains(P, *v) for v in pts]
    if case["as"] == "2d":
        x, z = np.stack([x, x]), np.stack([z, z])
        got = b.outside(x, 0.3, z)
        assert got.shape == x.shape
        assert np.array_equal(got[0], got[1])
        got = got[0]
    elif case["as"] == "scalar":
        got = [bool(b.outside(np.array(v[0]), 0.3, np.array(v[1]))) for v in pts]
    else:
        xz = snapshot(x, z)
        got = b.outside(x, np.zeros(len(pts)), z)
        unchanged(xz, x, z)
    unchanged(before, xa, za, what="polygon")
    labels = set()
    for v, g, e in zip(pts, got, expect):
        if e is None:
            continue
        assert bool(g) == (not e), f"point {v} of polygon {P}: outside={bool(g)}"
        labels.add("inside" if e else "outside")
        if any(v[0] == c[0] for c in P):
            labels.add("aligned with vertex")
    return sorted(labels) or ["trivial"]


rect_case = st.fixed_dictionaries(
    {
        "x": st.tuples(sq(4.0), st.integers(1, 32)).map(lambda t: [t[0], t[0] + t[1] / 8]),
        "z": st.tuples(sq(4.0), st.integers(1, 32)).map(lambda t: [t[0], t[0] + t[1] / 8]),
        "points": st.lists(st.tuples(sq(9.0, 72), sq(9.0, 72)).map(list), min_size=1, max_size=20),
        "edge": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 8)).map(list), max_size=4),
        "two_d": st.booleans(),
        "unit": st.one_of(st.just(1.0), units),
    }
)


def rectangle(case):
    """points in and around a box, and on its edges, which belong to the domain"""
    from zoidberg.boundary import NoBoundary, RectangularBoundaryXZ

    u = case["unit"]
    (x0, x1), (z0, z1) = [[u * v for v in case[k]] for k in "xz"]
    b = RectangularBoundaryXZ(x0, x1, z0, z1)
    pts = [(u * p[0], u * p[1]) for p in case["points"]]
    for side, t in case["edge"]:
        xm, zm = x0 + (x1 - x0) * t / 8, z0 + (z1 - z0) * t / 8
        pts.append([(x0, zm), (x1, zm), (xm, z0), (xm, z1)][side])
    x = np.array([p[0] for p in pts])
    z = np.array([p[1] for p in pts])
    expect = np.array([not (x0 <= p[0] <= x1 and z0 <= p[1] <= z1) for p in pts])
    if case["two_d"]:
        x, z, expect = x[:, None], z[:, None], expect[:, None]
    got = b.outside(x, 1.0, z)
    assert np.shape(got) == x.shape
    assert np.array_equal(np.asarray(got, dtype=bool), expect), f"box {case['x']} {case['z']} points {pts}"
    none = NoBoundary().outside(x, 1.0, z)
    assert none.shape == x.shape and not np.any(none)
    return (["some inside"] if not np.all(expect) else []) + (["some outside"] if np.any(expect) else [])


LAWS = [
    Law("polygon", poly_case, polygon, 2500, 50000),
    Law("rectangle", rect_case, rectangle, 600, 5000),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            poly_case,
            poly=poly.simple_polygons(12, 40, 24),
            points=st.lists(
                st.tuples(st.integers(-8, 120), st.integers(-8, 120)).map(list), min_size=40, max_size=90
            ),
        ),
        polygon,
        60,
        1500,
        "as polygon, with many vertices and points",
    ),
]

stored_case = st.fixed_dictionaries(
    {
        "poly": poly.simple_polygons(3, 8),
        "points": st.lists(
            st.tuples(st.integers(-2, 12), st.integers(-2, 12)).map(list), min_size=1, max_size=12
        ),
        "how": stored,
        "which": st.sampled_from(["polygon", "points", "both"]),
    }
)


def stored_as(case):
    """whole numbers give the same answer however they are stored; trivial never"""
    from zoidberg.boundary import PolygonBoundaryXZ, RectangularBoundaryXZ

    P, Q = np.array(case["poly"], dtype=float), np.array(case["points"], dtype=float)
    x, z = Q[:, 0].copy(), Q[:, 1].copy()
    xa, za = P[:, 0].copy(), P[:, 1].copy()
    f, g = (lambda v: store(v, case["how"])), (lambda v: v)
    fp = f if case["which"] != "points" else g
    fq = f if case["which"] != "polygon" else g
    a = PolygonBoundaryXZ(xa, za).outside(x, 0.5, z)
    b = PolygonBoundaryXZ(fp(xa), fp(za)).outside(fq(x), 0.5, fq(z))
    assert np.array_equal(a, b), f"polygon {case['poly']}, points {case['points']}, {case['how']}: {b}"
    box = [P[:, 0].min(), P[:, 0].max(), P[:, 1].min(), P[:, 1].max()]
    a = RectangularBoundaryXZ(*box).outside(x, 0.5, z)
    b = RectangularBoundaryXZ(*[fp(v)[()] for v in box]).outside(fq(x), 0.5, fq(z))
    assert np.array_equal(a, b), f"box {box}, points {case['points']}, {case['how']}: {b}"
    return [case["how"]]


LAWS += [Law("stored", stored_case, stored_as, 300, 4000)]
