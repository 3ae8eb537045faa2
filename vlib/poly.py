"""Polygons: generation and exact containment"""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st


def contains(poly, x, z):
    """Is (x,z) inside the polygon? Exact arithmetic.
    Returns True, False or None (on the boundary)"""
    x, z = Fraction(x), Fraction(z)
    p = [(Fraction(float(a)), Fraction(float(b))) for a, b in poly]
    n = len(p)
    inside = False
    for i in range(n):
        (x0, z0), (x1, z1) = p[i], p[(i + 1) % n]
        cross = (x1 - x0) * (z - z0) - (z1 - z0) * (x - x0)
        if (
            cross == 0
            and min(x0, x1) <= x <= max(x0, x1)
            and min(z0, z1) <= z <= max(z0, z1)
        ):
            return None
        # Horizontal ray towards +x
        if (z0 > z) != (z1 > z):
            xs = x0 + (z - z0) * (x1 - x0) / (z1 - z0)
            if xs > x:
                inside = not inside
    return inside


def distance(poly, x, z):
    """Distance of a point to the polygon line"""
    best = np.inf
    n = len(poly)
    p = np.array([x, z], dtype=float)
    for i in range(n):
        a = np.array(poly[i], dtype=float)
        b = np.array(poly[(i + 1) % n], dtype=float)
        d = b - a
        L = d @ d
        t = 0.0 if L == 0 else min(1.0, max(0.0, (p - a) @ d / L))
        best = min(best, float(np.linalg.norm(a + t * d - p)))
    return best


def area(poly):
    p = np.asarray(poly, dtype=float)
    x, z = p[:, 0], p[:, 1]
    return 0.5 * float(np.sum(x * np.roll(z, -1) - np.roll(x, -1) * z))


def _cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def _intersect(a, b, c, d):
    """Do the closed segments ab and cd have a common point (integers)"""

    def on(p, q, r):
        return (
            _cross(p, q, r) == 0
            and min(p[0], q[0]) <= r[0] <= max(p[0], q[0])
            and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
        )

    d1, d2 = _cross(a, b, c), _cross(a, b, d)
    d3, d4 = _cross(c, d, a), _cross(c, d, b)
    if ((d1 > 0) != (d2 > 0)) and ((d3 > 0) != (d4 > 0)) and 0 not in (d1, d2, d3, d4):
        return True
    return on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)


def is_simple(p):
    n = len(p)
    if n < 3:
        return False
    for i in range(n):
        if p[i] == p[(i + 1) % n]:
            return False
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                # adjacent edges share only their vertex
                a, b = (p[i], p[(i + 1) % n]) if j == i + 1 else (p[j], p[i])
                c = p[(i + 2) % n] if j == i + 1 else p[1]
                if _cross(a, b, c) == 0 and (
                    (c[0] - b[0]) * (a[0] - b[0]) + (c[1] - b[1]) * (a[1] - b[1]) > 0
                ):
                    return False
                continue
            if _intersect(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]):
                return False
    return True


def untangle(p):
    """2-opt: reverse sections until no edges cross"""
    p = list(p)
    n = len(p)
    for _ in range(200):
        done = True
        for i in range(n - 1):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                a, b, c, d = p[i], p[i + 1], p[j], p[(j + 1) % n]
                if _intersect(a, b, c, d):
                    p[i + 1 : j + 1] = reversed(p[i + 1 : j + 1])
                    done = False
                    break
            if not done:
                break
        if done:
            return p
    return p


def simple_polygons(lo=3, hi=9, extent=8):
    """Simple polygons with integer vertices, often with aligned vertices,
    vertical and horizontal edges"""

    def build(points):
        if is_simple(points):
            return points
        p = untangle(points)
        if is_simple(p):
            return p
        # Fall back to a star shaped polygon
        c = (sum(a for a, _ in points) / len(points), sum(b for _, b in points) / len(points))
        by_angle = {}
        for a, b in points:
            k = round(float(np.arctan2(b - c[1], a - c[0])), 6)
            if k not in by_angle:
                by_angle[k] = (a, b)
        p = [by_angle[k] for k in sorted(by_angle)]
        if is_simple(p):
            return p
        return [(0, 0), (extent, 1), (3, extent)]

    pt = st.tuples(st.integers(0, extent), st.integers(0, extent))
    return (
        st.lists(pt, min_size=lo, max_size=hi, unique=True)
        .map(build)
        .map(lambda p: [list(v) for v in p])
    )
