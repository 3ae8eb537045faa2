"""Closed star-shaped curves"""

import numpy as np
from hypothesis import strategies as st

from vlib.gen import q, sq


def curve_case(amp=0.12, kmax=3):
    return st.fixed_dictionaries(
        {
            "c": st.lists(sq(amp / kmax, 6), min_size=kmax - 1, max_size=kmax - 1),
            "s": st.lists(sq(amp / kmax, 6), min_size=kmax - 1, max_size=kmax - 1),
            "elong": q(0.75, 1.5, 6),
        }
    )


def points(case, theta, size=1.0, centre=(3.0, 0.0)):
    """R, Z on the curve at the angles theta"""
    theta = np.asarray(theta, dtype=float)
    r = np.ones_like(theta)
    for k, (c, s) in enumerate(zip(case["c"], case["s"])):
        r = r + c * np.cos((k + 2) * theta) + s * np.sin((k + 2) * theta)
    r = size * r
    return centre[0] + r * np.cos(theta), centre[1] + case["elong"] * r * np.sin(theta)


def on_points(R, Z):
    """Total length of the polygon"""
    return float(np.sum(np.hypot(R - np.roll(R, 1), Z - np.roll(Z, 1))))


def distance_to_polyline(R, Z, r, z):
    """Distance of each (r,z) to the closed polygon (R,Z)"""
    A = np.stack([R, Z], -1)
    B = np.roll(A, -1, axis=0)
    p = np.stack([np.ravel(r), np.ravel(z)], -1)
    d = B - A
    L = np.maximum((d**2).sum(-1), 1e-300)
    t = np.clip(((p[:, None, :] - A) * d).sum(-1) / L, 0, 1)
    near = A + t[..., None] * d
    return np.sqrt(((near - p[:, None, :]) ** 2).sum(-1)).min(axis=1).reshape(np.shape(r))
