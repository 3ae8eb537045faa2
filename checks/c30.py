"""C30  Smoothing of lines with sharp edges"""

import numpy as np
from hypothesis import strategies as st

from vlib import curves
from vlib.gen import close, larger, nz, q, snapshot, unchanged
from vlib.harness import Law

ASSUMPTIONS = [
    "closed lines of distinct points; cases in which the criterion is within 1e-9 of the cutoff at any point are trivial",
    "lines of which half or more has to be replaced are rejected, and smoothing may give up (None) on edges which are not polygonal",
]


def cosines(r, z, b):
    """cos of the angle between the steps back by b and by 2 b, with the index of the middle point"""
    p = np.stack([r, z], -1)
    a, c = p - np.roll(p, b, 0), p - np.roll(p, 2 * b, 0)
    cos = (a * c).sum(-1) / np.hypot(*a.T) / np.hypot(*c.T)
    return np.roll(cos, -b)


def outliers(r, z, cutoff, reach):
    """Indices of the sharp points, and whether it is close to call"""
    out, tight = set(), False
    for b in range(1, reach + 1):
        c = cosines(r, z, b)
        tight = tight or bool(np.any(np.abs(c - cutoff) < 1e-9)) or not np.all(np.isfinite(c))
        out |= set(np.nonzero(c < cutoff)[0].tolist())
    return sorted(out), tight


def runs(out, bounds, n):
    """Ranges of indices (modulo n) within bounds of the sharp points"""
    mask = np.zeros(n, bool)
    for o in out:
        mask[np.arange(o - bounds, o + bounds + 1) % n] = True
    if mask.all():
        return [list(range(n))]
    first = int(np.argmin(mask))
    res, cur = [], []
    for i in range(first, first + n):
        if mask[i % n]:
            cur.append(i % n)
        elif cur:
            res.append(cur)
            cur = []
    if cur:
        res.append(cur)
    return res


def call(r, z, case, **kw):
    from zoidberg.smooth import smooth

    before = snapshot(r, z)
    args = dict(cutoff=case["cutoff"], bounds=case["bounds"], **kw)
    if case["cutoff"] == 0.75:
        # The documented defaults
        args.pop("cutoff")
    if case["bounds"] == 10:
        args.pop("bounds")
    if case["find"]:
        args["bounds_find"] = case["find"]
    if case["plot"]:
        import matplotlib.pyplot as plt

        plt.figure()
        args["plot"] = True
    try:
        res = smooth(r, z, **args)
    except ValueError as e:
        assert "Too many" in str(e), e
        res = "rejected"
    finally:
        if case["plot"]:
            plt.close("all")
    unchanged(before, r, z)
    return res


options = {
    "n": st.integers(90, 400),
    "bounds": st.integers(2, 12),
    "find": st.sampled_from([None, None, 1, 2, 5]),
    "cutoff": st.one_of(q(0.55, 0.97, 40), q(0.55, 0.97, 40), q(0.55, 0.97, 40), st.just(0.75)),
    "roll": st.integers(0, 9999),
    "plot": st.sampled_from([False] * 30 + [True]),
}

poly_case = st.fixed_dictionaries(
    {
        **options,
        "corners": st.lists(st.tuples(q(0, 0.35, 12), q(0.8, 1.25, 12)).map(list), min_size=3, max_size=8),
        "elong": q(0.7, 1.4, 6),
        "offset": q(0, 1, 37),
        "angle": q(0, 6.2, 17),
    }
)


def polygon(case):
    k = len(case["corners"])
    th = 2 * np.pi * (np.arange(k) + np.array([c[0] for c in case["corners"]])) / k
    rad = np.array([c[1] for c in case["corners"]])
    V = np.stack([3 + rad * np.cos(th), case["elong"] * rad * np.sin(th)], -1)
    V = np.concatenate([V, V[:1]])
    s = np.concatenate([[0], np.cumsum(np.hypot(*np.diff(V, axis=0).T))])
    t = (np.arange(case["n"]) + case["offset"]) / case["n"] * s[-1]
    return np.interp(t, s, V[:, 0]), np.interp(t, s, V[:, 1])


def polygons(case):
    """closed polygons with 3 to 8 corners: exactly the points within the given range of sharp points are replaced, by cubics which start and end where the original points are, with the direction of the line; the same wherever the line starts and however it is rotated; trivial if there is no sharp point or half of the points would be replaced"""
    r, z = polygon(case)
    n, bounds = case["n"], case["bounds"]
    out, tight = outliers(r, z, case["cutoff"], case["find"] or bounds)
    if tight:
        return ["trivial"]
    w = runs(out, bounds, n)
    res = call(r, z, case)
    if max([len(x) for x in w], default=0) >= n / 2:
        assert isinstance(res, str), "replaced half of the line"
        return ["trivial", "rejected"]
    assert res is not None and not isinstance(res, str), "failed for a polygon"
    R, Z = np.asarray(res[0]), np.asarray(res[1])
    assert R.shape == r.shape and Z.shape == z.shape, "number of points"
    assert np.all(np.isfinite(R)) and np.all(np.isfinite(Z))
    inside = np.zeros(n, bool)
    for x in w:
        inside[x] = True
    assert np.array_equal(R[~inside], r[~inside]) and np.array_equal(Z[~inside], z[~inside]), (
        "changed points away from the edges"
    )
    if not out:
        return ["trivial", "nothing to do"]
    for x in w:
        x = np.array(x)
        S = np.linspace(0, 1, len(x))
        old = np.stack([r[x], z[x]], -1)
        new = np.stack([R[x], Z[x]], -1)
        size = float(np.hypot(*np.diff(old, axis=0).T).sum())
        if len(x) > 4:
            assert np.max(np.abs(np.diff(new, 4, axis=0))) < 1e-11, "not a cubic"
        before = old[0] - np.array([r[x[0] - 1], z[x[0] - 1]])
        after = np.array([r[(x[-1] + 1) % n], z[(x[-1] + 1) % n]]) - old[-1]
        steps = np.diff(np.concatenate([old[:1] - before, old, old[-1:] + after]), axis=0)
        turn = np.abs(np.diff(np.unwrap(np.arctan2(steps[:, 1], steps[:, 0])))).sum()
        # One corner in the range, rather than several
        simple = turn < 1.8 and len(x) < n / 4
        for e in (0, -1):
            d = np.hypot(*(new[e] - old[e]))
            assert d <= (0.003 if simple else 0.05) * size, (
                f"end of the replaced range moved by {d} (range {size})"
            )
        if simple and len(x) > 3:
            L = np.hypot(*np.diff(new, axis=0).T).sum()
            assert L <= 1.005 * size, f"longer than before: {L} {size}"
            c = np.polyfit(S, new, 3)
            t0, t1 = c[2], 3 * c[0] + 2 * c[1] + c[2]
            for t, u, name in ((t0, before, "start"), (t1, after, "end")):
                cos = t @ u / np.hypot(*t) / np.hypot(*u)
                assert cos > 0.99, f"direction at the {name} of the range: cos {cos}"
    # The same line, starting elsewhere, and rotated
    s = case["roll"] % n
    c, d = np.cos(case["angle"]), np.sin(case["angle"])
    r2, z2 = np.roll(c * r - d * z + 1, s), np.roll(d * r + c * z - 2, s)
    out2, tight = outliers(r2, z2, case["cutoff"], case["find"] or bounds)
    if tight or out2 != sorted((o + s) % n for o in out):
        return ["tight"]
    res2 = call(r2, z2, dict(case, plot=False))
    assert res2 is not None and not isinstance(res2, str), "failed after rotation"
    close(res2[0], np.roll(c * R - d * Z + 1, s), 1e-6, "R, rotated, starting elsewhere")
    close(res2[1], np.roll(d * R + c * Z - 2, s), 1e-6, "Z, rotated, starting elsewhere")
    seam = any((x[0] + s) % n > (x[-1] + s) % n for x in w)
    return ["across the first point"] if seam else []


spike_case = st.fixed_dictionaries(
    {
        **options,
        "curve": curves.curve_case(),
        "spikes": st.lists(
            st.tuples(q(0, 1, 50), nz(0.03, 0.3, 10), q(0.02, 0.2, 9)).map(list), min_size=0, max_size=2
        ),
    }
)


def spikes(case):
    """smooth curves with up to two spikes, which are not changed if there is no sharp point, and only close to sharp points otherwise; wherever the line starts; trivial if there is no sharp point, or smoothing fails"""
    n, bounds = case["n"], case["bounds"]
    th = 2 * np.pi * np.arange(n) / n
    R0, Z0 = curves.points(case["curve"], th)
    f = np.ones(n)
    for at, h, width in case["spikes"]:
        d = np.abs((th - 2 * np.pi * at + np.pi) % (2 * np.pi) - np.pi)
        f = f + h * np.maximum(0, 1 - d / width)
    r, z = 3 + (R0 - 3) * f, Z0 * f
    out, tight = outliers(r, z, case["cutoff"], case["find"] or bounds)
    if tight:
        return ["trivial"]
    res = call(r, z, case)
    if not out:
        assert res is not None and not isinstance(res, str), "failed"
        assert np.array_equal(res[0], r) and np.array_equal(res[1], z), (
            "changed, although there is no sharp point"
        )
        return ["nothing to do"]
    w = runs(out, bounds, n)
    if max([len(x) for x in w], default=0) >= n / 2:
        assert isinstance(res, str), "replaced half of the line"
        return ["trivial", "rejected"]
    if res is None or isinstance(res, str):
        return ["trivial", "failed"]
    R, Z = res
    assert R.shape == r.shape and Z.shape == z.shape, "number of points"
    changed = (R != r) | (Z != z)
    far = np.ones(n, bool)
    for x in runs(out, 5 * bounds + 1, n):
        far[x] = False
    assert not np.any(changed & far), "changed points far away from the edges"
    s = case["roll"] % n
    r2, z2 = np.roll(r, s), np.roll(z, s)
    res2 = call(r2, z2, dict(case, plot=False))
    assert res2 is not None and not isinstance(res2, str), "failed when starting elsewhere"
    close(res2[0], np.roll(R, s), 1e-9, "R, starting elsewhere")
    close(res2[1], np.roll(Z, s), 1e-9, "Z, starting elsewhere")
    return ["smoothed"]


LAWS = [
    Law("polygons", poly_case, polygons, 800),
    Law("spikes", spike_case, spikes, 600),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(poly_case, n=st.integers(500, 2000)),
        polygons,
        30,
        500,
        "as polygons, with many points",
    ),
]
