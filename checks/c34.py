"""C34  Field lines and field strength from EMC3 grids"""

import numpy as np
from hypothesis import strategies as st

from vlib import emc3
from vlib.gen import LinearLines, close, larger, q, raises, snapshot, sq, unchanged
from vlib.harness import Law

emc3.install()

ASSUMPTIONS = [
    "xemc3 and eudist are stand-ins: planes are interpolated linearly in the angle, and cells are found exactly",
    "mesh lines are exact field lines of an affine system, so that the cell coordinates of a line never change and the exact result is known for any mesh; lines which leave the mesh at the end of a period are trivial",
]

mesh = {
    "nr": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "nt": st.integers(4, 9),
    "np": st.integers(1, 4),
    "uneven": st.booleans(),
    "jitter": q(0.0, 0.2, 4),
    "r": st.tuples(q(0.05, 0.3, 5), q(0.9, 1.5, 6)).map(list),
    "elong": q(0.6, 1.6, 5),
    "open": st.booleans(),
    "seed": st.integers(0, 9999),
    "nfp": st.sampled_from([1, 2, 5]),
    "start": sq(1.0, 8),
    "zone_dim": st.booleans(),
}

lines_case = {
    "M": st.tuples(sq(0.05, 4), q(-0.7, 0.7, 14), q(-0.7, 0.7, 14)).map(lambda t: [t[0], t[1], -t[1], -t[0]]),
    "u": st.tuples(sq(0.02, 4), sq(0.02, 4)).map(list),
    "w": st.tuples(sq(0.1, 4), sq(0.1, 4)).map(list),
    "p": q(0.0, 3.0, 8),
}


def build(case):
    """Tracer, planes, maps to the planes from the first, zones at the first plane"""
    from zoidberg import field, fieldtracer

    rng = np.random.RandomState(case["seed"])
    spec = {**case, "c": [5.0, 0.5], "k": float(case["nfp"])}
    lines = LinearLines(spec)
    period = 2 * np.pi / case["nfp"]
    n = case["np"]
    phis = np.linspace(0, 1, n + 1)
    if case["uneven"] and n > 1:
        phis[1:-1] += 0.3 * (rng.rand(n - 1) - 0.5) / n
    phis = case["start"] + period * phis
    # Zones are rings, one around the other, with different meshes in each
    edges = np.linspace(*case["r"], len(case["nr"]) + 1)
    zones = []
    last = None
    for k, nr in enumerate(case["nr"]):
        r = np.linspace(edges[k], edges[k + 1], nr + 1)[:, None]
        t = np.linspace(0, 2 * np.pi * (0.7 if case["open"] else 1.0), case["nt"] + 1)[None, :]
        r, t = r + 0 * t, t + 0 * r
        h = case["jitter"]
        dr = h * (rng.rand(*r.shape) - 0.5) * (edges[1] - edges[0]) / nr
        dt = h * (rng.rand(*r.shape) - 0.5) * (t[0, 1] - t[0, 0])
        dr[0] = dr[-1] = 0
        dt[0] = dt[-1] = 0
        dt[:, 0] = dt[:, -1] = 0
        if not case["open"]:
            dr[:, -1] = dr[:, 0]
        r, t = r + dr, t + dt
        zones.append(np.array([5.0 + r * np.cos(t), 0.5 + case["elong"] * r * np.sin(t)]))
    data = []
    for R, Z in zones:
        at = [lines.exact(R, Z, phis[0], p) for p in phis]
        data.append((np.stack([a[0] for a in at], -1), np.stack([a[1] for a in at], -1)))
    ds = emc3.dataset(data, phis, zone_dim=case["zone_dim"] or len(zones) > 1)

    class Field:
        def __init__(self):
            self.ds = ds

        def field_direction(self, *args):
            raise NotImplementedError

    def affine(p):
        """Matrix and offset of the interpolated map from the first plane to p within the period"""
        j = min(max(int(np.searchsorted(phis, p, side="right")) - 1, 0), n - 1)
        s = (p - phis[j]) / (phis[j + 1] - phis[j])

        def full(y):
            o = np.array(lines.exact(0.0, 0.0, phis[0], y))
            return np.array([np.array(lines.exact(*e, phis[0], y)) - o for e in np.eye(2)]).T, o

        A, B = full(phis[j]), full(phis[j + 1])
        return tuple((1 - s) * a + s * b for a, b in zip(A, B))

    return fieldtracer.EMC3FieldTracer(Field()), phis, affine, zones


def contains(zones, p):
    """Whether these points of the first plane are in the mesh, away from its ends"""
    ok = np.zeros(len(p), bool)
    for i, x in enumerate(p):
        around = [x + d for d in 1e-3 * np.array([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]])]
        ok[i] = all(any(emc3.PolyMesh(*z).find_cell(y) >= 0 for z in zones) for y in around)
    return ok


trace_case = st.fixed_dictionaries(
    {
        **mesh,
        **lines_case,
        "shape": st.sampled_from([[3], [2, 2], [1], [4], [], [1, 3]]),
        "points": st.integers(0, 9999),
        "y0": st.one_of(q(0.01, 0.99, 48), q(-1.5, 1.5, 48)),
        "dy": st.lists(st.one_of(sq(0.9, 36), sq(2.5, 10)), min_size=1, max_size=5),
        "plane": st.booleans(),
    }
)


def follow(case):
    """lines from any points of any mesh, for any angles, also over the ends of the period any number of times and back; trivial if the line does not stay in the mesh"""
    tracer, phis, affine, zones = build(case)
    rng = np.random.RandomState(case["points"])
    period = phis[-1] - phis[0]
    y = phis[0] + period * np.concatenate([[case["y0"]], case["y0"] + np.array(case["dy"])])
    if case["plane"]:
        # Exactly on a plane
        y[0] = phis[rng.randint(len(phis))]
    size = int(np.prod(case["shape"]))
    turns = np.floor((y - phis[0]) / period).astype(int)
    frac = y - turns * period
    for e in (phis[0], phis[-1]):
        # Both ends belong to the domain
        turns[y == e], frac[y == e] = 0, e
    if np.any((np.minimum(frac - phis[0], phis[-1] - frac) < 1e-9) & (y != phis[0]) & (y != phis[-1])):
        # Rounding decides to which period the ends of the others belong
        return ["trivial"]
    # Start within the mesh
    foot = []
    for _ in range(200):
        r = case["r"][0] + (case["r"][1] - case["r"][0]) * (0.2 + 0.6 * rng.rand())
        t = 2 * np.pi * rng.rand() * (0.65 if case["open"] else 1.0)
        p = np.array([[5.0 + r * np.cos(t), 0.5 + case["elong"] * r * np.sin(t)]])
        if contains(zones, p)[0]:
            foot.append(p[0])
        if len(foot) == size:
            break
    else:
        return ["trivial"]
    foot = np.array(foot)
    if min(abs(np.linalg.det(affine(f)[0])) for f in frac) < 0.05:
        # Planes so far apart that the mesh collapses between them
        return ["trivial"]
    A, o = affine(frac[0])
    start = foot @ A.T + o
    T, to = affine(phis[-1])
    expect = np.empty((len(y), size, 2))
    labels = set()
    for j in range(len(y)):
        f = foot
        for _ in range(abs(turns[j] - turns[0])):
            if turns[j] > turns[0]:
                f = f @ T.T + to
            else:
                f = (f - to) @ np.linalg.inv(T).T
            if not np.all(contains(zones, f)):
                return ["trivial"]
        A, o = affine(frac[j])
        expect[j] = f @ A.T + o
        labels.add({0: "same period", 1: "next period"}.get(abs(turns[j] - turns[0]), "further"))
    x, z = start[:, 0].reshape(case["shape"]), start[:, 1].reshape(case["shape"])
    before = snapshot(x, z, y)
    got = tracer.follow_field_lines(x, z, y)
    unchanged(before, x, z, y)
    close(got, expect.reshape((len(y),) + tuple(case["shape"]) + (2,)), 3e-5, "positions", 5.0)
    return sorted(labels)


near_case = st.fixed_dictionaries(
    {
        **mesh,
        "nt": st.integers(24, 40),
        "jitter": st.just(0.0),
        "uneven": st.just(False),
        "eps": q(0.03, 0.1, 7),
        "mode": st.integers(2, 3),
        "turn": q(-0.5, 0.5, 10),
        "d": st.sampled_from([1e-5, 1e-4, 8e-4, 5e-3]),
        "t": st.lists(q(0.03, 0.97, 61), min_size=1, max_size=4),
        "end": st.sampled_from(["inner", "outer"]),
        "s": q(0.0, 1.0, 8),
    }
)


def near(case):
    """points just outside of a mesh which is deformed along the lines: continued as the mesh next to them; far outside: an error; trivial never"""
    import matplotlib.pyplot as plt

    from zoidberg import fieldtracer

    n = case["np"]
    phis = np.linspace(0, 1, n + 1)
    tmax = 2 * np.pi * (0.7 if case["open"] else 1.0)
    r = np.linspace(*case["r"], 2 + sum(case["nr"]) + 1)[:, None]
    t = np.linspace(0, tmax, case["nt"] + 1)[None, :]

    def at(r, t, phi):
        a = t + case["turn"] * phi
        e = r * (1 + case["eps"] * np.sin(case["mode"] * t) * phi)
        return np.array([5.0 + e * np.cos(a), 0.5 + case["elong"] * e * np.sin(a)])

    pos = np.stack([at(r, t, p) for p in phis], -1)
    zones = [(pos[0], pos[1])]
    if len(case["nr"]) > 1:
        k = 1 + case["nr"][0]
        zones = [(pos[0, : k + 1], pos[1, : k + 1]), (pos[0, k:], pos[1, k:])]
    ds = emc3.dataset(zones, phis, zone_dim=case["zone_dim"] or len(zones) > 1)

    class Field:
        field_direction = None

        def __init__(self):
            self.ds = ds

    tracer = fieldtracer.EMC3FieldTracer(Field())
    y = np.array([case["s"], 1 - case["s"], 0.5])
    th = tmax * np.array(case["t"])
    edge, sign = (case["r"][0], -1) if case["end"] == "inner" else (case["r"][1], 1)
    # Relative to polygons
    h = tmax / case["nt"]
    depth = edge * (1 - np.cos(h / 2))
    rr = edge + sign * (case["d"] + (0 if sign > 0 else depth))
    rr = max(rr, 0.01)

    def mean(r, t, phi):
        """Positions are linear between the planes"""
        j = min(int(phi * n), n - 1)
        s = phi * n - j
        return (1 - s) * at(r, t, phis[j]) + s * at(r, t, phis[j + 1])

    start = mean(rr, th, y[0])
    got = tracer.follow_field_lines(start[0], start[1], y)
    expect = np.stack([np.moveaxis(mean(rr, th, p), 0, -1) for p in y])
    # The mesh is bilinear, and up to a cell away
    tol = 4 * case["eps"] * case["r"][1] * (case["mode"] * h) ** 2 + 3 * case["d"]
    close(got, expect, tol, "positions", 1.0)
    far = np.array([case["r"][1] * 1.2 + 1.05 + 5])
    raises(
        RuntimeError,
        lambda: tracer.follow_field_lines(far, np.array([0.5]), y),
        "position far away from the mesh",
    )
    plt.close("all")
    return [case["end"]]


field_case = st.fixed_dictionaries(
    {
        "shape": st.tuples(st.integers(8, 11), st.integers(1, 5)).map(list),
        "seed": st.integers(0, 9999),
        "poly": st.lists(sq(1.0, 6), min_size=4, max_size=4),
        "angle": q(0.0, 6.0, 24),
        "low": st.lists(st.integers(0, 2), min_size=5, max_size=5),
        "high": st.lists(st.integers(0, 2), min_size=5, max_size=5),
        "scalar_phi": st.booleans(),
    }
)


def strength(case):
    """the strength of the field is the mean over the corners of the cells, continued along x where the positions are outside; trivial if all positions are inside"""
    import xarray as xr

    from zoidberg import field

    rng = np.random.RandomState(case["seed"])
    nx, nz = case["shape"]
    # Straight lines in x, with different spacing in each
    t = np.sort(rng.rand(nz)) + np.arange(nz)
    s = np.cumsum(0.05 + 0.1 * rng.rand(nx, nz), axis=0)
    s -= s[0]
    x = 5 + s * np.cos(case["angle"] + 0.1 * t)
    z = t + s * np.sin(case["angle"] + 0.1 * t)
    phi = 0.3 if case["scalar_phi"] else rng.rand(nx, nz)
    c = case["poly"]
    value = 3 + c[0] * s + c[1] * s**2 + c[2] * s**3 + 0.2 * c[3] * t
    seen = value.copy()
    for k in range(nz):
        seen[: case["low"][k], k] = np.nan
        if case["high"][k]:
            seen[-case["high"][k] :, k] = np.nan
    asked = []

    def evaluate(key, r, p, zz):
        asked.append(key)
        assert np.array_equal(r, x) and np.array_equal(zz, z) and np.array_equal(p, phi + 0 * x)
        return seen.copy()

    corners = rng.rand(3, 4, 2, 2, 2, 2)
    phis = np.array([0.0, 0.5, 1.0])
    r3 = np.arange(4.0)[:, None, None] + np.zeros((4, 5, 3))
    z3 = np.arange(5.0)[None, :, None] + np.zeros((4, 5, 3))
    ds = emc3.dataset([(r3, z3)], phis, zone_dim=False, extra=corners)
    ds.attrs["evaluate"] = evaluate
    B = field.EMC3(ds)
    before = snapshot(x, z)
    for f in (B.Bmag, B.Byfunc, B.Bmag):
        got = f(x, z, phi)
        close(got, value, 1e-7, "strength", 50)
        close(got[np.isfinite(seen)], seen[np.isfinite(seen)], 1e-12, "strength inside", 50)
    unchanged(before, x, z)
    assert len(set(asked)) == 1
    name = asked[0]
    close(
        ds[name].values if name in ds else B.ds[name].values,
        corners.mean(axis=(3, 4, 5)),
        1e-13,
        "mean over the cell",
    )
    close(B.Rfunc(x, z, phi), x, 0, "major radius")
    for f in (B.Bxfunc, B.Bzfunc):
        raises(NotImplementedError, lambda: f(x, z, phi), "components")
    raises(AssertionError, lambda: field.EMC3({}), "not an EMC3 dataset")
    return ["outside"] if np.any(np.isnan(seen)) else ["trivial"]


LAWS = [
    Law("follow", trace_case, follow, 400),
    Law("near", near_case, near, 200),
    Law("strength", field_case, strength, 200),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            trace_case,
            nr=st.lists(st.integers(4, 8), min_size=1, max_size=2),
            nt=st.integers(20, 50),
            np=st.integers(5, 12),
            shape=st.sampled_from([[20], [5, 6]]),
        ),
        follow,
        12,
        200,
        "as follow, with more cells and points",
    ),
]
