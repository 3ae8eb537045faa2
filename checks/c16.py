"""C16  Closed lines in the poloidal plane"""

import numpy as np
from hypothesis import strategies as st

from vlib import curves
from vlib.gen import close, larger, q, raises, snapshot, sq, store, stored, unchanged, units
from vlib.harness import Law

ASSUMPTIONS = [
    "smooth star-shaped lines for lengths and spacing; arbitrary point lists of non-zero area for interpolation",
    "length: tolerance from refining the same line; spacing: from the number of points",
]

TWOPI = 2 * np.pi

line_case = {
    "curve": curves.curve_case(0.15),
    "n": st.integers(12, 60),
    "start": st.integers(0, 11),
    "reverse": st.booleans(),
    "size": q(0.2, 3.0, 14),
    "R0": q(0.0, 5.0, 10),
    "order": st.sampled_from([None, None, 3, 1, 5]),
    "as_list": st.booleans(),
}


def make(case, **kw):
    from zoidberg.rzline import RZline

    n = case["n"]
    th = TWOPI * (np.arange(n) + case["start"]) / n
    if case["reverse"]:
        th = th[::-1]
    R, Z = curves.points(case["curve"], th, case["size"], (case["R0"], 0.0))
    if case["order"]:
        kw.setdefault("spline_order", case["order"])
    args = (list(R), list(Z)) if case["as_list"] else (R, Z)
    line = RZline(*args, **kw)
    return line, R, Z


def signed_area(R, Z):
    return 0.5 * np.sum(R * np.roll(Z, -1) - Z * np.roll(R, -1))


def forward(line, R, Z):
    """The points in the order in which an anticlockwise line has them"""
    if signed_area(R, Z) > 0:
        return R, Z
    return R[::-1], Z[::-1]


through_case = st.fixed_dictionaries(
    {**line_case, "turns": st.integers(-3, 3), "theta": st.lists(q(-7.0, 14.0, 300), min_size=1, max_size=8)}
)


def common(line, er, ez, turns, theta):
    n = len(er)
    assert len(line.R) == len(line.Z) == len(line.theta) == n
    scale = np.max(np.abs(er)) + np.max(np.abs(ez)) + 1e-3
    close(line.R, er, 1e-14, "R", scale)
    close(line.Z, ez, 1e-14, "Z", scale)
    th = TWOPI * np.arange(n) / n
    close(line.theta, th, 1e-12, "theta", 10)
    # Through the points, in both ways to ask, after any number of turns
    tol = 1e-10
    for t, args in ((th, (None,)), (th + TWOPI * turns, (th + TWOPI * turns,))):
        close(line.Rvalue(*args), er, tol * 100, "R on the spline", scale)
        close(line.Zvalue(*args), ez, tol * 100, "Z on the spline", scale)
    theta = np.asarray(theta)
    r, z = line.position(theta)
    close(r, line.Rvalue(theta), 1e-12, "position R", scale)
    close(z, line.Zvalue(theta), 1e-12, "position Z", scale)
    r2, z2 = line.position(theta + TWOPI * turns)
    close(r2, r, 1e-8, "period in R", scale)
    close(z2, z, 1e-8, "period in Z", scale)
    # Polygon
    for t in (theta, th + TWOPI * turns + 1e-9):
        pr, pz = line.positionPolygon(t)
        pos = np.remainder(t / (TWOPI / n), n)
        k = np.floor(pos).astype(int) % n
        f = pos - np.floor(pos)
        close(pr, er[k] * (1 - f) + er[(k + 1) % n] * f, 1e-9, "polygon R", scale)
        close(pz, ez[k] * (1 - f) + ez[(k + 1) % n] * f, 1e-9, "polygon Z", scale)
    pr, pz = line.positionPolygon()
    close(pr, er, 1e-12, "polygon R", scale)
    close(pz, ez, 1e-12, "polygon Z", scale)
    return scale


def through(case):
    """points, periods and derivatives of lines of any direction, start and spline order"""
    line, R, Z = make(case)
    er, ez = forward(line, R, Z)
    assert signed_area(line.R, line.Z) > 0, "not anticlockwise"
    common(line, er, ez, case["turns"], case["theta"])
    n = case["n"]
    # Derivatives of the position
    h = 1e-5 * TWOPI / n
    th = (np.floor(np.asarray(case["theta"]) * n / TWOPI) + 0.37) * TWOPI / n
    scale = case["size"] * 10
    for f in (line.Rvalue, line.Zvalue):
        d = (f(th + h) - f(th - h)) / (2 * h)
        close(f(th, deriv=1), d, 1e-5, "first derivative", scale)
        # Of a closed line: the change over a turn is zero, and derivatives repeat
        close(f(th + TWOPI, deriv=1), f(th, deriv=1), 1e-8, "period", scale)
        if case["order"] != 1:
            d2 = (f(th + h, deriv=1) - f(th - h, deriv=1)) / (2 * h)
            close(f(th, deriv=2), d2, 1e-5, "second derivative", scale * 20)
            # smooth across the seam
            close(f(-1e-9, deriv=1), f(1e-9, deriv=1), 1e-5, "slope at the seam", scale * n)
    # Close to the curve itself
    if case["order"] != 1 and n >= 30:
        t = np.linspace(0, TWOPI, 200)
        dense = TWOPI * np.arange(2000) / 2000
        cr, cz = curves.points(case["curve"], dense, case["size"], (case["R0"], 0.0))
        d = curves.distance_to_polyline(cr, cz, *line.position(t))
        assert np.max(d) < 5e-3 * case["size"], f"{np.max(d)} away from the curve"
    return ["order " + str(case["order"])]


anypoints_case = st.fixed_dictionaries(
    {
        "pts": st.lists(st.tuples(st.integers(-8, 8), st.integers(-8, 8)).map(list), min_size=4, max_size=10),
        "scale": st.sampled_from([1.0, 0.125, 10.0]),
        "anticlockwise": st.sampled_from([None, True, False]),
        "turns": st.integers(-3, 3),
        "theta": st.lists(q(-7.0, 14.0, 300), min_size=1, max_size=4),
        "order": st.sampled_from([None, 1, 3]),
    }
)


def anypoints(case):
    """any points in any order: same points, forward unless asked otherwise; trivial without area (which is rejected unless the order is kept)"""
    from zoidberg.rzline import RZline

    P = np.array(case["pts"], dtype=float) * case["scale"]
    R, Z = P.T.copy()
    before = snapshot(R, Z)
    kw = {} if case["anticlockwise"] is None else {"anticlockwise": case["anticlockwise"]}
    if case["order"]:
        kw["spline_order"] = case["order"]
    A = signed_area(R, Z)
    if A == 0 and case["anticlockwise"] is not False:
        raises((AssertionError, ValueError), lambda: RZline(R, Z, **kw), "line without area")
        return ["no area", "trivial"]
    line = RZline(R, Z, **kw)
    unchanged(before, R, Z)
    if case["anticlockwise"] is False or A > 0:
        er, ez = R, Z
    else:
        er, ez = R[::-1], Z[::-1]
    common(line, er, ez, case["turns"], case["theta"])
    unchanged(before, R, Z)
    return ["kept" if er is R else "reversed"]


length_case = st.fixed_dictionaries(
    {
        **line_case,
        "sample": st.sampled_from([None, 10, 20, 40]),
        "w": st.sampled_from([None, 0.5, 1.0, 3.0]),
    }
)


def length(case):
    """distance along the line, total length, constant weights"""
    line, R, Z = make(case)
    n = case["n"]
    kw = {} if case["sample"] is None else {"sample": case["sample"]}
    d = line.distance(**kw)
    assert d.shape == (n + 1,) and d[0] == 0
    assert np.all(np.diff(d) > 0)
    if case["order"] == 1:
        seg = np.hypot(line.R - np.roll(line.R, -1), line.Z - np.roll(line.Z, -1))
        close(d, np.concatenate([[0], np.cumsum(seg)]), 1e-10, "length of the polygon", d[-1])
    else:
        t = np.linspace(0, TWOPI, 400 * n + 1)
        r, z = line.position(t)
        s = np.concatenate([[0], np.cumsum(np.hypot(np.diff(r), np.diff(z)))])[::400]
        close(d, s, 2e-4, "length of the line", d[-1])
    if case["w"] is not None:
        k = 7
        for wn in (k, n):
            dw = line.distance(weights=np.full(wn, case["w"]), **kw)
            close(dw, case["w"] * d, 1e-9, "weighted length", d[-1])
        # Weights given at the points
        w = 1 + 0.5 * np.cos(line.theta - case["w"])
        dw = line.distance(weights=w, **kw)
        seg = np.diff(d)
        if case["order"] == 1:
            close(dw, np.concatenate([[0], np.cumsum(seg * w)]), 1e-9, "weighted length", d[-1])
        else:
            m = 0.5 * (w + np.roll(w, -1))
            close(dw, np.concatenate([[0], np.cumsum(seg * m)]), 2e-2, "weighted length", d[-1])
    return []


spaced_case = st.fixed_dictionaries(
    {
        **line_case,
        "m": st.sampled_from([None, 0, 5, 17, -4]),
        "stretch": sq(0.6, 6),
        "w": st.sampled_from([None, None, 2.0]),
    }
)


def spaced(case):
    """new points at equal distances on the same line, starting at the same point; trivial if they were so already"""
    from zoidberg.rzline import RZline

    n = max(case["n"], 24)
    th = TWOPI * (np.arange(n) + case["start"]) / n
    th = th + case["stretch"] * np.sin(th)
    R, Z = curves.points(case["curve"], th, case["size"], (case["R0"], 0.0))
    line = RZline(R, Z)
    kw = {}
    m = n
    if case["m"] is not None:
        m = max(n + case["m"], 12)
        kw["n"] = m
    if case["w"]:
        kw["weights"] = np.full(n, case["w"])
    before = snapshot(line.R, line.Z)
    new = line.equallySpaced(**kw)
    unchanged(before, line.R, line.Z)
    assert len(new.R) == m
    L = line.distance()[-1]
    # On the old line
    t = np.linspace(0, TWOPI, 60 * n + 1)
    r, z = line.position(t)
    dist = curves.distance_to_polyline(r[:-1], z[:-1], new.R, new.Z)
    assert np.max(dist) < 1e-3 * L / n, f"new points {np.max(dist)} away from the line"
    close(np.hypot(new.R[0] - line.R[0], new.Z[0] - line.Z[0]), 0.0, 1e-9, "first point", L)
    # Length along the old line at the new points
    s = np.concatenate([[0], np.cumsum(np.hypot(np.diff(r), np.diff(z)))])
    k = np.argmin((r[:-1, None] - new.R) ** 2 + (z[:-1, None] - new.Z) ** 2, axis=0)
    got = s[k]
    expect = L * np.arange(m) / m
    # interpolation of the distance between the points of the line
    tol = 0.06 / n + 1.5 / (60 * n)
    e = np.abs(np.remainder(got - expect + L / 2, L) - L / 2)
    assert np.max(e) < tol * L * (1 + 4 * abs(case["stretch"])), f"spacing wrong by {np.max(e) / L * n} cells"
    return ["stretched" if case["stretch"] else "trivial"]


closest_case = st.fixed_dictionaries(
    {
        **line_case,
        "k": st.integers(0, 59),
        "f": q(0.0, 1.0, 20),
        "off": sq(0.3, 6),
    }
)


def closest(case):
    """closest point: of a point next to the line"""
    case = {**case, "n": max(case["n"], 20)}
    line, R, Z = make(case)
    n = case["n"]
    k = case["k"] % n
    f = case["f"]
    a = np.array([line.R[k], line.Z[k]])
    b = np.array([line.R[(k + 1) % n], line.Z[(k + 1) % n]])
    p = a + f * (b - a)
    t = b - a
    # at most a third of the distance of the points away
    p = p + case["off"] * np.array([t[1], -t[0]])
    th = line.closestPoint(*p)
    assert np.shape(th) == () and 0 <= th <= TWOPI
    q_ = np.array([float(v) for v in line.positionPolygon(th)])
    got = np.hypot(*(q_ - p))
    best = curves.distance_to_polyline(line.R, line.Z, p[0], p[1])
    h = np.hypot(*t)
    assert got <= best + 0.005 * h, f"point {got} away, but {best} is possible (distance of points {h})"
    if abs(case["off"]) < 0.1 and 0.2 < f < 0.8:
        e = abs(np.remainder(th - (k + f) * TWOPI / n + np.pi, TWOPI) - np.pi)
        assert e < 0.01 * TWOPI / n, f"angle wrong by {e * n / TWOPI} points"
    return []


shape_case = st.fixed_dictionaries(
    {
        "R0": q(0.0, 5.0, 20),
        "a": q(0.2, 2.0, 18),
        "elong": q(0.0, 1.0, 10),
        "triang": sq(0.4, 8),
        "indent": q(0.0, 0.3, 6),
        "n": st.integers(8, 50),
        "given": st.lists(st.sampled_from(["R0", "a", "elong", "triang", "indent", "n"]), unique=True),
        "circle": st.booleans(),
    }
)


def shapes(case):
    """circles and shaped lines with any subset of the parameters given"""
    from zoidberg import rzline

    p = {k: case[k] for k in case["given"]}
    if case["circle"]:
        kw = {k: v for k, v in p.items() if k in ("R0", "n")}
        if "a" in p:
            kw["r"] = p["a"]
        line = rzline.circle(**kw)
        n = kw.get("n", 20)
        th = TWOPI * np.arange(n) / n
        r = kw.get("r", 0.5)
        R, Z = kw.get("R0", 1.0) + r * np.cos(th), r * np.sin(th)
    else:
        line = rzline.shaped_line(**p)
        d = dict(R0=3.0, a=1.0, elong=0.0, triang=0.0, indent=0.0, n=20)
        d.update(p)
        th = TWOPI * np.arange(d["n"]) / d["n"]
        R = (
            d["R0"]
            - d["indent"]
            + (d["a"] + d["indent"] * np.cos(th)) * np.cos(th + d["triang"] * np.sin(th))
        )
        Z = (1 + d["elong"]) * d["a"] * np.sin(th)
    close(line.R, R, 1e-12, "R", 10)
    close(line.Z, Z, 1e-12, "Z", 10)
    return []


bad_case = st.fixed_dictionaries(
    {"n": st.integers(5, 10), "m": st.sampled_from([-1, 1, 2]), "which": st.sampled_from(["length", "shape"])}
)


def bad(case):
    """coordinates of different length or not one-dimensional are rejected"""
    from zoidberg.rzline import RZline

    n = case["n"]
    th = TWOPI * np.arange(n) / n
    if case["which"] == "length":
        t2 = TWOPI * np.arange(n + case["m"]) / n
        f = lambda: RZline(np.cos(th), np.sin(t2))  # noqa
    else:
        f = lambda: RZline(np.cos(th)[:, None] * np.ones(2), np.sin(th)[:, None] * np.ones(2))  # noqa
    raises(Exception, f, case["which"])
    return []


LAWS = [
    Law("through", through_case, through, 500),
    Law("anypoints", anypoints_case, anypoints, 500),
    Law("length", length_case, length, 300),
    Law("spaced", spaced_case, spaced, 300),
    Law("closest", closest_case, closest, 500),
    Law("shapes", shape_case, shapes, 300),
    Law("bad", bad_case, bad, 20, 40),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large through",
        larger(
            through_case, n=st.integers(70, 500), theta=st.lists(q(-7.0, 14.0, 300), min_size=20, max_size=60)
        ),
        through,
        30,
        600,
        "as through, with many points",
    ),
    Law(
        "large",
        larger(spaced_case, n=st.integers(70, 300), m=st.sampled_from([None, 90, 250])),
        spaced,
        15,
        300,
        "as spaced, with many points",
    ),
    Law(
        "large length",
        larger(length_case, n=st.integers(70, 300)),
        length,
        15,
        300,
        "as length, with many points",
    ),
]

unit_case = st.fixed_dictionaries(
    {
        **line_case,
        "unit": units,
        "theta": st.lists(q(-7.0, 14.0, 300), min_size=1, max_size=5),
        "near": st.lists(st.tuples(sq(4.0, 40), sq(4.0, 40)).map(list), min_size=1, max_size=5),
        "at": q(0.0, 6.2, 31),
        "num": st.integers(8, 40),
    }
)


def scaled(case):
    """the same line in other units: the same angles, and positions, derivatives and lengths times the factor"""
    from zoidberg.rzline import RZline

    u = case["unit"]
    a, R, Z = make({**case, "as_list": False})
    kw = {"spline_order": case["order"]} if case["order"] else {}
    b = RZline(u * R, u * Z, **kw)
    size = np.max(np.abs(R)) + np.max(np.abs(Z))
    pairs = [("points", (a.R, a.Z), (b.R, b.Z)), ("length", a.distance(), b.distance())]
    th = np.array(case["theta"])
    for d in range(2):
        pairs.append((f"R, derivative {d}", a.Rvalue(th, deriv=d), b.Rvalue(th, deriv=d)))
        pairs.append((f"Z, derivative {d}", a.Zvalue(th, deriv=d), b.Zvalue(th, deriv=d)))
    pairs.append(("position", a.position(th), b.position(th)))
    pairs.append(("polygon", a.positionPolygon(th), b.positionPolygon(th)))
    for n in (None, case["num"]):
        x, y = a.equallySpaced(n=n), b.equallySpaced(n=n)
        pairs.append(("equally spaced points", (x.R, x.Z), (y.R, y.Z)))
    for name, x, y in pairs:
        close(np.asarray(y) / u, np.asarray(x), 1e-9, f"{name}, in units of {u}", 10 * size)
    near = [
        (R0 + case["size"] * dR, Z0 + case["size"] * dZ)
        for (R0, Z0), (dR, dZ) in zip([a.position(case["at"])] * 9, case["near"])
    ]
    for r, z in near + [a.position(case["at"])]:
        r, z = float(r), float(z)
        t, s = a.closestPoint(r, z), b.closestPoint(u * r, u * z)
        close(s, t, 1e-9, f"angle of the closest point, in units of {u}", 10)
    return []


LAWS += [Law("scaled", unit_case, scaled, 200, 4000)]

stored_case = st.fixed_dictionaries(
    {
        "line": st.fixed_dictionaries({**line_case, "order": st.sampled_from([None, 1, 3])}),
        "how": st.one_of(stored, st.sampled_from(["list", "tuple"])),
        "theta": st.lists(st.integers(-7, 14), min_size=1, max_size=5),
        "num": st.integers(8, 40),
    }
)


def stored_as(case):
    """points of whole numbers give the same line however they are stored; trivial never"""
    from zoidberg.rzline import RZline

    _, R, Z = make({**case["line"], "as_list": False})
    # Squares fit into 32 bits
    R, Z = np.rint(1e3 * R), np.rint(1e3 * Z)
    how = case["how"]
    if how in ("list", "tuple"):
        f = lambda v: {"list": list, "tuple": tuple}[how](int(x) for x in v)  # noqa
    else:
        f = lambda v: store(v, how)  # noqa
    kw = {"spline_order": case["line"]["order"]} if case["line"]["order"] else {}
    a, b = RZline(R, Z, **kw), RZline(f(R), f(Z), **kw)
    th = np.array(case["theta"], dtype=float)
    ft = th.astype(int) if how.startswith("int") else th
    size = np.max(np.abs(R)) + np.max(np.abs(Z))
    tol = 1e-5 if how == "float32" else 1e-9
    x, y = a.equallySpaced(n=case["num"]), b.equallySpaced(n=case["num"])
    for name, p, r in [
        ("points", (a.R, a.Z), (b.R, b.Z)),
        ("length", a.distance(), b.distance()),
        ("R", a.Rvalue(th), b.Rvalue(ft)),
        ("Z, derivative", a.Zvalue(th, deriv=1), b.Zvalue(ft, deriv=1)),
        ("position", a.position(th), b.position(ft)),
        ("polygon", a.positionPolygon(th + 0.3), b.positionPolygon(th + 0.3)),
        ("equally spaced points", (x.R, x.Z), (y.R, y.Z)),
    ]:
        close(np.asarray(r), np.asarray(p), tol, f"{name}, {how}", 10 * size)
    r, z = np.rint(np.mean(R)), np.rint(Z[0] * 1.2)
    if how != "float32":
        close(b.closestPoint(int(r), int(z)), a.closestPoint(r, z), 1e-9, f"closest point, {how}", 10)
    return [how]


LAWS += [Law("stored", stored_case, stored_as, 150, 3000)]
