"""C09  Equilibria from VMEC files"""

import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, larger, nz, q, sq
from vlib.harness import Law
from vlib.vmecfile import write_wout

ASSUMPTIONS = [
    "elliptical cross-sections which vary arbitrarily with the toroidal angle, uniform contravariant components: the field is linear in R and Z, so that linear interpolation is exact",
    "the field is compared at the toroidal planes of the interpolation and inside of the last flux surface",
    "mode tables without separate Nyquist modes",
]

# Each toroidal harmonic n: axis (R cos, Z sin, R sin, Z cos) and m = 1 shape
harmonic = st.fixed_dictionaries(
    {
        "n": st.integers(-6, 6),
        "axis": st.tuples(sq(0.15, 6), sq(0.15, 6), sq(0.15, 6), sq(0.15, 6)).map(list),
        "shape": st.tuples(sq(0.12, 6), sq(0.12, 6), sq(0.12, 6), sq(0.12, 6)).map(list),
    }
)
case_st = st.fixed_dictionaries(
    {
        "R0": q(3.0, 6.0, 12),
        "minor": q(0.6, 1.2, 12),
        "elong": q(0.7, 1.5, 8),
        "harmonics": st.lists(harmonic, min_size=1, max_size=3),
        "asym": st.sampled_from([0, 1, 0, 1, None]),
        "bu": sq(1.0),
        "bv": nz(0.1, 1.0),
        "ns": st.integers(4, 9),
        "ntheta": st.integers(14, 24),
        "nzeta": st.integers(2, 7),
        "nr": st.integers(20, 34),
        "nz": st.integers(20, 34),
        "default": st.booleans(),
        "seed": st.integers(0, 999),
        "turns": st.integers(-2, 2),
    }
)


class Shape:
    """R, Z = axis(v) + s L(v) (cos u, sin u)"""

    def __init__(self, case):
        asym = bool(case["asym"])
        modes = {}

        def add(m, n, rc, zs, rs=0.0, zc=0.0):
            a = modes.setdefault((m, n), np.zeros(4))
            a += [rc, zs, rs if asym else 0.0, zc if asym else 0.0]

        add(0, 0, case["R0"], 0.0)
        add(1, 0, case["minor"], case["minor"] * case["elong"])
        for h in case["harmonics"]:
            if h["n"] != 0:
                add(0, h["n"], *h["axis"])
            add(1, h["n"], *h["shape"])
        self.modes = modes

    def axis(self, v):
        """R, Z, and derivatives with v"""
        out = np.zeros(4)
        for (m, n), (rc, zs, rs, zc) in self.modes.items():
            if m == 0:
                c, s = np.cos(-n * v), np.sin(-n * v)
                out += [
                    rc * c + rs * s,
                    zs * s + zc * c,
                    -n * (-rc * s + rs * c),
                    -n * (zs * c - zc * s),
                ]
        return out

    def L(self, v):
        """Matrix and its derivative with v"""
        L = np.zeros((2, 2))
        D = np.zeros((2, 2))
        for (m, n), (rc, zs, rs, zc) in self.modes.items():
            if m == 1:
                c, s = np.cos(n * v), np.sin(n * v)
                # cos(u - nv) = cos u c + sin u s; sin(u - nv) = sin u c - cos u s
                L += [[rc * c - rs * s, rc * s + rs * c], [-zs * s + zc * c, zs * c + zc * s]]
                D += n * np.array([[-rc * s - rs * c, rc * c - rs * s], [-zs * c - zc * s, -zs * s + zc * c]])
        return L, D

    def good(self):
        return all(
            np.linalg.det(self.L(v)[0]) > 0.15 and np.linalg.norm(np.linalg.inv(self.L(v)[0]), 2) < 5
            for v in np.linspace(0, 2 * np.pi, 41)
        )


def write(case, shape, fn, bu=None, bv=None, mod=None):
    ns = case["ns"]
    if mod:
        shape.modes.setdefault((mod["m"], mod["n"]), np.zeros(4))
    keys = sorted(shape.modes)
    xm = [k[0] for k in keys]
    xn = [k[1] for k in keys]
    s = np.arange(ns) / (ns - 1)
    coeff = np.array([shape.modes[k] for k in keys])
    w = np.array([[1.0 if k[0] == 0 else sj for k in keys] for sj in s])
    zero = np.array([1.0 if k == (0, 0) else 0.0 for k in keys])
    # Half mesh: value j belongs to s = (j - 1/2) / (ns - 1), the first is not used
    half = (np.arange(ns) - 0.5) / (ns - 1)

    def on_half(b):
        a = np.array([b(h) for h in half])[:, None] * zero
        a[0] = 0.0
        return a

    arrays = {
        "rmnc": w * coeff[:, 0],
        "zmns": w * coeff[:, 1],
        "bsupumnc": on_half(bu or (lambda h: case["bu"])),
        "bsupvmnc": on_half(bv or (lambda h: case["bv"])),
    }
    if case["asym"]:
        arrays["rmns"] = w * coeff[:, 2]
        arrays["zmnc"] = w * coeff[:, 3]
        arrays["bsupumns"] = 0 * arrays["bsupumnc"]
        arrays["bsupvmns"] = 0 * arrays["bsupvmnc"]
    if mod:
        i = keys.index((mod["m"], mod["n"]))
        arrays["bsupumnc"][1:, i] += mod["u"][0]
        arrays["bsupvmnc"][1:, i] += mod["v"][0]
        if case["asym"]:
            arrays["bsupumns"][1:, i] += mod["u"][1]
            arrays["bsupvmns"][1:, i] += mod["v"][1]
    write_wout(fn, xm, xn, arrays, ns, case["ntheta"], case["nzeta"] - 1, case["asym"])


def points(case, shape, v, n, reach):
    """Points (R,Z) which are inside the last surface together with the cell of
    the interpolation grid which contains them"""
    rng = np.random.RandomState(case["seed"])
    Rs, Zs = [], []
    for vv in np.linspace(0, 2 * np.pi, 60):
        a, L = shape.axis(vv), shape.L(vv)[0]
        r = np.sqrt((L**2).sum(axis=1))
        Rs += [a[0] - r[0], a[0] + r[0]]
        Zs += [a[1] - r[1], a[1] + r[1]]
    diag = np.hypot(
        1.05 * (max(Rs) - min(Rs)) / (case["nr"] - 1), 1.05 * (max(Zs) - min(Zs)) / (case["nz"] - 1)
    )
    L = shape.L(v)[0]
    limit = np.cos(np.pi / (case["ntheta"] - 1)) - 1e-3 - diag * np.linalg.norm(np.linalg.inv(L), 2)
    limit = min(limit, reach)
    if limit < 0.05:
        return None
    sig = limit * np.sqrt(rng.rand(n))
    t = 2 * np.pi * rng.rand(n)
    pq = np.stack([sig * np.cos(t), sig * np.sin(t)])
    a = shape.axis(v)
    R, Z = a[:2, None] + L @ pq
    return R, Z, pq


def expected(shape, v, pq, bu, bv):
    """R and the cylindrical components for contravariant components bu, bv"""
    a = shape.axis(v)
    L, D = shape.L(v)
    R = a[0] + L[0] @ pq
    du = L @ np.stack([-pq[1], pq[0]])
    dv = a[2:, None] + D @ pq
    return bu * du[0] + bv * dv[0], bv * R, bu * du[1] + bv * dv[1]


def linear(case):
    """all components at random points of all toroidal planes, also several turns away; trivial without variation in the toroidal angle"""
    from zoidberg import field

    shape = Shape(case)
    if not shape.good():
        return ["trivial"]
    kw = {} if case["default"] else {"ntheta": case["ntheta"], "nzeta": case["nzeta"]}
    with tempfile.TemporaryDirectory(dir=".") as d:
        fn = os.path.join(d, "wout.nc")
        write(case, shape, fn)
        f = field.VMEC(fn, nr=case["nr"], nz=case["nz"], **kw)
    planes = np.linspace(0, 2 * np.pi, case["nzeta"])
    compared = 0
    for v in planes[:-1]:
        res = points(case, shape, v, 5, 1.0)
        if res is None:
            continue
        R, Z, pq = res
        ex, ey, ez = expected(shape, v, pq, case["bu"], case["bv"])
        # Just on the plane: half a rounding error may be on either side
        phi = v + 2 * np.pi * case["turns"]
        if v == 0.0:
            phi = 0.0
        close(f.Bxfunc(R, Z, phi), ex, 1e-8, f"Bx at phi = {v}", 10)
        close(f.Byfunc(R, Z, phi), ey, 1e-8, f"By at phi = {v}", 10)
        close(f.Bzfunc(R, Z, phi), ez, 1e-8, f"Bz at phi = {v}", 10)
        close(f.Rfunc(R, Z, phi), R, 0, "R")
        compared += 1
    # Far outside
    R = np.array([0.2, 30.0, case["R0"], case["R0"]])
    Z = np.array([0.0, 0.0, 20.0, -20.0])
    for g, e, name in ((f.Bxfunc, 0.0, "Bx"), (f.Byfunc, 1.0, "By"), (f.Bzfunc, 0.0, "Bz")):
        close(g(R, Z, 0.5 + case["turns"]), e + 0 * R, 0, name + " outside")
    labels = [f"asym={case['asym']}", "default" if case["default"] else "given"]
    if compared == 0 or not case["harmonics"]:
        labels.append("trivial")
    return labels


profile_case = st.fixed_dictionaries(
    {
        "R0": q(3.0, 6.0, 12),
        "minor": q(0.8, 1.2, 8),
        "elong": q(0.9, 1.2, 6),
        "harmonics": st.lists(harmonic, min_size=0, max_size=1),
        "asym": st.sampled_from([0, 1, None]),
        # contravariant components linear in s
        "bu": st.tuples(sq(1.0), sq(1.0)).map(list),
        "bv": st.tuples(nz(0.5, 1.0), sq(0.4)).map(list),
        # ... and modulated with angles
        "mod": st.fixed_dictionaries(
            {
                "m": st.integers(1, 2),
                "n": st.integers(-3, 3),
                "u": st.tuples(sq(0.5, 4), sq(0.5, 4)).map(list),
                "v": st.tuples(sq(0.05, 4), sq(0.05, 4)).map(list),
            }
        ),
        "ns": st.integers(14, 20),
        "ntheta": st.integers(30, 40),
        "nzeta": st.integers(2, 3),
        "nr": st.just(60),
        "nz": st.just(60),
        "default": st.booleans(),
        "seed": st.integers(0, 999),
        "turns": st.just(0),
    }
)


def profile(case):
    """contravariant components which change from the axis to the edge (known on the half mesh) and around the surfaces: within the error of the interpolation; trivial if they do not change"""
    from zoidberg import field

    shape = Shape(case)
    if not shape.good():
        return ["trivial"]
    (u0, u1), (v0, v1) = case["bu"], case["bv"]
    mod = case["mod"]
    with tempfile.TemporaryDirectory(dir=".") as d:
        fn = os.path.join(d, "wout.nc")
        write(case, shape, fn, lambda h: u0 + u1 * h, lambda h: v0 + v1 * h, mod)
        f = field.VMEC(fn, nr=60, nz=60, ntheta=case["ntheta"], nzeta=case["nzeta"])
    n = 0
    for v in np.linspace(0, 2 * np.pi, case["nzeta"])[:-1]:
        res = points(case, shape, v, 8, 0.95)
        if res is None:
            continue
        R, Z, pq = res
        s = np.hypot(*pq)
        arg = mod["m"] * np.arctan2(pq[1], pq[0]) - mod["n"] * v
        asym = 1.0 if case["asym"] else 0.0
        mu = mod["u"][0] * np.cos(arg) + asym * mod["u"][1] * np.sin(arg)
        mv = mod["v"][0] * np.cos(arg) + asym * mod["v"][1] * np.sin(arg)
        exp = expected(shape, v, pq, u0 + u1 * s + mu, v0 + v1 * s + mv)
        # Linear interpolation of a field with a kink at the axis
        amp = 1.5 * (abs(u1) + sum(map(abs, mod["u"]))) + 7 * (abs(v1) + 3 * sum(map(abs, mod["v"])))
        far = s > 0.35
        got = [g(R, Z, v) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
        for name, g, e in zip(("Bx", "By", "Bz"), got, exp):
            close(g[far], e[far], 0.03 * amp + 1e-8, name + " away from the axis")
        n += np.count_nonzero(far)
    varies = u1 != 0 or v1 != 0 or any(mod["u"] + mod["v"])
    return ["profile"] if n and varies else ["trivial"]


LAWS = [
    Law("linear", case_st, linear, 600, 6000),
    Law("profile", profile_case, profile, 200, 3000),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            case_st,
            ns=st.integers(20, 50),
            ntheta=st.integers(30, 60),
            nzeta=st.integers(8, 16),
            nr=st.integers(40, 80),
            nz=st.integers(40, 80),
        ),
        linear,
        8,
        150,
        "as linear, with many points",
    ),
]
