"""C07  Dommaschk potential fields are vacuum fields with the requested harmonics"""

from math import factorial

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, nz, q, sq, units
from vlib.harness import Law

ASSUMPTIONS = [
    "derivatives by fourth order differences with step 2e-3 R_0; tolerance from the step and the measured size of the field",
    "up to three harmonics at once, toroidal and poloidal numbers up to 5, 0.75 <= R/R_0 <= 1.25",
]

# Harmonics of which only some of the coefficients are there, often only one
some = st.tuples(
    st.tuples(sq(1.0, 8), sq(1.0, 8), sq(1.0, 8), sq(1.0, 8)),
    st.sampled_from([(0, 1, 2, 3), (0,), (1,), (2,), (3,), (0, 1), (2, 3), (1, 3)]),
).map(lambda t: [t[0][i] if i in t[1] else 0.0 for i in range(4)])

mode = st.fixed_dictionaries(
    {
        "m": st.integers(0, 5),
        "l": st.integers(0, 5),
        "abcd": some,
    }
)
case_st = st.fixed_dictionaries(
    {
        "modes": st.lists(mode, min_size=1, max_size=3),
        "R_0": q(0.5, 3.0, 10),
        "B_0": nz(0.25, 3.0, 11),
        "seed": st.integers(0, 9999),
        "size": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list),
    }
)


def make(case):
    from zoidberg import field

    modes = case["modes"]
    nm = max([m["m"] for m in modes], default=0) + 1 + case["size"][0]
    nl = max([m["l"] for m in modes], default=0) + 1 + case["size"][1]
    A = np.zeros((nm, nl, 4))
    for m in modes:
        A[m["m"], m["l"]] = m["abcd"]
    # Keep the toroidal field away from zero
    norm = 1 + sum(i * A[i, 0, 1] for i in range(nm))
    if abs(norm) < 0.3:
        A[:, 0, 1] = 0.0
        norm = 1.0
    keep = A.copy()
    f = field.DommaschkPotentials(A, R_0=case["R_0"], B_0=case["B_0"])
    assert np.array_equal(A, keep), "coefficients were modified"
    return f, A, norm


def vac(case):
    """div B = 0 and curl B = 0 by differences, and the values on the cylinder R = R_0 which define the harmonics: together these determine the field; trivial without harmonics"""
    f, A, norm = make(case)
    R0, B0 = case["R_0"], case["B_0"]
    rng = np.random.RandomState(case["seed"])
    n = 4
    phi = rng.rand(n) * 6.3
    z = (rng.rand(n) - 0.5) * 0.5 * R0
    # On the cylinder
    R = np.full(n, R0)
    ex, ey, ez = np.zeros(n), np.ones(n), np.zeros(n)
    zeta = z / R0
    for m in range(A.shape[0]):
        for l in range(A.shape[1]):  # noqa
            a, b, c, d = A[m, l]
            cm, sm = np.cos(m * phi), np.sin(m * phi)
            ey += m * (-a * sm + b * cm) * zeta**l / factorial(l)
            if l > 0:
                ez += (a * cm + b * sm) * zeta ** (l - 1) / factorial(l - 1)
                ex += (c * cm + d * sm) * zeta ** (l - 1) / factorial(l - 1)
    fac = B0 / norm
    B = [f.Bxfunc, f.Byfunc, f.Bzfunc]
    scale = abs(fac) * (1 + np.abs(A).sum() * 6)
    for name, g, e in zip(("Bx", "By", "Bz"), B, (ex, ey, ez)):
        got = g(R, z, phi) + np.zeros(n)
        close(got, fac * e, 1e-9, name + " on the cylinder R = R_0", scale)
    one = np.array([R0])
    close(f.Byfunc(one, 0 * one, 0 * one) + 0 * one, B0 + 0 * one, 1e-10, "field on axis", abs(B0))
    close(f.Rfunc(R, z, phi), R, 0, "R")
    # Off the cylinder
    R = R0 * (0.75 + 0.5 * rng.rand(n))
    h = 2e-3

    def d(g, var):
        dd = {"R": (h * R0, 0, 0), "z": (0, h * R0, 0), "phi": (0, 0, h)}[var]
        step = h if var == "phi" else h * R0

        def at(i):
            return g(R + i * dd[0], z + i * dd[1], phi + i * dd[2]) + np.zeros(n)

        return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * step)

    Bx, By, Bz = [g(R, z, phi) + np.zeros(n) for g in B]
    big = max(np.max(np.abs(v)) for v in (Bx, By, Bz)) + scale
    # error: h^4 * fifth derivative, each derivative at most ~ a factor 12/R0
    tol = 3e-6 * big / R0
    div = d(B[0], "R") + Bx / R + d(B[2], "z") + d(B[1], "phi") / R
    close(div, np.zeros(n), tol, "div B")
    close(d(B[2], "phi") / R - d(B[1], "z"), np.zeros(n), tol, "(curl B)_R")
    close(d(B[0], "z") - d(B[2], "R"), np.zeros(n), tol, "(curl B)_phi")
    close(d(B[1], "R") + By / R - d(B[0], "phi") / R, np.zeros(n), tol, "(curl B)_Z")
    active = np.count_nonzero(np.abs(A).sum(axis=-1))
    return [f"modes{active}"] + (["trivial"] if active == 0 else [])


surface_case = st.fixed_dictionaries(
    {
        "modes": st.lists(
            st.fixed_dictionaries(
                {
                    "m": st.integers(1, 5),
                    "l": st.integers(0, 4),
                    "abcd": some,
                }
            ),
            min_size=1,
            max_size=2,
        ),
        "R_0": q(0.5, 3.0, 10),
        "B_0": nz(0.25, 3.0, 11),
        "seed": st.integers(0, 9999),
    }
)


def surface(case):
    """the approximate invariant is constant along the field up to second order in the amplitude of the harmonics (which have m >= 1): reducing the amplitude tenfold reduces its change a hundredfold; trivial if the harmonics vanish"""
    from zoidberg import field

    R0 = case["R_0"]
    rng = np.random.RandomState(case["seed"])
    R = R0 * (0.95 + 0.1 * rng.rand(4))
    z = R0 * (rng.rand(4) - 0.5) * 0.2
    phi = rng.rand(4) * 6.3
    h = 1e-3

    def change(eps):
        nm = max(m["m"] for m in case["modes"]) + 1
        nl = max(m["l"] for m in case["modes"]) + 1
        A = np.zeros((nm, nl, 4))
        for m in case["modes"]:
            A[m["m"], m["l"]] = np.array(m["abcd"]) * eps
        f = field.DommaschkPotentials(A, R_0=R0, B_0=case["B_0"])

        def d(dr, dz, dp):
            def at(i):
                return f.Sfunc(R + i * dr, z + i * dz, phi + i * dp)

            return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)

        bx, by, bz = [np.asarray(g(R, z, phi)) / case["B_0"] for g in (f.Bxfunc, f.Byfunc, f.Bzfunc)]
        terms = [
            bx * d(h * R0, 0, 0) / R0,
            by / R * d(0, 0, h),
            bz * d(0, h * R0, 0) / R0,
        ]
        return sum(terms) * R0, np.abs(A).sum()

    big, n1 = change(1e-2)
    small, n2 = change(1e-3)
    if n1 == 0:
        return ["trivial"]
    # Only the second order is left: a first order term would be ~ n2 * 0.1
    close(small, np.zeros(4), 40 * n2**2 + 1e-9, "change of the invariant along the field")
    close(big, 100 * small, 500 * n1**3 + 1e-7, "second order scaling")
    return ["perturbed"]


LAWS = [
    Law("vacuum", case_st, vac, 400, 4000),
    Law("surface", surface_case, surface, 160, 2000),
]

unit_case = st.fixed_dictionaries(
    {
        "modes": st.lists(mode, min_size=1, max_size=3),
        "R_0": q(0.5, 3.0, 10),
        "B_0": nz(0.25, 3.0, 11),
        "seed": st.integers(0, 9999),
        "unit": units,
        "which": st.sampled_from(["B_0", "R_0", "A"]),
    }
)


def scaled(case):
    """other units of the field or of length change nothing else; small coefficients of the harmonics change the field in proportion; trivial without harmonics"""
    from zoidberg import field

    u = case["unit"]
    f, A, norm = make({**case, "size": [0, 0]})
    rng = np.random.RandomState(case["seed"])
    R0, B0, n = case["R_0"], case["B_0"], 4
    R = R0 * (0.75 + 0.5 * rng.rand(n))
    z = (rng.rand(n) - 0.5) * 0.5 * R0
    phi = rng.rand(n) * 6.3

    def at(g, s=1.0):
        return [np.asarray(b(s * R, s * z, phi)) + np.zeros(n) for b in (g.Bxfunc, g.Byfunc, g.Bzfunc)]

    a = at(f)
    size = abs(B0) * (1 + np.abs(A).sum() * 6) + np.max(np.abs(a))
    if case["which"] == "B_0":
        b = [v / u for v in at(field.DommaschkPotentials(A, R_0=R0, B_0=u * B0))]
    elif case["which"] == "R_0":
        b = at(field.DommaschkPotentials(A, R_0=u * R0, B_0=B0), u)
    else:
        # Without the harmonics which change the field on the axis
        A[:, 0, 1] = 0.0
        none = at(field.DommaschkPotentials(0 * A, R_0=R0, B_0=B0))
        a = at(field.DommaschkPotentials(A, R_0=R0, B_0=B0))
        b = at(field.DommaschkPotentials(min(u, 1 / u) * A, R_0=R0, B_0=B0))
        # The rest of the digits of the toroidal field are lost
        a, b = [x - y for x, y in zip(a, none)], [(x - y) / min(u, 1 / u) for x, y in zip(b, none)]
        close(b, a, 1e-9 + 1e-14 * max(u, 1 / u), f"coefficients smaller by {u}", size)
        return [] if np.any(A) else ["trivial"]
    close(b, a, 1e-9, f"{case['which']} times {u}", size)
    return [] if np.any(A) else ["trivial"]


LAWS += [Law("scaled", unit_case, scaled, 100, 2000)]
