"""Generators and reference fields shared by the checks"""

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm


def q(lo, hi, n=64):
    """Quantised floats in [lo, hi] (short replays, shrinks to lo)"""
    return st.integers(0, n).map(lambda i: float(lo + (hi - lo) * i / n))


def sq(a, n=32):
    """Quantised floats in [-a, a], shrinks to zero"""
    return st.integers(-n, n).map(lambda i: float(a * i / n))


def nz(a, b, n=32):
    """Quantised non-zero floats: magnitude in [a, b], either sign"""
    return st.tuples(q(a, b, n), st.sampled_from([1.0, -1.0])).map(lambda t: t[0] * t[1])


# Other units: exact, as the factors are powers of two
units = st.sampled_from([2.0**k for k in (-23, -17, -10, -3, 3, 10, 17, 23)])


# The same whole numbers, stored in another way
stored = st.sampled_from(["int64", "int32", "float32", "fortran", "strided", "reversed", "readonly"])


def store(a, how):
    """The same (whole) numbers as in the array, stored in another way"""
    a = np.asarray(a, dtype=float)
    if how in ("int64", "int32", "float32"):
        return a.astype(how)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full(a.shape + (2,), 1e30)
        b[..., 0] = a
        return b[..., 0]
    if how == "reversed":
        return np.ascontiguousarray(np.flip(a)).copy()[(slice(None, None, -1),) * a.ndim]
    b = a.copy()
    b.setflags(write=False)
    return b


def lst(elem, lo, hi):
    return st.lists(elem, min_size=lo, max_size=hi)


def close(a, b, tol, what="", scale=1.0):
    """Assert |a-b| <= tol*scale everywhere, and that the shapes are the same"""
    a = np.asarray(a)
    b = np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} but expected {b.shape}"
    if a.size == 0:
        return
    d = np.abs(a - b)
    bad = ~(d <= tol * scale)
    if np.any(bad):
        i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
        raise AssertionError(
            f"{what}: got {a[i]!r} but expected {b[i]!r} at index {tuple(map(int, i))} "
            f"(difference {d[i]!r}, tolerance {tol * scale!r})"
        )


def raises(kind, f, what):
    """f() has to be rejected with an exception of the given kind(s)"""
    try:
        f()
    except kind:
        return
    raise AssertionError(f"{what}: was accepted")


def snapshot(*arrays):
    return [np.array(a, copy=True) for a in arrays]


def unchanged(before, *arrays, what="input"):
    for i, (b, a) in enumerate(zip(before, arrays)):
        a = np.asarray(a)
        assert b.shape == a.shape and np.array_equal(b, a), f"{what} {i} was modified"


# ----------------------------------------------------------------------
# Magnetic fields whose field lines are known exactly

linear_case = st.fixed_dictionaries(
    {
        # d(x,z)/dy = M (x - cx, z - cz) + u + w cos(k y + p)
        "M": st.tuples(sq(0.8), sq(0.8), sq(0.8), sq(0.8)).map(list),
        "c": st.tuples(sq(2.0), sq(2.0)).map(list),
        "u": st.tuples(sq(0.5), sq(0.5)).map(list),
        "w": st.tuples(sq(0.5), sq(0.5)).map(list),
        "k": q(0.25, 3.0),
        "p": q(0.0, 3.0),
        "R": st.sampled_from(["none", "const", "varying"]),
        "By": nz(0.25, 4.0),
        "ripple": q(0.0, 0.5),
        "combined": st.booleans(),
    }
)


class LinearLines:
    """Exact solution of the linear system of a linear_case"""

    def __init__(self, case):
        self.case = case
        self.M = np.array(case["M"]).reshape(2, 2)
        self.c = np.array(case["c"])
        self.u = np.array(case["u"])
        self.w = np.array(case["w"])
        self.k = case["k"]
        self.p = case["p"]
        A = np.zeros((5, 5))
        A[:2, :2] = self.M
        A[:2, 2] = self.u
        A[:2, 3] = self.w
        A[3, 4] = -self.k
        A[4, 3] = self.k
        self.A = A

    def force(self, y):
        return self.u + self.w * np.cos(self.k * y + self.p)

    def rate(self, x, z, y):
        f = self.force(y)
        dx, dz = x - self.c[0], z - self.c[1]
        M = self.M
        return (
            M[0, 0] * dx + M[0, 1] * dz + f[0],
            M[1, 0] * dx + M[1, 1] * dz + f[1],
        )

    def exact(self, x, z, y0, y1):
        """Position at y1 of the line through (x,z) at y0"""
        E = expm(self.A * (y1 - y0))
        a = self.k * y0 + self.p
        rest = E[:2, 2] + E[:2, 3] * np.cos(a) + E[:2, 4] * np.sin(a)
        dx, dz = x - self.c[0], z - self.c[1]
        return (
            E[0, 0] * dx + E[0, 1] * dz + rest[0] + self.c[0],
            E[1, 0] * dx + E[1, 1] * dz + rest[1] + self.c[1],
        )

    def exact_all(self, x, z, ys):
        x, z = np.broadcast_arrays(np.atleast_1d(x).astype(float), np.atleast_1d(z).astype(float))
        out = np.empty((len(ys),) + x.shape + (2,))
        for i, y in enumerate(ys):
            out[i, ..., 0], out[i, ..., 1] = self.exact(x, z, ys[0], y)
        return out

    def trapezoid_all(self, x, z, ys, nsteps):
        """The trapezoidal rule with nsteps sub-steps, solved exactly"""
        x, z = np.broadcast_arrays(np.atleast_1d(x).astype(float), np.atleast_1d(z).astype(float))
        out = np.empty((len(ys),) + x.shape + (2,))
        pos = np.stack([x, z]).reshape(2, -1) - self.c[:, None]
        out[0, ..., 0] = x
        out[0, ..., 1] = z
        for i in range(1, len(ys)):
            h = (ys[i] - ys[i - 1]) / nsteps
            L = np.eye(2) - 0.5 * h * self.M
            Rm = np.eye(2) + 0.5 * h * self.M
            for s in range(nsteps):
                y = ys[i - 1] + s * h
                rhs = Rm @ pos + (0.5 * h * (self.force(y) + self.force(y + h)))[:, None]
                pos = np.linalg.solve(L, rhs)
            out[i] = (pos + self.c[:, None]).T.reshape(x.shape + (2,))
        return out

    def growth(self, span):
        return float(np.exp(np.linalg.norm(self.M, 2) * abs(span)))


def linear_field(case):
    """A MagneticField with these field lines. By and R vary in space."""
    from zoidberg import field

    lines = LinearLines(case)
    kind = case["R"]

    class Linear(field.MagneticField):
        def Rfunc(self, x, z, phi):
            if kind == "none":
                return None
            if kind == "const":
                return np.full(np.shape(x), 2.5)
            if kind == "x":
                return x
            return 2.0 + 0.5 * np.sin(x + 0.5 * z + case.get("ky", 1.0) * phi)

        def Byfunc(self, x, z, phi):
            return case["By"] * (1 + case["ripple"] * np.sin(x + 2 * z + case.get("ky", 1.0) * phi))

        def _part(self, i, x, z, phi):
            R = self.Rfunc(x, z, phi)
            if R is None:
                R = 1.0
            return lines.rate(x, z, phi)[i] * self.Byfunc(x, z, phi) / R

        def Bxfunc(self, x, z, phi):
            return self._part(0, x, z, phi)

        def Bzfunc(self, x, z, phi):
            return self._part(1, x, z, phi)

    if case["combined"]:

        def Bxyzfunc(self, x, z, phi):
            return (
                self.Bxfunc(x, z, phi),
                self.Byfunc(x, z, phi),
                self.Bzfunc(x, z, phi),
            )

        Linear.Bxyzfunc = Bxyzfunc
    return Linear(), lines


shapes = st.one_of(
    st.just("scalar,scalar"),
    st.tuples(st.just("scalar"), lst(st.integers(2, 4), 1, 2)).map(list),
    st.tuples(lst(st.integers(2, 4), 1, 2), st.just("scalar")).map(list),
    lst(st.integers(1, 4), 1, 3),
)


def positions(shape, seed, centre=(0.0, 0.0), spread=1.5, integer=False):
    """Arrays x, z of the given 'shapes' value; seed is an integer"""
    rng = np.random.RandomState(seed)

    def make(s, c):
        if s == "scalar":
            v = c + spread * (2 * rng.rand() - 1)
            return int(round(v)) if integer else float(v)
        v = c + spread * (2 * rng.rand(*s) - 1)
        return np.rint(v).astype(int) if integer else v

    if shape == "scalar,scalar":
        return make("scalar", centre[0]), make("scalar", centre[1])
    if len(shape) == 2 and (shape[0] == "scalar" or shape[1] == "scalar"):
        return make(shape[0], centre[0]), make(shape[1], centre[1])
    return make(shape, centre[0]), make(shape, centre[1])


def ygrid(start, steps):
    return np.concatenate([[start], start + np.cumsum(steps)])


def larger(base, **over):
    """The cases of a strategy (or dictionary of strategies) with some values drawn differently,
    for sizes which the code should treat as it treats small ones"""
    if isinstance(base, dict):
        base = st.fixed_dictionaries(base)
    return st.tuples(base, st.fixed_dictionaries(over)).map(lambda t: {**t[0], **t[1]})
