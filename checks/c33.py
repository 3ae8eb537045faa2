"""C33  Fourier representation of closed lines"""

import numpy as np
from hypothesis import strategies as st

from vlib import curves
from vlib.gen import close, larger, q, snapshot, unchanged
from vlib.harness import Law

ASSUMPTIONS = [
    "the first point of the line is at the angle -pi and points are at equal steps of the angle, as the fit defines it",
    "at least as many points as coefficients",
]

case_st = st.fixed_dictionaries(
    {
        "curve": curves.curve_case(),
        "n": st.integers(9, 48),
        "modes": st.integers(1, 7),
        "noise": st.sampled_from([0.0, 0.0, 0.02]),
        "phase": q(0, 6, 12),
        "seed": st.integers(0, 9999),
        "theta": st.lists(q(-8, 8, 64), min_size=1, max_size=5),
        "num": st.integers(5, 60),
    }
)


def series(v, modes):
    """Truncated Fourier series of equally spaced samples starting at -pi, as a function"""
    n = len(v)
    c = np.fft.rfft(v) / n

    def f(theta):
        t = np.asarray(theta, dtype=float) + np.pi
        out = np.full(np.shape(t), c[0].real)
        for m in range(1, modes + 1):
            w = 1.0 if 2 * m == n else 2.0
            out = out + w * (c[m].real * np.cos(m * t) - c[m].imag * np.sin(m * t))
        return out

    return f


def fourier(case):
    """positions at any angle (number, list of numbers, 2D array) are those of the truncated Fourier series of the points; the cost is half of the sum of the squared remaining distances; equally spaced points are on the curve; trivial never"""
    from zoidberg.rzline import RZline
    from zoidberg.spectralline import SpectralLine

    n = case["n"]
    modes = min(case["modes"], (n - 1) // 2)
    rng = np.random.RandomState(case["seed"])
    th = 2 * np.pi * np.arange(n) / n + case["phase"]
    R, Z = curves.points(case["curve"], th)
    R, Z = R + case["noise"] * rng.rand(n), Z + case["noise"] * rng.rand(n)
    line = RZline(R, Z, anticlockwise=True)
    R, Z = np.array(line.R), np.array(line.Z)
    s = SpectralLine(line, modes)
    before = snapshot(R, Z)
    unchanged(before, line.R, line.Z, what="line")
    fR, fZ = series(R, modes), series(Z, modes)
    for shape in ("scalar", "list", "2D"):
        t = {
            "scalar": case["theta"][0],
            "list": np.array(case["theta"]),
            "2D": np.array([case["theta"], case["theta"][::-1]]),
        }[shape]
        for _ in range(2):
            close(s.Rvalue(t), fR(t), 1e-5, f"R at an angle ({shape})")
            close(s.Zvalue(t), fZ(t), 1e-5, f"Z at an angle ({shape})")
    ti = -np.pi + 2 * np.pi * np.arange(n) / n
    left = 0.5 * np.sum((fR(ti) - R) ** 2 + (fZ(ti) - Z) ** 2)
    close(s.cost, left, 1e-6, "cost")
    for num in (None, case["num"]):
        new = s.equallySpaced() if num is None else s.equallySpaced(num)
        m = num or n
        assert len(new.R) == m, f"number of points {len(new.R)}"
        t = 2 * np.pi * np.arange(m) / m
        ok = [
            np.max(np.abs(new.R - fR(a)) + np.abs(new.Z - fZ(a))) < 1e-4
            for a in (t, t[::-1], np.roll(t[::-1], 1))
        ]
        assert any(ok), "equally spaced points are not those on the curve"
    label = "exact" if left < 1e-12 else "truncated"
    return [label]


LAWS = [Law("fourier", case_st, fourier, 600)]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large",
        larger(
            case_st,
            n=st.integers(100, 600),
            modes=st.integers(8, 45),
            num=st.integers(61, 400),
            theta=st.lists(q(-8, 8, 64), min_size=10, max_size=40),
        ),
        fourier,
        60,
        1000,
        "as fourier, with many points and modes",
    ),
]
