"""C35  Plots show the positions which they are made from"""

import re

import numpy as np
from hypothesis import strategies as st

from checks.c03 import expected, rotating
from vlib import files
from vlib.gen import close, linear_field, positions, q, snapshot, unchanged
from vlib.harness import Law

ASSUMPTIONS = [
    "what is drawn is read back from matplotlib (Agg); mouse clicks are synthetic events of matplotlib",
    "field lines as in C03: known exactly by matrix exponential",
]


def drawn(ax):
    """(data, colour) of all lines which have points"""
    from matplotlib.colors import to_rgba

    out = []
    for l in ax.lines:
        xy = np.array([np.ravel(a) for a in l.get_data()], dtype=float)
        if xy.size:
            out.append((xy.T, to_rgba(l.get_color())))
    return out


def same_points(got, expect, tol, what):
    """The same points, in any order"""
    got, expect = np.reshape(got, (-1, 2)), np.reshape(expect, (-1, 2))
    assert got.shape == expect.shape, f"{what}: {len(got)} points, expected {len(expect)}"
    if len(got) == 0:
        return
    d = np.abs(got[:, None] - expect[None]).max(-1)
    assert d.min(0).max() <= tol and d.min(1).max() <= tol, (
        f"{what}: differ by {max(d.min(0).max(), d.min(1).max())}"
    )


click = st.fixed_dictionaries(
    {
        "button": st.sampled_from([1, 3, 3, 2]),
        "at": st.tuples(q(0.1, 0.9, 9), q(0.1, 0.9, 9)).map(list),
        "inside": st.sampled_from([True] * 5 + [False]),
    }
)

poincare_case = st.fixed_dictionaries(
    {
        "field": rotating,
        "shape": st.lists(st.integers(1, 3), min_size=0, max_size=2),
        "seed": st.integers(0, 999),
        "yperiod": st.one_of(q(0.25, 2.0, 7), st.sampled_from([0.7, 1.1, 2 * np.pi / 5])),
        "revs": st.sampled_from([2, 3, 4, 7, 8]),
        "planes": st.one_of(
            st.integers(1, 14),
            st.integers(1, 31).map(lambda k: [0, k, 32]),
            st.lists(st.integers(0, 32), min_size=1, max_size=9, unique=True),
        ),
        "interactive": st.sampled_from([True, True, False]),
        "clicks": st.lists(click, max_size=6),
    }
)


def poincare(case):
    """any planes and starting points: all crossings, and no others; each plane with its own colour, also in the legend; any sequence of clicks adds, replaces and removes lines; trivial never"""
    import matplotlib
    import matplotlib.pyplot as plt

    from zoidberg.plot import plot_poincare

    f, lines = linear_field(case["field"])
    if case["shape"]:
        x, z = positions(case["shape"], case["seed"])
    else:
        x, z = (float(a[0]) for a in positions([1], case["seed"]))
    period, revs = case["yperiod"], case["revs"]
    if isinstance(case["planes"], int):
        kw = {"nplot": case["planes"]}
        slices = period * np.arange(case["planes"]) / case["planes"]
    else:
        kw = {"y_slices": [s / 32.0 * period for s in case["planes"]]}
        slices = np.sort(kw["y_slices"])
    before = snapshot(x, z)
    fig, ax = plot_poincare(f, x, z, period, revs=revs, nover=2, interactive=case["interactive"], **kw)
    unchanged(before, x, z)
    try:
        e = expected(lines, np.atleast_1d(x), np.atleast_1d(z), slices, period, revs)
        tol = 1e-4 * (1 + period * revs)
        by_colour = {}
        for xy, c in drawn(ax):
            by_colour.setdefault(c, []).append(xy)
        same_points(np.concatenate([xy for v in by_colour.values() for xy in v]), e, tol, "crossings")
        # The colour of each plane
        legend = ax.get_legend()
        texts = [t.get_text() for t in legend.get_texts()]
        values = [float(re.search(r"-?\d[\d.e+-]*", t)[0]) for t in texts]
        close(np.array(values), slices, 0.0051, "legend")
        from matplotlib.colors import to_rgba

        colours = [to_rgba(h.get_color()) for h in legend.get_lines()]
        m = min(len(slices), 6)
        assert len(set(colours[:m])) == m, "planes with the same colour"
        assert set(by_colour) == set(colours)
        for c in set(colours):
            same_points(
                np.concatenate(by_colour[c]),
                e[:, [k for k in range(len(slices)) if colours[k] == c]],
                tol,
                "crossings of one colour",
            )
        labels = ["interactive" if case["interactive"] else "fixed"]
        if len(slices) > 6:
            labels.append("many planes")
        # Clicks
        n0 = sum(len(xy) for xy, _ in drawn(ax))
        shown = []
        for cl in case["clicks"] if case["interactive"] else []:
            fig.canvas.draw()
            if cl["inside"]:
                px = ax.transAxes.transform(cl["at"])
                at = ax.transData.inverted().transform(px)
            else:
                px = np.array([1.0, 1.0])
            ev = matplotlib.backend_bases.MouseEvent(
                "button_press_event", fig.canvas, px[0], px[1], button=cl["button"]
            )
            # Errors in callbacks are only printed otherwise
            fig.canvas.callbacks.exception_handler, old = _raise, fig.canvas.callbacks.exception_handler
            fig.canvas.callbacks.process("button_press_event", ev)
            fig.canvas.callbacks.exception_handler = old
            if cl["inside"]:
                if cl["button"] == 2:
                    shown = []
                else:
                    new = expected(lines, np.array([at[0]]), np.array([at[1]]), slices, period, revs)
                    shown = (shown if cl["button"] == 3 else []) + [new.reshape(-1, 2)]
            pts = np.concatenate([xy for xy, _ in drawn(ax)])
            assert not fig.stale, "not drawn again after the click"
            for k, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
                assert min(lim) <= pts[:, k].min() and pts[:, k].max() <= max(lim), (
                    "points are outside of the axes after the click"
                )
            size = 1 + np.abs(pts).max()
            same_points(
                pts,
                np.concatenate([e.reshape(-1, 2)] + shown),
                tol * size,
                f"after clicks, {len(shown)} lines added",
            )
            labels.append(f"button {cl['button']}")
        return labels
    finally:
        plt.close("all")


ends_case = st.fixed_dictionaries(
    {
        **{k: st.just(v) for k, v in (("shape", []), ("interactive", True))},
        "field": rotating,
        "seed": st.integers(0, 999),
        "yperiod": st.one_of(st.floats(0.3, 2.0), st.sampled_from([0.7, 1.1, 2 * np.pi / 5])),
        "revs": st.integers(4, 12),
        "planes": st.one_of(st.just([0, 32]), st.integers(1, 31).map(lambda k: [0, k, 32])),
        "clicks": st.lists(
            st.fixed_dictionaries(
                {
                    "button": st.sampled_from([1, 3]),
                    "at": st.tuples(q(0.3, 0.7, 9), q(0.3, 0.7, 9)).map(list),
                    "inside": st.just(True),
                }
            ),
            min_size=1,
            max_size=1,
        ),
    }
)


def ends(case):
    """as above, planes at both ends of any period: same plane, one turn later; trivial never"""
    return poincare(case)


def _raise(exc):
    raise exc


line_case = st.fixed_dictionaries(
    {
        "field": rotating,
        "n": st.integers(0, 3),
        "seed": st.integers(0, 999),
        "yperiod": st.one_of(q(0.25, 2.0, 7), st.sampled_from([0.7, 1.1, 2 * np.pi / 5])),
        "cycles": st.integers(1, 9),
        "y_res": st.integers(2, 8),
    }
)


def line3d(case):
    """any number of lines and cycles: every cycle of every line is drawn from the start of the period, at the positions of the line; trivial never"""
    import matplotlib.pyplot as plt

    from zoidberg.plot import plot_3d_field_line

    f, lines = linear_field(case["field"])
    n = case["n"]
    x, z = positions([max(n, 1)], case["seed"])
    args = (x, z) if n else (float(x[0]), float(z[0]))
    period, cycles, res = case["yperiod"], case["cycles"], case["y_res"]
    before = snapshot(x, z)
    fig, ax = plot_3d_field_line(f, *args, period, cycles=cycles, y_res=res)
    unchanged(before, x, z)
    try:
        got = [np.array(l.get_data_3d()).T for l in ax.lines]
        assert len(got) == cycles * max(n, 1), f"{len(got)} lines for {n} starting points and {cycles} cycles"
        phi = period * np.arange(res) / res
        tol = 1e-4 * (1 + period * cycles)
        left = list(got)
        for k in range(max(n, 1)):
            for c in range(cycles):
                e = np.array([[*lines.exact(x[k], z[k], 0.0, c * period + p), p] for p in phi])
                match = [i for i, g in enumerate(left) if g.shape == e.shape and np.abs(g - e).max() < tol]
                assert match, f"cycle {c} of line {k} is not drawn"
                del left[match[0]]
        return [f"{n} lines"]
    finally:
        plt.close("all")


map_case = st.fixed_dictionaries(
    {**files.case, "slice": st.integers(0, 9), "back": st.booleans(), "out": st.integers(0, 99)}
)


def mapping(case):
    """any maps: the points of the next slice, all end points, and those which are beyond the inner and the outer boundary; trivial if there are none of these"""
    import matplotlib.pyplot as plt

    from zoidberg import plot

    grid, field, lines = files.setup(case)
    nx, ny, nz = grid.shape
    maps = files.make(case, grid, field, lines)
    name, step = ("backward", -1) if case["back"] else ("forward", 1)
    j = case["slice"] % ny
    pol, _ = grid.getPoloidalGrid(j + step)
    rng = np.random.RandomState(case["out"])
    # Some more at the ends
    maps = dict(maps)
    xt = maps[name + "_xt_prime"] = np.array(maps[name + "_xt_prime"])
    for v in (-1.0, float(nx)):
        xt[rng.rand(*xt.shape) < 0.1] = v
    before = snapshot(*maps.values())
    plt.figure()
    (plot.plot_backward_map if case["back"] else plot.plot_forward_map)(grid, maps, yslice=j)
    unchanged(before, *maps.values())
    try:
        ax = plt.gca()
        R, Z = maps[name + "_R"][:, j], maps[name + "_Z"][:, j]
        inner, outer = xt[:, j] < 0, xt[:, j] > nx - 0.5
        # There are no points beyond the ends
        points = ([], []) if pol is None else (pol.R, pol.Z)
        expect = [points, (R, Z), (R[inner], Z[inner]), (R[outer], Z[outer])]
        got = drawn(ax)
        expect = [np.stack([np.ravel(a), np.ravel(b)], -1) for a, b in expect]
        labels = [s for s, m in (("inner", inner), ("outer", outer)) if m.any()]
        expect = [e for e in expect if len(e)]
        assert len(got) == len(expect), f"{len(got)} sets of points, expected {len(expect)}"
        for e, (g, _) in zip(expect, got):
            close(g, e, 1e-12, "points", 10)
        looks = [
            (c, l.get_marker()) for l, (_, c) in zip([l for l in ax.lines if np.size(l.get_xdata())], got)
        ]
        assert len(set(looks)) == len(looks), "points which look the same"
        return labels or ["trivial"]
    finally:
        plt.close("all")


without_case = st.fixed_dictionaries({**files.case, "which": st.integers(0, 4), "slice": st.integers(0, 9)})


def without(case):
    """matplotlib is not available: there is a warning, and nothing is drawn; trivial never"""
    import warnings

    from zoidberg import plot

    grid, field, lines = files.setup(case)
    j = case["slice"] % grid.shape[1]
    call = [
        lambda: plot.plot_poincare(field, 1.0, 0.0, 1.0, revs=2),
        lambda: plot.plot_3d_field_line(field, 1.0, 0.0, 1.0, cycles=2),
        lambda: plot.plot_streamlines(grid, field, y_slice=j),
        lambda: plot.plot_forward_map(grid, {}, yslice=j),
        lambda: plot.plot_backward_map(grid, {}, yslice=j),
    ][case["which"]]
    old = plot.plotting_available
    plot.plotting_available = False
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            assert call() is None
        assert len(w) == 1, f"{len(w)} warnings"
    finally:
        plot.plotting_available = old
    return []


vector_case = st.fixed_dictionaries(
    {
        "n": st.tuples(st.integers(1, 4), st.integers(2, 4), st.integers(2, 4)).map(list),
        "seed": st.integers(0, 999),
    }
)


def vectors(case):
    """frames of an animation: each has its own vectors; trivial if there is one frame"""
    import matplotlib.pyplot as plt
    from matplotlib.animation import AbstractMovieWriter

    from zoidberg.plot import AnimateVectorField

    rng = np.random.RandomState(case["seed"])
    nt, nx, nz = case["n"]
    U, V = rng.rand(nt, nx, nz) - 0.5, rng.rand(nt, nx, nz) - 0.5
    X, Z = np.arange(nx) * 0.5, np.arange(nz) * 0.7
    seen = []
    before = snapshot(X, Z, U, V)
    a = AnimateVectorField(X, Z, U, V)
    a.animate()

    class Writer(AbstractMovieWriter):
        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, 20)

        def grab_frame(self, **kw):
            (qv,) = [c for c in self.fig.axes[0].collections if hasattr(c, "U")]
            seen.append((np.array(qv.XY), np.array(qv.U), np.array(qv.V)))

        def finish(self):
            pass

    try:
        a.animation.save("x.gif", writer=Writer())
        assert len(seen) == nt, f"{len(seen)} frames of {nt}"
        XX, ZZ = np.meshgrid(X, Z)
        for k, (XY, u, v) in enumerate(seen):
            got = {tuple(np.round(p, 9)): (a, b) for p, a, b in zip(XY, u, v)}
            assert len(got) == nx * nz
            for i in range(nx):
                for j in range(nz):
                    g = got[tuple(np.round((X[i], Z[j]), 9))]
                    close(np.array(g), np.array([U[k, i, j], V[k, i, j]]), 1e-12, "vector", 1)
        unchanged(before, X, Z, U, V)
        return [] if nt > 1 else ["trivial"]
    finally:
        plt.close("all")


stream_case = st.fixed_dictionaries(
    {
        "n": st.tuples(st.integers(5, 8), st.integers(1, 4), st.integers(3, 7)).map(list),
        "seed": st.integers(0, 999),
        "slice": st.integers(0, 9),
        "width": st.sampled_from([None, 1.0, 2.5]),
        "Lz": q(0.5, 2.0, 6),
        "xcentre": q(1.0, 3.0, 4),
    }
)


def streamlines(case):
    """fields on rectangular grids: the components of the field at the points of the slice are drawn, with a width according to the strength in the plane; trivial never"""
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes

    from zoidberg import field, grid
    from zoidberg.plot import plot_streamlines

    rng = np.random.RandomState(case["seed"])
    a = rng.rand(8) - 0.5

    class F(field.MagneticField):
        def Bxfunc(self, x, z, phi):
            return a[0] + a[1] * x + a[2] * z + np.sin(phi)

        def Bzfunc(self, x, z, phi):
            return a[3] + a[4] * x + a[5] * z + np.cos(phi)

        def Byfunc(self, x, z, phi):
            return np.full(np.shape(x), 1 + a[6])

    nx, ny, nz = case["n"]
    g = grid.rectangular_grid(nx, ny, nz, Lx=0.7, Ly=2.0, Lz=case["Lz"], xcentre=case["xcentre"])
    j = case["slice"] % ny
    calls = []
    old = Axes.streamplot

    def record(self, x, y, u, v, **kw):
        calls.append((np.array(x), np.array(y), np.array(u), np.array(v), kw))
        return old(self, x, y, u, v, **kw)

    Axes.streamplot = record
    try:
        f = F()
        fig, ax = plot_streamlines(g, f, y_slice=j, width=case["width"], density=0.3)
    finally:
        Axes.streamplot = old
        plt.close("all")
    ((x, y, u, v, kw),) = calls
    pol, phi = g.getPoloidalGrid(j)
    X, Z = np.meshgrid(x, y) if np.ndim(x) == 1 else (x, y)
    close(X, pol.R.T, 1e-9, "x", 4)
    close(Z, pol.Z.T, 1e-9, "z", 4)
    close(u, f.Bxfunc(X, Z, phi), 1e-9, "Bx", 4)
    close(v, f.Bzfunc(X, Z, phi), 1e-9, "Bz", 4)
    assert kw.pop("density") == 0.3
    if case["width"] is not None:
        # Largest over all slices
        s = np.hypot(u, v)
        top = 0
        for k in range(ny):
            p, yk = g.getPoloidalGrid(k)
            top = max(top, np.hypot(f.Bxfunc(p.R, p.Z, yk), f.Bzfunc(p.R, p.Z, yk)).max())
        close(kw["linewidth"], case["width"] * s / top, 1e-9, "width", 3)
    return []


LAWS = [
    Law("ends", ends_case, ends, 100),
    Law("poincare", poincare_case, poincare, 120),
    Law("line3d", line_case, line3d, 80),
    Law("mapping", map_case, mapping, 120),
    Law("without", without_case, without, 60),
    Law("vectors", vector_case, vectors, 40),
    Law("streamlines", stream_case, streamlines, 60),
]
