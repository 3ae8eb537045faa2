"""C28  Interrupted computation of the Laplacian coefficients is continued where it stopped"""

import os
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import files
from vlib.gen import close
from vlib.harness import REPO, Law

ASSUMPTIONS = [
    "interruptions are exceptions (Ctrl-C, an error) at any line of the computation, after which the file is closed by the context manager; a killed process may leave an unreadable file, which the HDF5 library does not protect against",
]


class Interrupted(BaseException):
    pass


def interrupted(f, which, n):
    """Run f(), raising at the n-th line executed in the given module of zoidberg. Returns whether it was interrupted"""
    target = os.path.join(REPO, "zoidberg", which)
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                # Only once
                sys.settrace(None)
                raise Interrupted()
        return local

    def trace(frame, event, arg):
        if os.path.abspath(frame.f_code.co_filename) == target and left[0] >= 0:
            return local
        return None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        f()
    except Interrupted:
        return True
    finally:
        sys.settrace(old)
    return False


case_st = st.fixed_dictionaries(
    {
        **files.case,
        "ny": st.integers(1, 5),
        "crashes": st.lists(
            st.one_of(
                st.tuples(st.just("zoidberg.py"), st.integers(0, 120)),
                st.tuples(st.just("zoidberg.py"), st.integers(0, 30)),
                st.tuples(st.just("stencil_dagp_fv.py"), st.integers(0, 900)),
            ).map(list),
            min_size=1,
            max_size=4,
        ),
        "with_maps": st.booleans(),
    }
)

NAMES = ["dagp_fv_" + k for k in ("XX", "XZ", "ZX", "ZZ", "volume")]


def resume(case):
    """any number of interruptions at any line: final coefficients as without interruption, finished slices are not computed again; trivial if there was no interruption"""
    from zoidberg import stencil_dagp_fv, zoidberg

    if not case["curved"]:
        case = {**case, "rects": case["rects"][:1]}
    grid, field, lines = files.setup(case)
    with zoidberg.MapWriter("ref.nc", quiet=True) as mw:
        mw.add_grid_field(grid, field)
        mw.add_dagp()
    ref, _, _ = files.read("ref.nc")
    os.remove("ref.nc")
    for j, pol in enumerate(grid.poloidal_grids):
        c = stencil_dagp_fv.doit([pol])
        for k in NAMES:
            close(ref[k][:, j], c[k][:, 0], 1e-12, f"{k} of slice {j}", max(1.0, np.max(np.abs(c[k]))))

    maps = files.make(case, grid, field, lines) if case["with_maps"] else None
    with zoidberg.MapWriter("r.nc", quiet=True) as mw:
        mw.add_grid_field(grid, field)
        if maps:
            mw.add_maps(maps)
    first, _, _ = files.read("r.nc")
    n = 0
    calls = {}

    def watched():
        """The same grid, counting the evaluations of each slice"""
        g, f, _ = files.setup(case)
        for j, pol in enumerate(g.poloidal_grids):
            calls[j] = 0

            def get(*a, j=j, old=pol.getCoordinate, **kw):
                calls[j] += 1
                return old(*a, **kw)

            pol.getCoordinate = get
        return g, f

    def session(crash=None):
        g, f = watched()
        with zoidberg.MapWriter("r.nc", create=False, quiet=True) as mw:
            mw.add_grid_field(g, f)
            if crash:
                return interrupted(mw.add_dagp, *crash)
            mw.add_dagp()

    finished = 0
    shared = len({id(p) for p in grid.poloidal_grids}) < grid.shape[1]

    def check_calls():
        if shared:
            return
        for j in range(finished):
            assert calls[j] == 0, f"slice {j} computed again, {finished} were finished"

    for crash in case["crashes"]:
        hit = session(crash)
        n += bool(hit)
        check_calls()
        v, _, _ = files.read("r.nc")
        for k in first:
            assert np.array_equal(first[k], v[k]), f"{k} changed"
        if hit:
            # Slices of which all coefficients are there, apart from the last one which was worked on
            touched = [j for j in range(grid.shape[1]) if calls[j]]
            if touched:
                finished = max(finished, touched[-1])
        else:
            finished = grid.shape[1]
        for k in NAMES:
            if finished:
                close(v[k][:, :finished], ref[k][:, :finished], 0, f"finished part of {k}")
    session()
    check_calls()
    v, d, _ = files.read("r.nc")
    for k in first:
        assert np.array_equal(first[k], v[k]), f"{k} changed"
    for k in NAMES:
        assert d[k] == ("x", "y", "z")
        close(v[k], ref[k], 0, k)
    # Once more: nothing to do
    finished = grid.shape[1]
    session()
    check_calls()
    v, _, _ = files.read("r.nc")
    os.remove("r.nc")
    for k in NAMES:
        close(v[k], ref[k], 0, k)
    return ["interrupted"] * n if n else ["trivial"]


LAWS = [Law("resume", case_st, resume, 200)]
