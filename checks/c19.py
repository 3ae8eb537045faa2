"""C19  Maps of several samples in each cell"""

import numpy as np
from hypothesis import strategies as st

from checks.c18 import name
from vlib import maps as vm
from vlib.gen import close, larger, linear_field, q, sq
from vlib.harness import Law

ASSUMPTIONS = [
    "lines known exactly, followed by a tracer without error given as option",
    "curvilinear grids: starting points by bilinear interpolation of the grid points, indices by a search on a grid made anew (decided by C12)",
]

options = {
    "nslice": st.sampled_from([1, 1, 2, 3]),
    "samples": st.sampled_from([1, 2, 2, 3, 4]),
    "as_float": st.booleans(),
    "boundary": vm.boundary_case,
}
rect_case = st.fixed_dictionaries({**vm.y_case, **vm.rect_case, **options, "field": vm.lines_case})


def make(case, grid, lines, field):
    from zoidberg import zoidberg

    if case["boundary"]:
        field.boundary = vm.Band(*case["boundary"])
    n = case["samples"]
    return zoidberg.make_maps(
        grid,
        field,
        quiet=True,
        nslice=case["nslice"],
        samples_per_dim=float(n) if case["as_float"] else n,
        field_tracer=vm.ExactTracer(lines),
        refine_parallel_integral=1,
        n_chunks=1,
    )


def quadrature(n):
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = x / 2, w / 2
    X, Z = np.meshgrid(x, x, indexing="ij")
    return X.ravel(), Z.ravel(), np.outer(w, w).ravel()


def check(case, m, y, Ly, pols, start, lines, field, index):
    ny = len(y)
    nx, nz = pols[0].nx, pols[0].nz
    n = case["samples"]
    xo, zo, w = quadrature(n)
    sw = np.asarray(m["subcell_weights"])
    close(sw, w, 1e-12, "weights")
    close(np.sum(sw), 1.0, 1e-12, "sum of the weights")
    ns = case["nslice"]
    labels = set()
    i, k = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    for off in [*range(1, ns + 1), *range(-ns, 0)]:
        xts, zts = m[name("xt_primes", off)], m[name("zt_primes", off)]
        assert xts.shape == zts.shape == (nx, ny, nz, n * n)
        for j in range(ny):
            yt, there = vm.y_at(y, Ly, case["periodic"], j + off)
            if not there:
                assert np.all(xts[:, j] == -1) and np.all(zts[:, j] == -1), "beyond the end"
                labels.add("end of domain")
                continue
            for s in range(n * n):
                r0, z0 = start(j, i + xo[s], k + zo[s])
                R, Z = lines.exact(r0, z0, y[j], yt)
                out = np.zeros((nx, nz), bool)
                sure = ~out
                if case["boundary"]:
                    v = field.boundary.value(R, yt, Z)
                    out = v > 0
                    sure = np.abs(v) > 1e-6
                neg = out & sure
                xt, zt = xts[:, j, :, s], zts[:, j, :, s]
                assert np.all(xt[neg] == -1) and np.all(zt[neg] == -1), "outside of the boundary"
                index((j + off) % ny, xt, zt, R, Z, ~out & sure, off, s)
                if 0 < np.sum(neg) < neg.size:
                    labels.add("boundary")
            if n % 2:
                c = (n * n) // 2
                for v in "xz":
                    a, b = m[name(v + "t_primes", off)][:, j, :, c], m[name(v + "t_prime", off)][:, j, :]
                    ok = (a > 0) & (b > 0) & (a < 5) & (b < 5)
                    close(a[ok], b[ok], 1e-6, "sample in the middle", 10)
    if ns > 1:
        labels.add("several slices")
    labels.add(f"samples {n}")
    return sorted(labels)


def rectangular(case):
    """rectangular slices: exact indices of all samples; trivial with one sample"""
    from zoidberg.grid import Grid

    field, lines = linear_field(case["field"])
    y, Ly = vm.ycoords(case)
    pols, geo = vm.rect_pols(case, len(y))
    m = make(case, Grid(pols, y, Ly, yperiodic=case["periodic"]), lines, field)

    def start(j, x, z):
        x0, dx, z0, dz = geo[j]
        return x0 + x * dx, z0 + z * dz

    def index(j, xt, zt, R, Z, ok, off, s):
        x0, dx, z0, dz = geo[j]
        close(xt[ok], ((R - x0) / dx)[ok], 1e-8, f"x index of sample {s}", 100)
        close(zt[ok], ((Z - z0) / dz)[ok], 1e-8, f"z index of sample {s}", 100)

    labels = check(case, m, y, Ly, pols, start, lines, field, index)
    if not case["boundary"]:
        # Linear lines: the weighted mean of the samples is the map of the centre
        w = np.asarray(m["subcell_weights"])
        for off in (1, -1):
            there = [vm.y_at(y, Ly, case["periodic"], j + off)[1] for j in range(len(y))]
            for v in "xz":
                mean = (m[name(v + "t_primes", off)] * w).sum(-1)
                close(mean[:, there], m[name(v + "t_prime", off)][:, there], 1e-7, "mean of samples", 100)
    return labels + (["trivial"] if case["samples"] == 1 else [])


curved_case = st.fixed_dictionaries(
    {
        **vm.y_case,
        **options,
        "grids": st.lists(vm.small_annulus, min_size=1, max_size=4),
        "swirl": st.tuples(sq(0.6, 6), sq(0.15, 3)).map(list),
    }
)


def curved(case):
    """curvilinear slices, with the seam in z; trivial with one sample"""
    from zoidberg.grid import Grid
    from zoidberg.poloidal_grid import StructuredPoloidalGrid

    case = {**case, "samples": min(case["samples"], 3), "nslice": min(case["nslice"], 2)}
    spec = case["grids"][0]
    field, lines = linear_field(vm.swirl(case["swirl"], spec["R0"], spec["Z0"]))
    y, Ly = vm.ycoords(case)
    pols = vm.annulus_pols(case["grids"], len(y))
    fresh = [StructuredPoloidalGrid(p.R.copy(), p.Z.copy()) for p in pols]
    m = make(case, Grid(pols, y, Ly, yperiodic=case["periodic"]), lines, field)
    nx, nz = 6, 14

    def start(j, x, z):
        x0 = np.clip(np.floor(x), 0, nx - 2).astype(int)
        fx = x - x0
        z0 = np.floor(z).astype(int)
        fz = z - z0
        out = []
        for A in (fresh[j].R, fresh[j].Z):
            a, b = A[x0, z0 % nz], A[x0, (z0 + 1) % nz]
            c, d = A[x0 + 1, z0 % nz], A[x0 + 1, (z0 + 1) % nz]
            out.append((1 - fx) * ((1 - fz) * a + fz * b) + fx * ((1 - fz) * c + fz * d))
        return out

    def index(j, xt, zt, R, Z, ok, off, s):
        ex, ez = fresh[j].findIndex(R, Z)
        ins = ok & (ex > 0.25) & (ex < nx - 1.25)
        close(xt[ins], ex[ins], 1e-5, f"x index of sample {s}", 10)
        close(
            np.remainder(zt - ez + 7, 14)[ins], np.full(np.sum(ins), 7.0), 1e-5, f"z index of sample {s}", 14
        )
        ins = ok & (xt >= 0) & (xt <= nx - 1)
        if not np.any(ins):
            return
        r, z = fresh[j].getCoordinate(xt[ins], zt[ins])
        close(r, R[ins], 1e-5, "R of the index", 10)
        close(z, Z[ins], 1e-5, "Z of the index", 10)

    labels = check(case, m, y, Ly, pols, start, lines, field, index)
    return labels + (["trivial"] if case["samples"] == 1 else [])


LAWS = [
    Law("rectangular", rect_case, rectangular, 800),
    Law("curved", curved_case, curved, 250),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "many samples",
        larger(rect_case, samples=st.integers(5, 14), nslice=st.just(1)),
        rectangular,
        24,
        500,
        "as rectangular, with up to 196 samples per cell",
    ),
    Law(
        "large",
        larger(rect_case, **vm.big_case),
        rectangular,
        8,
        200,
        "as rectangular, with more cells and slices",
    ),
]
