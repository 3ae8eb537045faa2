"""C38  The result of a call does not depend on the calls before it"""

import copy
import os
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

import zoidberg  # noqa
import zoidberg.boundary
import zoidberg.diff
import zoidberg.field
import zoidberg.fieldtracer
import zoidberg.grid
import zoidberg.poloidal_grid
import zoidberg.rzline
import zoidberg.smooth
import zoidberg.spectralline
import zoidberg.stencil_dagp_fv
import zoidberg.weights
import zoidberg.zoidberg  # noqa
from checks import c08, c09
from vlib import annulus, legs, pristine
from vlib import curves as cv
from vlib.gen import linear_case, linear_field, nz, positions, q, shapes, snapshot, sq, ygrid  # noqa
from vlib.harness import Hang, Law

ASSUMPTIONS = [
    "the first call in a new process, on a newly made object, is the reference",
    "caches in files (C04), files being written (C26, C28) and counters of services (C31) are histories of other properties",
]


def nonlinear(c):
    from zoidberg import field

    class NL(field.MagneticField):
        def Byfunc(self, x, z, phi):
            return c["By"] * (1 + 0.2 * np.sin(x))

        def Bxfunc(self, x, z, phi):
            return 0.5 * np.sin(c["k"] * x + phi) + c["a"] * np.cos(z)

        def Bzfunc(self, x, z, phi):
            return 0.5 * np.cos(c["k"] * x) + c["a"] * np.sin(z - phi)

    return NL()


# ----------------------------------------------------------------------
# Each kind of object: parameters, how to make it, and calls.
# A call is (function, arguments, options), drawn from a generator


def pick(rng, *choices):
    return choices[rng.randint(len(choices))]


def options(rng, **choices):
    """Each option is given, with one of its values, or not"""
    out = {}
    for k, v in choices.items():
        if rng.rand() < 0.5:
            out[k] = pick(rng, *v)
    return out


class Tracer:
    spec = st.fixed_dictionaries(
        {
            "a": sq(0.6),
            "k": q(0.3, 1.5),
            "By": nz(0.5, 2.0),
            "reversible": st.booleans(),
            "rtol": st.sampled_from([None, 1e-12]),
            "nsteps": st.sampled_from([None, 2, 5]),
        }
    )

    @staticmethod
    def make(s):
        from zoidberg import fieldtracer

        f = nonlinear(s)
        if not s["reversible"]:
            return fieldtracer.FieldTracer(f), f
        kw = {k: s[k] for k in ("rtol", "nsteps") if s[k] is not None}
        return fieldtracer.FieldTracerReversible(f, **kw), f

    @staticmethod
    def call(s, obj, op, rng):
        from zoidberg.fieldtracer import trace_poincare

        tracer, f = obj
        n = rng.randint(1, 5)
        x, z = rng.rand(n), rng.rand(n)
        if op % 4 == 3:
            return (
                trace_poincare,
                (f, x, z, 0.5),
                {"nplot": 2, "revs": rng.randint(1, 3), **options(rng, nover=[3, 20])},
            )
        ys = ygrid(rng.rand(), pick(rng, 1, -1) * (0.1 + 0.3 * rng.rand(rng.randint(1, 4))))
        kw = options(rng, rtol=[1e-3, 1e-6, 1e-10])
        if s["reversible"]:
            kw = options(rng, rtol=[1.0, 1e-4, 1e-14], eps=[1e-2, 1e-6], nsteps=[1, 7])
        return tracer.follow_field_lines, (x, z, ys), kw


class Lines:
    spec = st.fixed_dictionaries(
        {
            "curve": cv.curve_case(),
            "n": st.integers(6, 20),
            "order": st.sampled_from([None, 1, 3, 5]),
            "start": q(0.0, 6.0, 12),
            "spectral": st.sampled_from([0, 0, 1, 2]),
        }
    )

    @staticmethod
    def make(s):
        from zoidberg.rzline import RZline
        from zoidberg.spectralline import SpectralLine

        t = s["start"] + 2 * np.pi * np.arange(s["n"]) / s["n"]
        line = RZline(*cv.points(s["curve"], t), spline_order=s["order"])
        return SpectralLine(line, s["spectral"]) if s["spectral"] else line

    @staticmethod
    def call(s, obj, op, rng):
        theta = 12 * rng.rand(rng.randint(1, 6)) - 4
        if s["spectral"]:
            op = op % 3
            if op < 2:
                return (obj.Rvalue, obj.Zvalue)[op], (theta,), {}
            return (lambda **kw: line_arrays(obj.equallySpaced(**kw))), (), options(rng, num=[6, 9, 25])
        op = op % 7
        if op < 2:
            return (obj.Rvalue, obj.Zvalue)[op], (), options(rng, theta=[theta], deriv=[0, 1])
        if op == 2:
            return obj.position, (), options(rng, theta=[theta])
        if op == 3:
            return obj.positionPolygon, (), options(rng, theta=[theta])
        weights = [1 + rng.rand(s["n"])]
        if op == 4:
            return obj.distance, (), options(rng, sample=[1, 5, 20], weights=weights)
        if op == 5:
            return (
                (lambda **kw: line_arrays(obj.equallySpaced(**kw))),
                (),
                options(rng, n=[7, 30], weights=weights),
            )
        return (
            obj.closestPoint,
            (4 * rng.rand() + 1, 4 * rng.rand() - 2),
            options(rng, niter=[1, 6], subdivide=[5, 40]),
        )


def line_arrays(line):
    return {"R": np.array(line.R), "Z": np.array(line.Z), "theta": np.array(line.theta)}


class Poloidal:
    spec = st.one_of(
        st.fixed_dictionaries({"annulus": annulus.case}),
        st.fixed_dictionaries(
            {
                "nx": st.integers(5, 9),
                "nz": st.integers(1, 6),
                "Lx": q(0.5, 2.0),
                "Lz": q(0.5, 2.0),
                "Rc": sq(2.0),
                "Zc": sq(2.0),
                "MXG": st.sampled_from([1, 2]),
            }
        ),
    )

    @staticmethod
    def make(s):
        from zoidberg.poloidal_grid import RectangularPoloidalGrid

        if "annulus" in s:
            return annulus.grid(s["annulus"])[0]
        return RectangularPoloidalGrid(s["nx"], s["nz"], s["Lx"], s["Lz"], s["Rc"], s["Zc"], MXG=s["MXG"])

    @staticmethod
    def call(s, obj, op, rng):
        n = rng.randint(1, 6)
        x, z = rng.rand(n) * (obj.nx - 1), (3 * rng.rand(n) - 1) * obj.nz
        op = op % 4
        if op == 0:
            return obj.getCoordinate, (x, z), options(rng, dx=[0, 1, 2], dz=[0, 1])
        if op < 3:
            i, k = rng.randint(obj.nx, size=n), rng.randint(obj.nz, size=n)
            R, Z = obj.R[i, k], obj.Z[i, k]
            if op == 1 and rng.rand() < 0.7:
                R, Z = R + 0.02 * rng.rand(n), Z + 0.02 * rng.rand(n)
            elif op == 2:
                # Also next to the ends
                x = np.where(rng.rand(n) < 0.5, 0.5, obj.nx - 1.5) + 0.1 * (rng.rand(n) - 0.5)
                R, Z = (np.array(a) for a in obj.getCoordinate(x, np.abs(z) % obj.nz))
            kw = options(rng, tol=[1e-3, 1e-14]) if "annulus" in s else {}
            return obj.findIndex, (R, Z), kw
        return obj.metric, (), {}


class Grids:
    spec = st.fixed_dictionaries(
        {
            "pols": st.lists(Poloidal.spec, min_size=1, max_size=3).filter(
                lambda p: len({"annulus" in s for s in p}) == 1
            ),
            "gaps": st.lists(q(0.1, 1.0), min_size=3, max_size=3),
            "periodic": st.booleans(),
            "field": sq(0.3),
        }
    )

    @staticmethod
    def make(s):
        from zoidberg import field, grid

        first = s["pols"][0]
        pols = []
        for p in s["pols"]:
            p = copy.deepcopy(p)
            for k in ("nx", "nz"):
                if "annulus" in p:
                    p["annulus"][k] = first["annulus"][k]
                    p["annulus"]["clockwise"] = first["annulus"]["clockwise"]
                else:
                    p[k] = first[k]
            pols.append(Poloidal.make(p))
        y = np.cumsum(s["gaps"])[: len(pols)]
        f = field.CurvedSlab(By=1.0, Bz=s["field"], xcentre=1.0, Bzprime=0.1, Rmaj=2.0)
        return grid.Grid(pols, y, float(y[-1] + 0.3), yperiodic=s["periodic"]), f

    @staticmethod
    def call(s, obj, op, rng):
        from zoidberg import zoidberg as zz

        g, f = obj

        def slice_of(i):
            pol, y = g.getPoloidalGrid(i)
            return {"y": y, **({"R": pol.R, "Z": pol.Z} if pol is not None else {})}

        op = op % 8
        if op == 0:
            return g.metric, (), {}
        if op == 1:
            return zz.get_metric, (g, f), {}
        if op == 2:
            kw = options(rng, nslice=[1, 2], samples_per_dim=[1, 2], rtol=[1e-4, 1e-8])
            return zz.make_maps, (g, f), {"quiet": True, **kw}
        if op == 3:
            from zoidberg.stencil_dagp_fv import doit

            return doit, (g.poloidal_grids,), options(rng, isSlab=[True, False])
        return slice_of, (rng.randint(-6, 7) + pick(rng, 0, 0, 0.5),), {}


class Boundaries:
    spec = st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["rectangle", "polygon", "polygon", "none"]),
            "r": st.lists(q(0.3, 1.5, 12), min_size=4, max_size=9),
            "c": st.tuples(sq(1.0), sq(1.0)).map(list),
        }
    )

    @staticmethod
    def make(s):
        from zoidberg import boundary

        r, (cx, cz) = s["r"], s["c"]
        if s["kind"] == "none":
            return boundary.NoBoundary()
        if s["kind"] == "rectangle":
            return boundary.RectangularBoundaryXZ(cx - r[0], cx + r[1], cz - r[2], cz + r[3])
        t = 0.1 + 2 * np.pi * np.arange(len(r)) / len(r)
        return boundary.PolygonBoundaryXZ(cx + np.array(r) * np.cos(t), cz + np.array(r) * np.sin(t))

    @staticmethod
    def call(s, obj, op, rng):
        n = tuple(rng.randint(1, 5, size=op % 3))
        x, z = np.asarray(4 * rng.rand(*n) - 2), np.asarray(4 * rng.rand(*n) - 2)
        return obj.outside, (x, rng.rand(), z), {}


class Fields:
    spec = st.one_of(
        *[
            st.fixed_dictionaries(
                {
                    "kind": st.just(k),
                    "p": st.lists(q(0.2, 1.5), min_size=6, max_size=6),
                    "A": st.integers(0, 3),
                }
            )
            for k in (
                "Slab",
                "CurvedSlab",
                "StraightStellarator",
                "RotatingEllipse",
                "Screwpinch",
                "Dommaschk",
                "linear",
            )
        ],
        st.fixed_dictionaries({"kind": st.just("GEQDSK"), "case": c08.case_st}),
        st.fixed_dictionaries(
            {
                "kind": st.just("VMEC"),
                "case": c09.case_st.map(lambda c: {**c, "ns": 4, "nr": 8, "nz": 9, "ntheta": 12, "nzeta": 3}),
            }
        ),
    )

    @staticmethod
    def make(s):
        from zoidberg import field

        kind = s["kind"]
        if kind == "GEQDSK":
            with tempfile.TemporaryDirectory(dir=".") as d:
                return c08.make(s["case"], os.path.join(d, "g"))[0]
        if kind == "VMEC":
            with tempfile.TemporaryDirectory(dir=".") as d:
                c = s["case"]
                fn = os.path.join(d, "wout.nc")
                c09.write(c, c09.Shape(c), fn)
                return field.VMEC(fn, ntheta=c["ntheta"], nzeta=c["nzeta"], nr=c["nr"], nz=c["nz"])
        p = s["p"]
        if kind == "linear":
            return linear_field(
                {
                    "M": p[:4],
                    "c": p[:2],
                    "u": p[2:4],
                    "w": p[4:6],
                    "k": p[0],
                    "p": p[1],
                    "R": ["none", "const", "varying", "x"][s["A"]],
                    "By": p[2],
                    "ripple": 0.3,
                    "combined": s["A"] % 2 == 0,
                }
            )[0]
        if kind == "Dommaschk":
            A = np.zeros((2, 3, 4))
            A[1, 1 + s["A"] % 2] = np.array(p[:4]) * 0.1
            return field.DommaschkPotentials(A, R_0=1.0 + p[4], B_0=p[5])
        kw = {
            "Slab": ("By", "Bz", "xcentre", "Bzprime"),
            "CurvedSlab": ("By", "Bz", "xcentre", "Bzprime", "Rmaj"),
            "StraightStellarator": ("xcentre", "zcentre", "radius", "yperiod", "I_coil"),
            "RotatingEllipse": ("xcentre", "zcentre", "radius", "yperiod", "I_coil", "Btor"),
            "Screwpinch": ("xcentre", "zcentre", "shear", "yperiod", "Btor"),
        }[kind]
        return getattr(field, kind)(**dict(zip(kw, p)))

    @staticmethod
    def call(s, obj, op, rng):
        n = tuple(rng.randint(1, 4, size=1 + op % 2))
        x, z, phi = 1.2 + rng.rand(*n), rng.rand(*n) - 0.5, 8 * rng.rand() - 2
        if "case" in s and "rleft" in s["case"]:
            c = s["case"]
            x, z = c["rleft"] + c["rdim"] * (x - 1.2), c["zmid"] + c["zdim"] * z
        elif "case" in s:
            x = s["case"]["R0"] + 0.4 * (x - 1.7)
        names = [
            "Bxfunc",
            "Byfunc",
            "Bzfunc",
            "Bmag",
            "Rfunc",
            "pressure",
            "field_direction",
            "attributes",
            "boundary",
        ]
        name = names[rng.randint(len(names))]
        if name == "field_direction":
            if rng.rand() < 0.5:
                return obj.field_direction, ((x.ravel(), z.ravel()), phi), {}
            pos = np.column_stack((x.ravel(), z.ravel())).ravel()
            return obj.field_direction, (pos, phi), {"flatten": True}
        if name == "attributes":
            return (
                (lambda a, b, c: {k: f(a, b, c) for k, f in sorted(obj.attributes.items())}),
                (x, z, phi),
                {},
            )
        if name == "boundary":
            return obj.boundary.outside, (x, phi, z), {}
        if name in ("Rfunc", "pressure"):
            return getattr(obj, name), (x, z, phi), {}
        return getattr(obj, name), (x, z, phi), {}


class Functions:
    spec = st.fixed_dictionaries(
        {
            "curve": cv.curve_case(amp=0.3),
            "n": st.integers(14, 24),
            "legs": st.fixed_dictionaries(legs.maps_case),
        }
    )

    @staticmethod
    def make(s):
        return None

    @staticmethod
    def call(s, obj, op, rng):
        from zoidberg import diff, poloidal_grid, rzline, smooth, weights
        from zoidberg import zoidberg as zz

        t = 2 * np.pi * np.arange(s["n"]) / s["n"]
        r, z = cv.points(s["curve"], t)
        op = op % 10
        if op < 2:
            f = rng.rand(*rng.randint(5, 8, size=2))
            return (diff.c2, diff.c4)[op], (f, rng.randint(2)), options(rng, periodic=[True, False])
        if op == 2:
            n = rng.randint(4, 9)
            y = np.cumsum(0.05 + rng.rand(n))
            return diff.field_line_length, (2 + rng.rand(n, 3, 2), y), options(rng, refine=[2, 50])
        if op == 3:
            if rng.rand() < 0.7:
                r = r.copy()
                r[rng.randint(len(r))] += 0.6
            return smooth.find_outliers, (r, z), options(rng, cutoff=[0.5, 0.9], bounds=[1, 2])
        if op == 4:
            k = 10 * s["n"]
            r, z = cv.points(s["curve"], 2 * np.pi * np.arange(k) / k)
            i = rng.randint(k)
            for j in range(-6, 7):
                r[(i + j) % k] += 0.15 * (1 - abs(j) / 6)
            kw = options(rng, cutoff=[0.85, 0.9], bounds_find=[3, 5])
            return smooth.smooth, (r, z), {"bounds": 8, **kw}
        if op == 5:
            order = rng.permutation(len(r))
            f = pick(
                rng, rzline.line_from_points, rzline.line_from_points_fast, rzline.line_from_points_poly,
                rzline.line_from_points_two_opt, rzline.line_from_points_convex_hull,
            )  # fmt: skip
            return (
                (lambda a, b, **kw: line_arrays(f(a, b, **kw))),
                (r[order], z[order]),
                options(rng, spline_order=[1, 3]),
            )
        if op in (6, 7):
            inner = rzline.circle(3.0, 0.3 + 0.1 * rng.rand(), 40)
            outer = rzline.RZline(*cv.points({**s["curve"], "elong": 1.0}, 2 * np.pi * np.arange(40) / 40))
            kw = options(
                rng,
                inner_ort=[True, False],
                maxfac_inner=[2, 3],
                nx_outer=[1],
                nx_inner=[1],
                restrict_size=[8],
            )
            if op == 7:
                return (
                    poloidal_grid.grid_annulus,
                    (inner, outer, 5, 12),
                    {"show": False, "return_coords": True},
                )
            return poloidal_grid.grid_elliptic, (inner, outer, 7, 12), {"return_coords": True, **kw}
        if op == 8:
            m = legs.build({**s["legs"], "seed": rng.randint(1000)})
            f = pick(rng, weights.calculate_parallel_map_operators, weights.assign_cell_space_numbers)
            return (lambda m: {k: v for k, v in vars_of(f(m)).items()}), (m,), {}
        nx, ny, nzz = rng.randint(4, 7, size=3)
        X, _, Z = np.mgrid[0:nx, 0:ny, 0:nzz].astype(float)
        maps = {
            "forward_xt_prime": X + 0.2 + 0.2 * rng.rand(nx, ny, nzz),
            "forward_zt_prime": Z - 0.3 + 0.2 * rng.rand(nx, ny, nzz),
        }
        return zz.upscale, (rng.rand(nx, ny, nzz), maps), options(rng, upscale_factor=[2, 3])


def vars_of(x):
    return x if isinstance(x, dict) else vars(x)


KINDS = {k.__name__: k for k in (Tracer, Lines, Poloidal, Grids, Boundaries, Fields, Functions)}


# ----------------------------------------------------------------------


def flat(x, name="result"):
    """All numbers in a result, as flat dictionary of arrays"""
    if isinstance(x, dict):
        return {k: v for key in sorted(x, key=str) for k, v in flat(x[key], f"{name}.{key}").items()}
    if isinstance(x, (list, tuple)) and any(isinstance(v, (list, tuple, dict, np.ndarray)) for v in x):
        return {k: v for i, e in enumerate(x) for k, v in flat(e, f"{name}[{i}]").items()}
    if x is None or isinstance(x, str):
        return {name: str(x)}
    if hasattr(x, "toarray"):
        return {name: x.toarray()}
    a = np.asarray(x)
    if a.dtype == object:
        return (
            flat({k: v for k, v in sorted(vars(x).items()) if not k.startswith("_")}, name)
            if hasattr(x, "__dict__")
            else {name: str(x)}
        )
    return {name: a}


def perform(kind, spec, obj, op, kept=None):
    """Result of a call as dictionary, or the type of error; the arrays themselves are added to kept"""
    if isinstance(obj, dict):
        return obj
    rng = np.random.RandomState(op["seed"])
    f, args, kw = KINDS[kind].call(spec, obj, op["op"], rng)
    if op.get("nudge"):
        # Nearly the same arguments
        args = tuple(nudged(a, op["nudge"]) for a in args)
        kw = {k: nudged(v, op["nudge"]) for k, v in kw.items()}
    given = copy.deepcopy((numbers(args), numbers(kw)))
    np.random.seed(1)
    random.seed(1)
    try:
        out = flat(f(*args, **kw))
    except Hang:
        raise
    except Exception as e:
        return {"error": f"{type(e).__name__}"}
    if kept is not None:
        same(flat(given), flat((numbers(args), numbers(kw))), "argument", exact=True)
        kept.append(out)
    return {k: (np.array(v) if not isinstance(v, str) else v) for k, v in out.items()}


def nudged(x, size):
    if not isinstance(x, np.ndarray) or x.dtype.kind != "f":
        return x
    return x + size * np.random.RandomState(int(1 / size) % 2**31).uniform(-1, 1, x.shape)


def numbers(x):
    """Only those arguments which are arrays or numbers"""
    if isinstance(x, dict):
        return {k: numbers(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [numbers(v) for v in x]
    return x if isinstance(x, (np.ndarray, int, float)) else None


def made(kind, spec):
    """An object, or the type of error"""
    try:
        return KINDS[kind].make(spec)
    except Hang:
        raise
    except Exception as e:
        return {"error": f"{type(e).__name__} in the constructor"}


def alone(kind, spec, op):
    return perform(kind, spec, made(kind, spec), op)


def same(a, b, what, exact=False):
    assert sorted(a) == sorted(b), (
        f"{what}: {sorted(set(a) ^ set(b))} only in one: {a.get('error')} {b.get('error')}"
    )
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            assert isinstance(x, str) and isinstance(y, str) and x == y, f"{what}: {k} is {x} instead of {y}"
            continue
        assert x.shape == y.shape, f"{what}: shape of {k} is {x.shape} instead of {y.shape}"
        if x.dtype.kind not in "fc" or exact:
            assert np.array_equal(x, y, equal_nan=x.dtype.kind == "f"), f"{what}: {k} differs"
            continue
        s = np.max(np.abs(y[np.isfinite(y)]), initial=0.0)
        ok = np.isclose(x, y, rtol=1e-9, atol=1e-11 * s, equal_nan=True)
        assert np.all(ok), f"{what}: {k} differs by up to {np.max(np.abs(x - y))}"


def case_of(kind, most=3, ops=8):
    return st.fixed_dictionaries(
        {
            "specs": st.lists(kind.spec, min_size=1, max_size=most),
            "ops": st.lists(
                st.fixed_dictionaries(
                    {
                        "on": st.integers(0, 9),
                        "op": st.integers(0, 999),
                        "seed": st.integers(0, 9999),
                        # The same function as before, also with the same arguments
                        "like": st.sampled_from(["new", "new", "function", "arguments"]),
                        "nudge": st.sampled_from([0, 0, 0.03, 0.01, 3e-3, 1e-3, 3e-4, 1e-6, 1e-11]),
                    }
                ),
                min_size=2,
                max_size=ops,
            ),
        }
    )


def history(kinds, specs, ops):
    """Number of errors in a history of calls, all of which give what they give in a new process"""
    objs = [made(k, s) for k, s in zip(kinds, specs)]
    results, errors, last = [], 0, None
    for i, op in enumerate(ops):
        if last is not None and op["like"] != "new":
            op = {**op, "op": last["op"], "seed": last["seed"] if op["like"] == "arguments" else op["seed"]}
            if op["like"] == "arguments":
                op["on"] = last["on"] if op["nudge"] else op["on"]
            else:
                op["nudge"] = 0
        else:
            op = {**op, "nudge": 0}
        last = op
        j = op["on"] % len(objs)
        what = f"call {i} on object {j} ({kinds[j]})"
        ref = pristine.evaluate("checks.c38", "alone", kinds[j], specs[j], op)
        kept = []
        got = perform(kinds[j], specs[j], objs[j], op, kept)
        same(got, ref, what)
        if kept:
            results.append((what, kept[0], got))
        errors += "error" in got
    for what, kept, got in results:
        now = {k: (v if isinstance(v, str) else np.asarray(v)) for k, v in kept.items()}
        same(now, got, f"result of {what} after the other calls", exact=True)
    return errors


def run(kind, case):
    errors = history([kind] * len(case["specs"]), case["specs"], case["ops"])
    labels = [f"objects {len(case['specs'])}"] + (["an error"] if errors else [])
    return labels + (["trivial"] if errors == len(case["ops"]) else [])


def tracers(case):
    """histories of calls with different options on up to three tracers: each gives what it gives as first call of a new process; trivial if all are errors"""
    return run("Tracer", case)


def lines(case):
    """the same for lines and spectral lines"""
    return run("Lines", case)


def poloidal(case):
    """the same for poloidal grids, rectangular and curvilinear"""
    return run("Poloidal", case)


def grids(case):
    """the same for grids: slices, metric, maps and finite-volume coefficients"""
    return run("Grids", case)


def boundaries(case):
    """the same for boundaries"""
    return run("Boundaries", case)


def fields(case):
    """the same for fields: analytic ones and those from files, several of the same or different classes"""
    return run("Fields", case)


def functions(case):
    """the same for functions: differences, lengths, smoothing, lines from points, grid generation, operators, upscaling"""
    return run("Functions", case)


mixed_case = st.fixed_dictionaries(
    {
        "specs": st.lists(
            st.one_of(*[st.tuples(st.just(k), v.spec).map(list) for k, v in KINDS.items()]),
            min_size=2,
            max_size=5,
        ),
        "ops": case_of(Tracer).map(lambda c: c["ops"]),
    }
)


def mixed(case):
    """the same for objects of all kinds together"""
    kinds, specs = zip(*case["specs"])
    errors = history(kinds, specs, case["ops"])
    return ["trivial"] if errors == len(case["ops"]) else sorted(set(kinds))


LAWS = [
    Law("tracers", case_of(Tracer), tracers, 150, 3000),
    Law("lines", case_of(Lines), lines, 150, 3000),
    Law("poloidal", case_of(Poloidal, 2, 10), poloidal, 300, 6000),
    Law("grids", case_of(Grids, 2, 6), grids, 40, 1200),
    Law("boundaries", case_of(Boundaries), boundaries, 60, 1500),
    Law("fields", case_of(Fields, 3, 6), fields, 80, 2000),
    Law("functions", case_of(Functions, 2, 8), functions, 120, 2500),
    Law("mixed", mixed_case, mixed, 60, 2000),
]

moving_case = st.fixed_dictionaries(
    {
        "annulus": annulus.case,
        "curve": cv.curve_case(),
        "corners": st.lists(q(0.3, 1.5, 12), min_size=4, max_size=9),
        # Between the last two rows at one of the ends, or anywhere
        "row": st.sampled_from(["first", "last", "any"]),
        "n": st.integers(1, 4),
        "step": st.sampled_from([0.2, 0.1, 0.05, 0.02, 0.01]),
        "seed": st.integers(0, 9999),
    }
)


def moving(case):
    """positions which move in small steps: indices, closest angles, and whether they are outside, are those which new objects give"""
    from zoidberg import boundary
    from zoidberg.rzline import RZline

    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    t = 2 * np.pi * np.arange(16) / 16
    r = np.array(case["corners"])
    a = 0.1 + 2 * np.pi * np.arange(len(r)) / len(r)

    def new():
        return (
            annulus.grid(case["annulus"])[0],
            RZline(*cv.points(case["curve"], t)),
            boundary.PolygonBoundaryXZ(3 + r * np.cos(a), r * np.sin(a)),
        )

    grid, line, wall = new()
    nx, nz_ = grid.nx, grid.nz
    x = {"first": 0.5, "last": nx - 1.5, "any": 0.5 + (nx - 2) * rng.rand()}[case["row"]]
    x = x + 4 * case["step"] * (rng.rand(n) - 0.5)
    z = rng.rand(n) * nz_
    dx, dz = case["step"] * (2 * rng.rand(2, n) - 1)
    p = np.array([3.0, 0.0])[:, None] + 2 * rng.rand(2, n) - 1
    dp = 0.3 * case["step"] * (2 * rng.rand(2, n) - 1)
    for i in range(-4, 5):
        g, ln, b = new()
        R, Z = g.getCoordinate(np.clip(x + i * dx, 0, nx - 1), z + i * dz)
        same(
            dict(zip("xz", map(np.asarray, grid.findIndex(R, Z)))),
            dict(zip("xz", map(np.asarray, g.findIndex(R, Z)))),
            f"findIndex, step {i}",
        )
        P = p + i * dp
        same(
            {"theta": np.array([line.closestPoint(*v) for v in P.T])},
            {"theta": np.array([ln.closestPoint(*v) for v in P.T])},
            f"closestPoint, step {i}",
        )
        same(
            {"outside": np.asarray(wall.outside(P[0], 0.5, P[1]))},
            {"outside": np.asarray(b.outside(P[0], 0.5, P[1]))},
            f"outside, step {i}",
        )
    return []


LAWS += [Law("moving", moving_case, moving, 300, 5000)]
