"""C31  Fields and tracers which ask an external service"""

import glob
import os
from multiprocessing.pool import ThreadPool

import numpy as np
from hypothesis import strategies as st

from vlib.gen import LinearLines, close, larger, lst, q, raises, snapshot, sq, unchanged
from vlib.harness import Law
from vlib.services import FscField, State, installed

ASSUMPTIONS = [
    "the services are stand-ins which answer from a generated field: positions and fields in Cartesian coordinates; lines are followed along the "
    "field (or against it, for inverseField) through the given toroidal angle; fusionsc returns the first crossing of each plane in the given direction",
    "chunks which are traced in parallel run in threads rather than processes, so that the stand-in sees them",
    "less than one turn for fusionsc",
]

field_case = {
    "a": st.lists(sq(1.0, 8), min_size=9, max_size=9),
    "k": st.integers(1, 3),
}


def cylindrical(case):
    """(r, phi, z) -> components, affine in r and z, periodic in phi"""
    a, k = case["a"], case["k"]

    def f(r, phi, z):
        c, s = np.cos(k * phi), np.sin(k * phi)
        return (
            a[0] + a[1] * (r - 5) * c + a[2] * z * s,
            3 + a[3] * 0.3 + a[4] * 0.3 * (r - 5) * s + a[5] * 0.3 * z * c,
            a[6] + a[7] * (r - 5) * s + a[8] * z * c,
        )

    return f


KNOWN_CURRENTS = {
    -1: [108] * 50 + [36] * 20,
    "FMM002": [13423 * 108] * 50 + [-3544 * 36] * 20,
}
COILS = [160 + i + 5 * j for i in range(5) for j in range(10)]
COILS += [210 + 2 * j for j in range(10)] + [211 + 2 * j for j in range(10)]


def check_config(got, configuration):
    if isinstance(configuration, int) and configuration >= 0:
        assert got.get("configIds") == configuration, f"configuration {got}"
        assert "coilsIds" not in got
    else:
        assert "configIds" not in got
        assert got["coilsIds"] == COILS, "coils"
        close(got["coilsIdsCurrents"], KNOWN_CURRENTS[configuration], 0, "currents")


configurations = st.sampled_from([0, 3, 7, 12, -1, "FMM002"])

demand_case = st.fixed_dictionaries(
    {
        **field_case,
        "configuration": configurations,
        "shape": st.lists(st.integers(1, 4), min_size=0, max_size=3),
        "scalar_phi": st.booleans(),
        "seed": st.integers(0, 9999),
        "fail": st.sampled_from([0, 0, 0, 1, 2]),
        "which": st.sampled_from(["w7x", "w7x", "fsc"]),
    }
)


def on_demand(case):
    """components, strength, direction and configuration of the fields which ask the service for each set of points, of any shape; a service which fails once is asked again; trivial never"""
    from zoidberg import field

    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    x, z = 5 + rng.rand(*shape), rng.rand(*shape) - 0.5
    phi = 8 * rng.rand() - 4 if case["scalar_phi"] else 8 * rng.rand(*shape) - 4
    f = cylindrical(case)
    state = State(f)
    br, bp, bz = (v + 0 * x for v in f(x, phi, z))
    with installed(state):
        if case["which"] == "w7x":
            B = field.W7X_vacuum_on_demand(case["configuration"])
        else:
            B = field.FusionSCField(FscField(state))
        before = snapshot(x, z, phi)
        if case["which"] == "w7x" and case["fail"]:
            # Fails for a while
            state.fail = case["fail"]
            if case["fail"] == 1:
                close(B.Bxfunc(x, z, phi), br, 1e-12, "Bx, asked twice", 5)
                assert len(state.calls) == 2
            else:
                raises(RuntimeError, lambda: B.Bxfunc(x, z, phi), "failing service")
            state.fail = 0
        state.calls.clear()
        close(B.Bxfunc(x, z, phi), br, 1e-12, "Bx", 5)
        close(B.Byfunc(x, z, phi), bp, 1e-12, "By", 5)
        close(B.Bzfunc(x, z, phi), bz, 1e-12, "Bz", 5)
        both = B.Bxyzfunc(x, z, phi)
        assert len(both) == 3
        for got, e, n in zip(both, (br, bp, bz), "xyz"):
            close(got, e, 1e-12, f"B{n} of Bxyzfunc", 5)
        close(B.Bmag(x, z, phi), np.sqrt(br**2 + bp**2 + bz**2), 1e-12, "strength", 5)
        close(B.Rfunc(x, z, phi), x, 0, "R")
        close(B.pressure(x, z, phi), 0 * x, 0, "pressure")
        if shape:
            dx, dz = B.field_direction(np.array([x, z]), phi)
            close(dx, x * br / bp, 1e-11, "dx/dy", 50)
            close(dz, x * bz / bp, 1e-11, "dz/dy", 50)
        unchanged(before, x, z, phi)
        for c in state.named("magneticField"):
            assert c["n"] == np.size(x)
            check_config(c["config"], case["configuration"])
    return [case["which"]]


grid_case = st.fixed_dictionaries(
    {
        **field_case,
        "which": st.sampled_from(["vacuum", "vacuum", "vmec"]),
        "plasma": st.booleans(),
        "nx": st.integers(2, 5),
        "ny": st.integers(3, 9),
        "nz": st.integers(2, 5),
        "x_range": st.sampled_from([None, [4.5, 6.0], [5.0, 5.75]]),
        "z_range": st.sampled_from([None, [-1.0, 1.0], [-0.5, 0.25]]),
        "configuration": configurations,
        "other": configurations,
        "id": st.sampled_from(["w7x_ref_1", "w7x_ref_171"]),
        "seed": st.integers(0, 9999),
    }
)


def gridded(case):
    """fields on a grid: exact at the points of the grid in phi and between them in r and z (affine), linear between in phi, for any number of turns; the documented constants outside; read back the same from the saved file (only) for the same configuration; trivial never"""
    from zoidberg import field

    rng = np.random.RandomState(case["seed"])
    f = cylindrical(case)
    state = State(f)
    nx, ny, nz = case["nx"], case["ny"], case["nz"]
    kw = {"nx": nx, "ny": ny, "nz": nz}
    xr, zr = case["x_range"] or [4.05, 6.55], case["z_range"] or [-1.35, 1.35]
    for k in ("x_range", "z_range"):
        if case[k]:
            kw[k] = case[k]
    factor = 1.0
    vac = case["which"] == "vacuum"

    def make(configuration):
        if not vac:
            return field.W7X_VMEC(vmec_id=case["id"], **kw)
        if case["plasma"]:
            return field.W7X_vacuum(configuration=configuration, include_plasma_field=True, **kw)
        return field.W7X_vacuum(configuration=configuration, **kw)

    if vac and case["plasma"]:
        factor = 1.25

    def check(B, f, what):
        phis = np.linspace(0, 2 * np.pi, ny)
        for _ in range(3):
            x = xr[0] + (xr[1] - xr[0]) * rng.rand(4)
            z = zr[0] + (zr[1] - zr[0]) * rng.rand(4)
            j = rng.randint(0, ny - 1, size=4)
            s = rng.choice([0.0, 0.25, 0.5, 0.9], size=4)
            phi = phis[j] + s * (phis[j + 1] - phis[j])
            turns = rng.randint(-3, 4, size=4)
            lo, hi = f(x, phis[j], z), f(x, phis[j + 1], z)
            tol = 1e-10
            for fn, a, b, n in zip((B.Bxfunc, B.Byfunc, B.Bzfunc), lo, hi, "xyz"):
                close(
                    fn(x, z, phi + 2 * np.pi * turns), factor * ((1 - s) * a + s * b), tol, f"B{n} {what}", 50
                )
        x, z = (
            np.array([xr[0] - 0.1, xr[1] + 0.1, xr[0], xr[1]]),
            np.array([zr[0], zr[1], zr[0] - 0.1, zr[1] + 0.1]),
        )
        for fn, e in zip((B.Bxfunc, B.Byfunc, B.Bzfunc), (0.0, 1.0, 0.0)):
            close(fn(x, z, 1.0 + 0 * x), e + 0 * x, 0, "outside")
        close(B.Rfunc(x, z, 0 * x), x, 0, "R")

    for n in glob.glob("B.w7x*"):
        os.remove(n)
    try:
        with installed(state):
            check(make(case["configuration"]), f, "first")
            asked = state.named("magneticField")
            assert sum(c["n"] for c in asked) == nx * ny * nz
            for c in asked:
                if vac:
                    check_config(c["config"], case["configuration"])
                else:
                    assert c["config"] == case["id"]
            if not vac:
                return ["vmec"]
            # The saved field is the same, the one for another configuration is not
            state.calls.clear()
            check(make(case["configuration"]), f, "saved")
            assert not state.calls, "service was asked again"
            state.cylindrical = lambda r, p, z: tuple(2 * v for v in f(r, p, z))
            new = make(case["other"])
            if case["other"] == case["configuration"]:
                assert not state.calls
                check(new, f, "saved")
            else:
                assert state.named("magneticField"), "field of another configuration was used"
                for c in state.named("magneticField"):
                    check_config(c["config"], case["other"])
                if not case["plasma"]:
                    check(new, state.cylindrical, "other configuration")
    finally:
        for n in glob.glob("B.w7x*"):
            os.remove(n)
    return ["vacuum"]


lines_case = {
    "M": st.tuples(sq(0.3), sq(0.3), sq(0.3), sq(0.3)).map(list),
    "c": st.just([5.0, 0.0]),
    "u": st.tuples(sq(0.3), sq(0.3)).map(list),
    "w": st.tuples(sq(0.3), sq(0.3)).map(list),
    "k": st.integers(1, 3),
    "p": q(0.0, 3.0, 8),
}

trace_case = st.fixed_dictionaries(
    {
        **lines_case,
        "sign": st.sampled_from([1, -1]),
        "reverse": st.booleans(),
        "y0": sq(3.0, 12),
        "steps": st.lists(q(0.05, 0.8, 10), min_size=1, max_size=4),
        "shape": st.lists(st.integers(1, 4), min_size=1, max_size=3),
        "scalar": st.sampled_from(["", "", "x", "z"]),
        "seed": st.integers(0, 9999),
        "chunk": st.one_of(st.integers(1, 4), st.integers(1, 12)),
        "given": st.sampled_from([False, False, True]),
        "configuration": configurations,
        "step": st.sampled_from([None, 0.002, 0.05]),
        "default_step": st.sampled_from([None, 0.004]),
        "fail": st.sampled_from([0, 0, 1, 1, 2, 3]),
        "fail_line": st.one_of(st.none(), st.integers(0, 63)),
        "retry": st.sampled_from([None, 2, 3]),
        "rtol": st.sampled_from([None, 1e-3, 1e-6]),
        "options": st.sampled_from([{}, {"targetError": 1e-4}, {"grid": "g", "distanceLimit": 3}]),
    }
)


def starts(case):
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    x, z = 5 + rng.rand(*shape) - 0.5, rng.rand(*shape) - 0.5
    y = case["y0"] + (-1 if case["reverse"] else 1) * np.concatenate([[0.0], np.cumsum(case["steps"])])
    return x, z, y


def web(case):
    """the web service traces the lines of any shape of starting points, in chunks, both ways whatever the direction of the field, and is asked again when it fails, as often as allowed; trivial never"""
    from zoidberg import fieldtracer

    x, z, y = starts(case)
    n = x.size
    lines = LinearLines(case)
    state = State(lines=lines, sign=case["sign"])
    if case["scalar"] == "x":
        x = float(x.flat[0])
    elif case["scalar"] == "z":
        z = float(z.flat[0])
    expect = lines.exact_all(x, z, y)
    old = getattr(fieldtracer, "Pool", None)
    if old is not None:
        fieldtracer.Pool = lambda *a, **k: ThreadPool(2)
    try:
        with installed(state):
            given = None
            if case["given"]:
                from osa import Client

                given = Client("").types.MagneticConfig()
                given.configIds = 77
                t = fieldtracer.FieldTracerWeb(
                    config=given, chunk=case["chunk"], stepsize=case["default_step"], retry=case["retry"]
                )
            else:
                t = fieldtracer.FieldTracerWeb(
                    configId=case["configuration"],
                    chunk=case["chunk"],
                    stepsize=case["default_step"],
                    retry=case["retry"],
                )
            state.calls.clear()
            before = snapshot(x, z, y)
            got = t.follow_field_lines(x, z, y, stepsize=case["step"])
            unchanged(before, x, z, y)
            close(got, expect, 1e-9, "positions", 10)
            calls = state.named("trace")
            assert calls
            assert all(c["n"] <= case["chunk"] for c in calls)
            for c in calls:
                assert c["step"] == (case["step"] or case["default_step"] or 0.01), f"step {c['step']}"
                if case["given"]:
                    assert c["config"]["configIds"] == 77
                else:
                    check_config(
                        {k: v for k, v in c["config"].items() if k not in ("inverseField", "kind")},
                        case["configuration"],
                    )
            # One chunk size for this call only
            state.calls.clear()
            close(t.follow_field_lines(x, z, y, chunk=1000), expect, 1e-9, "positions, other chunks", 10)
            labels = ["parallel" if n > case["chunk"] and not case["given"] else "serial"]
            if case["fail"] and labels[0] == "parallel":
                state.calls.clear()
                allowed = case["retry"] or 3
                if case["fail_line"] is None:
                    state.fail = case["fail"]
                else:
                    # Only the chunk with this line
                    xs, zs = (np.ravel(v) for v in np.broadcast_arrays(x, z))
                    k = case["fail_line"] % n
                    state.fail_at = {(xs[k], zs[k]): case["fail"]}
                if case["fail"] < allowed:
                    close(t.follow_field_lines(x, z, y), expect, 1e-9, "positions, after failures", 10)
                    labels.append("asked again" if case["fail_line"] is None else "asked again for one chunk")
                else:
                    state.fail = 10**6
                    raises(RuntimeError, lambda: t.follow_field_lines(x, z, y), "failing service")
                    labels.append("failed")
            for bad in (
                [[1.0, 2.0], [1.0, 2.0, 3.0], y],
                [[1.0], [2.0], y[:1]],
                [[1.0], [2.0], np.stack([y, y])],
            ):
                raises(ValueError, lambda: t.follow_field_lines(*bad), "shapes of the arguments")
    finally:
        if old is not None:
            fieldtracer.Pool = old
    return labels


def fusionsc(case):
    """the fusionsc tracer returns the lines at each y, both ways whatever the direction of the field, with the requested accuracy for this call only, and its options; trivial never"""
    from zoidberg import fieldtracer

    x, z, y = starts(case)
    y = y[0] + (y - y[0]) * min(1.0, 6.0 / abs(y[-1] - y[0]))
    lines = LinearLines(case)
    state = State(lines=lines, sign=case["sign"])
    options = dict(case["options"])
    with installed(state):
        t = fieldtracer.FusionSCTracer(FscField(state), **options)
        before = snapshot(x, z, y)
        for rtol in (None, case["rtol"], None):
            state.calls.clear()
            got = t.follow_field_lines(x, z, y) if rtol is None else t.follow_field_lines(x, z, y, rtol=rtol)
            close(got, lines.exact_all(x, z, y), 1e-9, "positions", 10)
            for c in state.named("poincare"):
                e = dict(case["options"])
                if rtol is not None:
                    e["targetError"] = rtol
                got = {k: v for k, v in c.items() if k not in ("name", "direction", "turns")}
                assert got == e, f"options {got}, expected {e}"
        unchanged(before, x, z, y)
        assert options == case["options"]
    return ["against" if (case["sign"] < 0) != case["reverse"] else "along"]


LAWS = [
    Law("on_demand", demand_case, on_demand, 500),
    Law("gridded", grid_case, gridded, 200),
    Law("web", trace_case, web, 400),
    Law("fusionsc", trace_case, fusionsc, 400),
]

# Sizes far above those of the other laws
LAWS += [
    Law(
        "large on_demand",
        larger(demand_case, shape=lst(st.integers(5, 20), 1, 2)),
        on_demand,
        20,
        300,
        "as on_demand, with many points",
    ),
    Law(
        "large gridded",
        larger(grid_case, nx=st.integers(6, 14), ny=st.integers(10, 20), nz=st.integers(6, 14)),
        gridded,
        10,
        150,
        "as gridded, with many points",
    ),
    Law(
        "large web",
        larger(
            trace_case,
            shape=lst(st.integers(5, 12), 1, 2),
            steps=lst(q(0.05, 0.3, 10), 5, 9),
            chunk=st.one_of(st.integers(1, 12), st.integers(20, 200)),
        ),
        web,
        12,
        200,
        "as web, with many points and planes",
    ),
    Law(
        "large fusionsc",
        larger(
            trace_case,
            shape=lst(st.integers(5, 12), 1, 2),
            steps=lst(q(0.05, 0.3, 10), 5, 9),
            chunk=st.one_of(st.integers(1, 12), st.integers(20, 200)),
        ),
        fusionsc,
        12,
        200,
        "as fusionsc, with many points and planes",
    ),
]
