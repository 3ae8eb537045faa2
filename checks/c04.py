"""C04  A caching tracer never changes a result, whatever happened to the cache before"""

import os
import resource
import signal
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.gen import q
from vlib.harness import HarnessError, Law

ASSUMPTIONS = [
    "one cache name is used with one field only, as documented by its use",
    "interrupted writes: the process is killed (or gets an I/O error) after a generated number of bytes of a file were written (RLIMIT_FSIZE), inside a scratch directory",
]

# A pool of related requests: same values split differently over x and z, other
# shapes, scalars, other y, other options
pool_x = [
    [0.5, 1.25, 2.0],
    [0.5],
    0.5,
    [0.5, 1.25],
    [[0.5, 1.25], [2.0, 3.5]],
    [0.5, 1.25, 2.0, 3.5],
    [1, 2],
    [1.0, 2.0],
    [0.5, 1.2500000000000002],
    [2.0, 1.25, 0.5],
    3.5,
    [[0.5], [1.25]],
]
pool_y = [[0.0, 1.0], [0.0, 0.5, 1.0], [1.0, 0.0], [0.5, 1.0, 2.0], [0.0, 1.0, 2.0], (0.0, 1.0), [1.0, 2.0]]
pool_kw = [
    {},
    {"rtol": 1e-3},
    {"rtol": 1e-9},
    {"rtol": None},
    {"nsteps": 3},
    {"rtol": 1e-3, "nsteps": 3},
    {"nsteps": 1},
]


def shape_of(v):
    return np.shape(v)


compatible = [
    (i, j)
    for i in range(len(pool_x))
    for j in range(len(pool_x))
    if shape_of(pool_x[i]) == shape_of(pool_x[j]) or shape_of(pool_x[i]) == () or shape_of(pool_x[j]) == ()
]

request = st.fixed_dictionaries(
    {
        "xz": st.sampled_from(compatible).map(list),
        "y": st.integers(0, len(pool_y) - 1),
        "kw": st.integers(0, len(pool_kw) - 1),
        "list": st.booleans(),
        # scale of all positions: different numbers of digits
        "scale": st.sampled_from([1.0, 1.0, 1.0 / 3, 1e-7, -1.0]),
    }
)
op = st.one_of(
    st.fixed_dictionaries({"op": st.just("trace"), "r": request, "repeat": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("again"), "i": st.integers(0, 20)}),
    st.fixed_dictionaries({"op": st.just("reopen")}),
    st.fixed_dictionaries(
        {
            "op": st.sampled_from(["kill", "ioerror"]),
            "r": request,
            "after": st.integers(0, 64),
        }
    ),
    st.fixed_dictionaries({"op": st.just("interrupt"), "r": request}),
)
history_case = st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=10)})


class Interrupted(Exception):
    pass


class Reference:
    """A tracer with a result which depends on everything it is given"""

    def __init__(self):
        self.calls = 0
        self.fail = False

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None, nsteps=20):
        self.calls += 1
        if self.fail:
            raise Interrupted()
        return self.value(x_values, z_values, y_values, rtol, nsteps)

    @staticmethod
    def value(x_values, z_values, y_values, rtol=None, nsteps=20):
        x = np.atleast_1d(x_values).astype(float)
        z = np.atleast_1d(z_values).astype(float)
        if x.shape != z.shape:
            if x.size == 1 and np.ndim(x_values) == 0:
                x = x + np.zeros(z.shape)
            else:
                z = z + np.zeros(x.shape)
        y = np.asarray(y_values, dtype=float)
        out = np.empty((len(y),) + x.shape + (2,))
        opt = (0.0 if rtol is None else np.log(rtol)) + 0.01 * nsteps
        for i, yy in enumerate(y):
            d = yy - y[0]
            # Irrational numbers: need all digits in the cache
            out[i, ..., 0] = x * np.cos(d) - z * np.sin(d) + d * opt / 3 + 0.1 * y[0] * d
            out[i, ..., 1] = z * np.cos(d) + x * np.sin(d) * np.exp(d / 7) - d * opt
        return out


def build(r):
    i, j = r["xz"]
    s = r["scale"]

    def scaled(v):
        if s == 1.0:
            a = np.array(v)
        else:
            a = np.array(v, dtype=float) * s
        if a.ndim == 0:
            return a.item()
        return a.tolist() if r["list"] else a

    y = pool_y[r["y"]]
    if not r["list"]:
        y = np.array(y)
    return scaled(pool_x[i]), scaled(pool_x[j]), y, pool_kw[r["kw"]]


def in_child(f, limit):
    """Run f in a forked child which is killed by the kernel when a file grows
    beyond limit bytes. Returns whether the child was killed"""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            f()
        except BaseException:  # noqa
            code = 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def with_ioerror(f, limit):
    """Run f such that writing fails when a file grows beyond limit bytes"""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        f()
        return False
    except OSError:
        return True
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, handler)


def history(case):
    """histories of requests, restarts of the process and interrupted writes on one cache; trivial if no request is repeated after it was cached or interrupted"""
    from zoidberg.fieldtracer import CachingFieldTracer

    labels = set()
    with tempfile.TemporaryDirectory(dir=".") as d:
        name = os.path.join(os.path.abspath(d), "cache_%10.10s")
        ref = Reference()
        tracer = CachingFieldTracer(ref, cachename=name)
        done = []
        cached = set()
        hurt = set()

        def key(r):
            x, z, y, kw = build(r)
            return repr(
                (
                    np.shape(x),
                    np.shape(z),
                    np.array(x).tolist(),
                    np.array(z).tolist(),
                    list(y),
                    sorted(kw.items()),
                )
            )

        def trace(r):
            x, z, y, kw = build(r)
            before = ref.calls
            got = tracer.follow_field_lines(x, z, y, **kw)
            expect = Reference.value(x, z, y, **kw)
            got = np.asarray(got)
            assert got.shape == expect.shape, f"shape {got.shape} instead of {expect.shape}"
            assert np.all(np.abs(got - expect) <= 1e-14 * (1 + np.abs(expect))), (
                f"cached result {got.tolist()} instead of {expect.tolist()}"
            )
            k = key(r)
            if k in cached:
                assert ref.calls == before, "repeated request was traced again"
                labels.add("hit")
            if k in hurt:
                labels.add("after interruption")
                hurt.discard(k)
            assert ref.calls <= before + 1
            cached.add(k)
            done.append(r)

        for o in case["ops"]:
            kind = o["op"]
            if kind == "trace":
                trace(o["r"])
                if o["repeat"]:
                    trace(o["r"])
            elif kind == "again":
                if done:
                    trace(done[o["i"] % len(done)])
            elif kind == "reopen":
                tracer = CachingFieldTracer(ref, cachename=name)
            elif kind == "interrupt":
                k = key(o["r"])
                x, z, y, kw = build(o["r"])
                ref.fail = True
                try:
                    tracer.follow_field_lines(x, z, y, **kw)
                except Interrupted:
                    pass
                ref.fail = False
                hurt.add(k)
                done.append(o["r"])
            else:
                x, z, y, kw = build(o["r"])
                size = Reference.value(x, z, y, **kw).size * 26
                limit = int(size * o["after"] / 64)
                f = lambda: tracer.follow_field_lines(x, z, y, **kw)  # noqa
                if kind == "kill":
                    stopped = in_child(f, limit)
                    labels.add("killed" if stopped else "not killed")
                else:
                    stopped = with_ioerror(f, limit)
                    labels.add("io error" if stopped else "no io error")
                if stopped:
                    hurt.add(key(o["r"]))
                done.append(o["r"])
        # Finally everything again, as another process would see it
        tracer = CachingFieldTracer(ref, cachename=name)
        for r in list(done):
            trace(r)
    interesting = labels & {"hit", "after interruption"}
    return sorted(labels) + ([] if interesting else ["trivial"])


def pair(case):
    """two different requests, one after the other, on one cache"""
    from zoidberg.fieldtracer import CachingFieldTracer

    a, b = case["a"], case["b"]
    with tempfile.TemporaryDirectory(dir=".") as d:
        tracer = CachingFieldTracer(Reference(), cachename=os.path.join(os.path.abspath(d), "c_%10.10s"))
        for v in (a, b, a, b):
            x, z, y = v
            got = tracer.follow_field_lines(np.array(x), np.array(z), np.array(y))
            expect = Reference.value(np.array(x), np.array(z), np.array(y))
            assert got.shape == expect.shape
            assert np.all(np.abs(got - expect) <= 1e-14 * (1 + np.abs(expect))), (
                f"{got.tolist()} instead of {expect.tolist()}"
            )
    return ["trivial"] if a == b else ["different"]


digits = st.integers(-3, 30).map(lambda i: i / 4.0)


@st.composite
def pairs(draw):
    """Requests which share the sequence of all their numbers, or differ in one number"""
    n = draw(st.integers(1, 4))
    x = [draw(digits) for _ in range(n)]
    z = [draw(digits) for _ in range(n)]
    y = [0.0] + [draw(digits) + 0.001 for _ in range(draw(st.integers(1, 4)))]
    kind = draw(st.sampled_from(["shift", "swap", "one", "order", "tiny"]))
    x2, z2, y2 = list(x), list(z), list(y)
    if kind == "shift" and n > 1:
        flat = x + z + y
        m = draw(st.integers(1, (len(flat) - 2) // 2))
        x2, z2, y2 = flat[:m], flat[m : 2 * m], flat[2 * m :]
    elif kind == "swap":
        x2, z2 = z, x
    elif kind == "one":
        which = draw(st.sampled_from([0, 1, 2]))
        v = [x2, z2, y2][which]
        v[draw(st.integers(0, len(v) - 1))] += 0.25
    elif kind == "order":
        x2, z2 = x[::-1], z[::-1]
    else:
        x2[draw(st.integers(0, n - 1))] += 1e-13
    return {"a": [x, z, y], "b": [x2, z2, y2]}


def large(case):
    """requests with more points than numpy prints in full, which differ in a single value"""
    from zoidberg.fieldtracer import CachingFieldTracer

    n = case["n"]
    rng = np.random.RandomState(case["seed"])
    x = rng.rand(n)
    z = rng.rand(n)
    x2, z2 = x.copy(), z.copy()
    i = int(case["where"] * (n - 1))
    (x2 if case["in"] == "x" else z2)[i] += 1e-9
    y = np.array([0.0, 0.4])
    with tempfile.TemporaryDirectory(dir=".") as d:
        tracer = CachingFieldTracer(Reference(), cachename=os.path.join(os.path.abspath(d), "c_%10.10s"))
        for xx, zz in ((x, z), (x2, z2), (x.reshape(2, -1), z.reshape(2, -1))):
            got = tracer.follow_field_lines(xx, zz, y)
            expect = Reference.value(xx, zz, y)
            assert got.shape == expect.shape
            assert np.all(np.abs(got - expect) <= 1e-14 * (1 + np.abs(expect)))
    return ["large"]


large_case = st.fixed_dictionaries(
    {
        "n": st.sampled_from([20, 1000, 1002, 2500]),
        "seed": st.integers(0, 99),
        "where": q(0.0, 1.0),
        "in": st.sampled_from(["x", "z"]),
    }
)

LAWS = [
    Law("history", history_case, history, 600, 12000),
    Law("pair", pairs(), pair, 600, 12000),
    Law("large", large_case, large, 60, 600),
]
LEVEL = "fault_enumeration"
