"""C36  Progress displays"""

import contextlib
import importlib
import os
import re
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from vlib.gen import close, sq
from vlib.harness import Law

ASSUMPTIONS = [
    "what is shown is read from the standard output; a stand-in for the package tqdm, which is not installed",
]


@contextlib.contextmanager
def shown():
    """Everything which is written to the standard output, by whatever way, and whether it has been seen at once"""
    out = []
    for f in (sys.stdout, sys.__stdout__):
        if f is not None:
            f.flush()
    if sys.__stdout__ is not None:
        # As it is when it is not written through
        sys.__stdout__.reconfigure(write_through=False, line_buffering=False)
    saved = os.dup(1)
    with tempfile.TemporaryFile() as tmp:
        os.dup2(tmp.fileno(), 1)
        old = sys.stdout
        sys.stdout = sys.__stdout__ or old
        try:
            yield out
        finally:
            seen = os.fstat(tmp.fileno()).st_size
            for f in (sys.stdout, old):
                f.flush()
            sys.stdout = old
            os.dup2(saved, 1)
            os.close(saved)
            tmp.seek(0)
            out.append(tmp.read().decode("utf-8"))
            out.append(seen == os.fstat(tmp.fileno()).st_size)


class Bar:
    """Stand-in for tqdm"""

    all = []

    def __init__(self, iterable=None, desc=None, total=None, **kwargs):
        self.iterable = iterable
        self.total = total if total is not None else len(iterable) if hasattr(iterable, "__len__") else None
        self.n = 0
        Bar.all.append(self)

    def update(self, n=1):
        self.n += n

    def __iter__(self):
        for o in self.iterable:
            yield o
            self.n += 1

    def __len__(self):
        return self.total

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass

    def set_description(self, *args, **kwargs):
        pass

    set_postfix = refresh = set_description


def package(with_tqdm, cache={}):
    """The package as it is imported with or without tqdm"""
    if with_tqdm not in cache:
        names = [k for k in sys.modules if k.split(".")[0] in ("zoidberg", "tqdm")]
        saved = {k: sys.modules.pop(k) for k in names}
        # Modules which keep the standard output get the real one
        old = sys.stdout
        sys.stdout = sys.__stdout__ or old
        try:
            if with_tqdm:
                t, auto = types.ModuleType("tqdm"), types.ModuleType("tqdm.auto")
                t.auto, t.tqdm, auto.tqdm = auto, Bar, Bar
                sys.modules.update({"tqdm": t, "tqdm.auto": auto})
            else:
                sys.modules.update({"tqdm": None, "tqdm.auto": None})
            cache[with_tqdm] = {
                m: importlib.import_module("zoidberg." + m)
                for m in ("zoidberg", "grid", "field", "poloidal_grid", "progress")
            }
        finally:
            sys.stdout = old
            for k in [k for k in sys.modules if k.split(".")[0] in ("zoidberg", "tqdm")]:
                del sys.modules[k]
            sys.modules.update(saved)
    return cache[with_tqdm]


ENTRY = re.compile(r"\[([^\]]*)\]\s*([0-9.]+)%\s*(.*)", re.S)


def entries(text):
    """All states of the bar: (bar, percentage, status)"""
    res = []
    for part in text.split("\r"):
        m = ENTRY.search(part)
        if m:
            res.append((m.group(1), float(m.group(2)), m.group(3).strip()))
    return res


value = st.one_of(
    st.integers(0, 1000).map(lambda i: ["float", i / 1000]),
    st.floats(0, 1).map(lambda v: ["float", v]),
    st.integers(-2, 3).map(lambda i: ["int", i]),
    sq(3.0, 30).map(lambda v: ["float", v]),
    st.floats(0, 1).map(lambda v: ["numpy", v]),
    st.sampled_from([["other", None], ["other", "0.5"], ["other", [0.5]]]),
)
bar_case = st.fixed_dictionaries(
    {
        "values": st.lists(value, min_size=1, max_size=6),
        "length": st.one_of(st.none(), st.integers(1, 80)),
        "ascii": st.one_of(st.none(), st.booleans()),
        "style": st.sampled_from([None, None, None, False, True]),
    }
)


def bar(case):
    """any sequence of values, lengths and characters: percentage, filled part and status are those of the value; trivial never"""
    update_progress = package(False)["progress"].update_progress

    kw = {}
    if case["length"] is not None:
        kw["barLength"] = case["length"]
    if case["ascii"] is not None:
        kw["ascii"] = case["ascii"]
    if case["style"] is not None:
        kw["zoidberg"] = case["style"]
    for kind, v in case["values"]:
        given = np.float64(v) if kind == "numpy" else v
        with shown() as out:
            update_progress(given, **kw)
        assert out[1], "not shown at once"
        assert out[0].startswith("\r"), f"does not start at the beginning of the line: {out[0]!r}"
        got = entries(out[0])
        assert len(got) == 1, f"{v!r}: shown {out[0]!r}"
        filling, percent, status = got[0]
        p, expect = (0.0, "") if kind == "other" else (min(max(float(v), 0.0), 1.0), "")
        word = "error" if kind == "other" else "Halt" if v < 0 else "Done" if v >= 1 else ""
        if word:
            assert word.lower() in status.lower(), f"{v!r}: status {status!r}"
            assert out[0].endswith("\n"), f"{v!r}: the line is not ended"
        else:
            assert status == "", f"{v!r}: status {status!r}"
            assert "\n" not in out[0], f"{v!r}: line ended before the end"
        close(percent, 100 * p, 0.006, f"percentage for {v!r}")
        cursor = "#" if case["ascii"] else "█"
        if case["style"]:
            assert set(filling) & {"#", "█"} <= {cursor}, f"characters of {filling!r}"
        else:
            n = case["length"] if case["length"] is not None else 10
            assert len(filling) == n, f"{v!r}: bar of length {len(filling)}, expected {n}"
            k = len(filling) - len(filling.lstrip(cursor))
            assert set(filling[k:]) <= {"-"}, f"{v!r}: bar {filling!r}"
            close(k, n * p, 0.5 + 1e-9, f"filled part for {v!r}")
    return []


time_case = st.fixed_dictionaries(
    {
        "secs": st.one_of(
            st.integers(0, 400000),
            st.floats(0, 1e6),
            st.tuples(st.sampled_from([60, 3600, 86400]), st.integers(1, 30), sq(1.0, 20)).map(
                lambda t: max(t[0] * t[1] + t[2], 0)
            ),
        ),
    }
)
LIMITS = {"d": None, "h": 24, "m": 60, "s": 60}


def seconds(text):
    """Duration of a text such as 01h02m03s"""
    m = re.fullmatch(r"((?:\d+[dhm])*)(\d+)s", text)
    assert m, f"not a duration: {text!r}"
    parts = re.findall(r"(\d+)([dhms])", text)
    units = [u for _, u in parts]
    assert units == list("dhms")[4 - len(units) :], f"units of {text!r}"
    for i, (n, u) in enumerate(parts):
        assert len(n) >= 2, f"digits of {text!r}"
        if LIMITS[u]:
            assert int(n) < LIMITS[u], f"{n}{u} in {text!r}"
        if i == 0 and u != "s":
            assert int(n) > 0, f"starts with nothing: {text!r}"
    return sum(int(n) * {"d": 86400, "h": 3600, "m": 60, "s": 1}[u] for n, u in parts)


def times(case):
    """durations from below a second to many days, near full minutes, hours and days: days, hours, minutes and seconds add up to the duration, each below its limit; trivial never"""
    format_time = package(False)["progress"].format_time

    close(seconds(format_time(case["secs"])), case["secs"], 0.5 + 1e-6, f"duration of {case['secs']}")
    return []


clock_case = st.fixed_dictionaries(
    {
        "steps": st.lists(
            st.tuples(
                st.one_of(st.floats(0, 1e5), sq(90.0, 30).map(abs)),
                st.one_of(st.sampled_from([0.0, 0, 1, 0.5]), st.integers(1, 1000).map(lambda i: i / 1000)),
            ).map(list),
            min_size=1,
            max_size=5,
        ),
        "last": st.floats(0, 1e4),
        "fails": st.booleans(),
    }
)


def clock(case):
    """histories of updates at any times, with or without an error at the end: percentage, time since the start and the remaining time in proportion, 100 % at the end; trivial if the clock is not read through the module time"""
    import time

    Progress = package(False)["progress"].Progress

    now = [1000.0]
    calls = []

    def fake():
        calls.append(1)
        return now[0]

    real = time.time
    res = []
    time.time = fake
    try:
        with shown() as out:
            try:
                with Progress() as p:
                    for dt, v in case["steps"]:
                        now[0] += dt
                        p.update(v)
                        res.append((now[0] - 1000.0, v))
                    now[0] += case["last"]
                    if case["fails"]:
                        raise KeyError("stop")
            except KeyError as e:
                assert case["fails"] and e.args == ("stop",)
                failed = True
            else:
                failed = False
    finally:
        time.time = real
    assert failed == case["fails"], "an error inside is hidden"
    res.append((now[0] - 1000.0, 1))
    assert out[0].endswith("\n"), "line not ended"
    got = [e for e in re.split(r"[\r\n]", out[0]) if e.strip()]
    assert len(got) == len(res), f"shown {out[0]!r}"
    for text, (t, v) in zip(got, res):
        m = re.fullmatch(r"\s*([0-9.]+) % \.\.\. (\S+)>(\S+)\s*", text)
        assert m, f"shown {text!r}"
        close(float(m.group(1)), 100 * v, 0.006, "percentage")
        if calls:
            close(seconds(m.group(2)), t, 0.5 + 1e-6, "time since the start")
            if v:
                close(seconds(m.group(3)), t / v - t, 0.5 + 1e-6 * (1 + t / v), "remaining time")
    return [] if calls else ["trivial"]


stage_case = st.fixed_dictionaries(
    {
        "tqdm": st.booleans(),
        "what": st.sampled_from(["maps", "maps", "upscale"]),
        "ny": st.integers(1, 5),
        "nx": st.integers(5, 6),
        "nz": st.integers(3, 5),
        "nslice": st.integers(1, 2),
        "samples": st.sampled_from([None, None, 2]),
        "slab": st.booleans(),
        "yperiodic": st.booleans(),
        "style": st.sampled_from([None, None, {"ascii": True}, {"barLength": 17}]),
        "factor": st.integers(1, 4),
    }
)


def stages(case):
    """making maps and upscaling, with the own display and with tqdm: each stage starts at 0, never goes back, ends at exactly 100 %, the results are the same as without a display, and quiet shows nothing; trivial if nothing is shown"""
    pk = package(case["tqdm"])
    Bar.all.clear()
    ny = case["ny"]
    if case["what"] == "maps":
        ycoords = (np.arange(ny) + 0.5) * 0.6 / ny
        pol = pk["poloidal_grid"].RectangularPoloidalGrid(
            case["nx"], case["nz"], 0.4, 0.5, Rcentre=2.0, MXG=1
        )
        grid = pk["grid"].Grid(pol, ycoords, 0.6, yperiodic=case["yperiodic"])
        f = (
            pk["field"].Slab(By=1.0, Bz=0.05, Bzprime=0.1, xcentre=2.0)
            if case["slab"]
            else pk["field"].CurvedSlab(By=1.0, Bz=0.05, Bzprime=0.1, xcentre=2.0, Rmaj=2.0)
        )
        kw = {"nslice": case["nslice"], "MXG": 1, "refine_parallel_integral": 2}
        if case["samples"]:
            kw["samples_per_dim"] = case["samples"]

        def run(quiet, **more):
            return pk["zoidberg"].make_maps(grid, f, quiet=quiet, **kw, **more)
    else:
        rng = np.random.RandomState(ny)
        X, _, Z = np.mgrid[0 : case["nx"], 0:ny, 0 : case["nz"]]
        maps = {"forward_xt_prime": X + 0.25, "forward_zt_prime": Z - 0.125}
        data = rng.rand(case["nx"], ny, case["nz"])

        def run(quiet, **more):
            return {"field": pk["zoidberg"].upscale(data, maps, upscale_factor=case["factor"], quiet=quiet)}

    with shown() as out:
        expect = run(True)
    assert out[0] == "" and not Bar.all, f"quiet, but shown {out[0]!r}"
    own = not case["tqdm"]
    more = case["style"] if own and case["style"] and case["what"] == "maps" else {}
    with shown() as out:
        got = run(False, **more)
    assert sorted(got) == sorted(expect), "results depend on the display"
    for k in expect:
        assert np.array_equal(np.asarray(got[k]), np.asarray(expect[k]), equal_nan=True), (
            f"{k} depends on the display"
        )
    for b in Bar.all:
        assert b.n == b.total, f"tqdm: {b.n} of {b.total} steps"
    states = entries(out[0])
    if states:
        done = True
        last = None
        for i, (filling, percent, status) in enumerate(states):
            if last is not None and percent < last:
                assert done and percent == 0, f"display goes from {last} % to {percent} %"
            if last is not None and done:
                assert percent == 0, f"goes on after the end: {last} % to {percent} %"
            done = percent == 100
            assert done == ("done" in status.lower()), f"{percent} %: status {status!r}"
            last = percent
        assert done, f"the display ends at {last} %"
    if own and (ny > 1 or case["what"] == "upscale"):
        assert states, "nothing shown"
    if case["tqdm"] and ny > 1 and case["what"] == "maps":
        assert Bar.all or states, "nothing shown"
    return [] if Bar.all or states else ["trivial"]


LAWS = [
    Law("bar", bar_case, bar, 800),
    Law("times", time_case, times, 4000),
    Law("clock", clock_case, clock, 600),
    Law("stages", stage_case, stages, 250),
]
