"""Property-based checking harness.

A check module (``/verif/checks/cNN.py``) defines ``PROPERTY`` and a list of
``LAWS``.  A law couples

* a Hypothesis strategy which draws a JSON-able *case* (a dict of plain numbers,
  strings and lists - everything the law needs, so that a case is its own replay),
* a function ``law(case)`` which runs the real code from /repo on it, compares it
  with an oracle and raises on disagreement.  It returns a list of labels; the
  label ``trivial`` marks a case which does not count as non-trivial.

``run_property`` spreads the laws over the cores (shards with derived seeds),
collects counts, shrinks failures and writes the evidence.
"""

import collections
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO_DEV", "/repo")


class HarnessError(Exception):
    """Something is wrong with the check itself, not with the code under test"""


class Law:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule or (fn.__doc__ or "").strip().split("\n\n")[0]


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def through_repo(exc):
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(fr.filename).startswith(REPO + os.sep):
            return True
    return False


def is_violation(exc):
    """Exceptions of a law which mean that the code under test misbehaved"""
    if isinstance(exc, HarnessError):
        return False
    if isinstance(exc, (MemoryError, KeyboardInterrupt)):
        return False
    if isinstance(exc, (OSError, ImportError)) and not through_repo(exc):
        return False
    return True


@contextlib.contextmanager
def quiet():
    import numpy as np

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            with contextlib.redirect_stderr(io.StringIO()):
                yield


class Hang(Exception):
    """A case which normally takes well under a second did not finish"""


class Stop(BaseException):
    """Ends a shard without shrinking"""


# Seconds after which a single case counts as hanging
HANG = float(os.environ.get("VERIF_HANG", "150"))


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Hang(f"did not finish within {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call_law(law, case):
    """One evaluation"""
    # Code under test must not draw from a global generator in a way which
    # depends on what ran before
    import numpy as np

    np.random.seed(12345)
    random.seed(12345)
    with quiet(), time_limit(HANG):
        return list(law.fn(case) or [])


def silence():
    """Workers only report through their results; code under test may keep its own reference to stdout"""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)


def run_shard(args):
    prop, law_index, shard, n, seed, deadline, tmp = args
    laws = load_laws(prop)
    law = laws[law_index]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40

    os.makedirs(tmp, exist_ok=True)
    os.chdir(tmp)
    out = {
        "law": law.name,
        "evaluations": 0,
        "labels": collections.Counter(),
        "keys": set(),
        "samples": [],
        "failure": None,
        "error": None,
        "inconclusive": 0,
    }
    state = {"fail": None}

    def body(case):
        if time.time() > deadline and state["fail"] is None:
            out["inconclusive"] += 1
            return
        if state["fail"] is None:
            out["evaluations"] += 1
        try:
            labels = call_law(law, case)
        except Exception as e:  # noqa
            if not is_violation(e):
                state["harness"] = traceback.format_exc()
                raise
            state["fail"] = (case, f"{type(e).__name__}: {e}", traceback.format_exc())
            if isinstance(e, Hang):
                raise Stop() from None
            raise AssertionError(f"{type(e).__name__}: {e}") from None
        if state["fail"] is None:
            out["labels"].update(labels)
            if "trivial" not in labels:
                k = case_key(case)
                if k not in out["keys"]:
                    out["keys"].add(k)
                    if len(out["samples"]) < 3:
                        out["samples"].append({"case": case, "labels": labels})

    test = given(law.strategy)(body)
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        print_blob=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(derive(seed, prop, law.name, shard))(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            with contextlib.redirect_stderr(io.StringIO()):
                test()
    except BaseException as e:  # noqa
        if state.get("harness"):
            out["error"] = state["harness"]
        elif state["fail"] is not None:
            case, msg, tb = state["fail"]
            out["failure"] = {"case": case, "message": msg, "traceback": tb}
        else:
            out["error"] = "".join(traceback.format_exception(e))
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    return out


_laws = {}


def load_module(prop):
    import importlib

    return importlib.import_module(f"checks.{prop.lower()}")


def load_laws(prop):
    if prop not in _laws:
        _laws[prop] = load_module(prop).LAWS
    return _laws[prop]


def known_findings(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    with open(fn) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def run_property(prop, tier, seed, nproc=None, only=None):
    t0 = time.time()
    module = load_module(prop)
    laws = load_laws(prop)
    nproc = nproc or int(os.environ.get("VERIF_NPROC") or min(8, os.cpu_count() or 1))
    budget = 400 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    base = tempfile.mkdtemp(prefix="zverif_")
    tasks = []
    try:
        for i, law in enumerate(laws):
            if only and law.name not in only:
                continue
            n = getattr(law, tier)
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = max(1, int(n * scale))
            nsh = max(1, min(nproc, n // 5))
            for s in range(nsh):
                m = n // nsh + (1 if s < n % nsh else 0)
                tasks.append(
                    (prop, i, s, m, seed, deadline, os.path.join(base, f"{i}_{s}"))
                )
        ctx = multiprocessing.get_context("fork")
        sys.stdout.flush()
        with ctx.Pool(min(nproc, len(tasks)), initializer=silence) as pool:
            results = pool.map_async(run_shard, tasks, chunksize=1).get(
                timeout=budget + 2 * HANG
            )
        findings = []
        probes = getattr(module, "KNOWN", {})
        os.makedirs(os.path.join(base, "known"), exist_ok=True)
        os.chdir(os.path.join(base, "known"))
        for k in known_findings(prop):
            # The probe runs exactly the listed input
            try:
                with quiet():
                    still = probes[k["probe"]](k["input"])
            except Exception:  # the laws decide on anything else
                still = True
            if still:
                findings.append(k["what"])
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)

    failures = []
    errors = []
    per_law = {}
    keys = set()
    samples = []
    evaluations = 0
    inconclusive = 0
    for r in results:
        p = per_law.setdefault(
            r["law"],
            {"evaluations": 0, "distinct_nontrivial": set(), "labels": collections.Counter()},
        )
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] |= r["keys"]
        p["labels"].update(r["labels"])
        keys |= {r["law"] + k for k in r["keys"]}
        evaluations += r["evaluations"]
        inconclusive += r["inconclusive"]
        if len([s for s in samples if s["law"] == r["law"]]) < 2 and r["samples"]:
            samples.append({"law": r["law"], **r["samples"][-1]})
        if r["failure"]:
            failures.append((r["law"], r["failure"]))
        if r["error"]:
            errors.append((r["law"], r["error"]))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": " | ".join(
                f"[{law.name}] {law.rule}" for law in laws
            )
            + " || A case counts once (by content) and only if the law did not label it trivial.",
            "samples": samples,
            "per_law": {
                k: {
                    "evaluations": v["evaluations"],
                    "distinct_nontrivial": len(v["distinct_nontrivial"]),
                    "labels": dict(sorted(v["labels"].items())),
                }
                for k, v in per_law.items()
            },
            "skipped_for_time": inconclusive,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len({f[0] for f in failures}),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k}")
    seen = set()
    failures.sort(key=lambda f: len(json.dumps(f[1]["case"], default=str)))
    for name, fail in failures:
        if name in seen:
            continue
        seen.add(name)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f"{prop}-{name}-{case_key(fail['case'])}.json")
        with open(fn, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "law": name,
                    "case": fail["case"],
                    "message": fail["message"],
                    "traceback": fail["traceback"],
                    "replay_cmd": f"python3 run.py --property {prop} --replay {fn}",
                },
                f,
                indent=1,
            )
        print(f"# law {name}: {fail['message'][:600]}")
        print(f"VIOLATION property={prop} replay={fn}")
    if failures:
        return 1
    if errors:
        for name, e in errors:
            print(f"HARNESS ERROR in law {name}:\n{e}")
        return 2
    if inconclusive:
        print(f"# time budget reached: {inconclusive} cases were not run")
    print(
        f"# {prop} ok: {evaluations} cases, {len(keys)} distinct non-trivial, "
        f"{evidence['wall_s']} s"
    )
    return 0


def replay(prop, fn):
    with open(fn) as f:
        data = json.load(f)
    if data["property"] != prop:
        raise HarnessError("replay file is for another property")
    (law,) = [x for x in load_laws(prop) if x.name == data["law"]]
    base = tempfile.mkdtemp(prefix="zverif_")
    os.chdir(base)
    try:
        call_law(law, data["case"])
    except Exception as e:  # noqa
        if not is_violation(e):
            raise
        traceback.print_exc()
        print(f"VIOLATION property={prop} replay={fn}")
        return 1
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    print("# replay: property holds on this case")
    return 0
