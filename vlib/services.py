"""Stand-ins for the external services and packages (osa, requests, fusionsc), which answer from a generated field

The state of the current case is in the module, so that it does not matter whether the code under test keeps a client.
"""

import contextlib
import math
import sys
import threading
import time
import types

import numpy as np


class State:
    """What the services know, and what they were asked"""

    def __init__(self, cylindrical=None, lines=None, sign=1):
        # (r, phi, z) -> Br, Bphi, Bz
        self.cylindrical = cylindrical
        # Exact field lines, and whether the field points to larger phi
        self.lines = lines
        self.sign = sign
        self.calls = []
        self.fail = 0
        # How often tracing from a position (r, z) fails
        self.fail_at = {}
        self.lock = threading.Lock()

    def call(self, name, **what):
        with self.lock:
            self.calls.append(dict(what, name=name))
            if self.fail > 0:
                self.fail -= 1
                raise RuntimeError("service is not available")

    def named(self, name):
        return [c for c in self.calls if c["name"] == name]


class Box:
    """An object of the service's types; attributes are set from outside"""

    def __init__(self, *args, **kw):
        self.__dict__.update(kw)


class Types:
    def __getattr__(self, name):
        return lambda *a: Box(kind=name)


def config_of(config):
    d = dict(config.__dict__)
    return {
        k: (np.asarray(v).tolist() if isinstance(v, (list, np.ndarray)) else v)
        for k, v in d.items()
    }


def cartesian(state, X, Y, Z):
    X, Y, Z = (np.asarray(a, dtype=float) for a in (X, Y, Z))
    r, phi = np.hypot(X, Y), np.arctan2(Y, X)
    br, bp, bz = state.cylindrical(r, phi, Z)
    return br * np.cos(phi) - bp * np.sin(phi), br * np.sin(phi) + bp * np.cos(phi), bz + 0 * r


class Service:
    def __init__(self, state):
        self.state = state

    def magneticField(self, a, b, **kw):
        """FieldLineProxy: (points, config); vmec: (id, points)"""
        pos, config = (b, a) if isinstance(a, str) else (a, b)
        what = config if isinstance(config, str) else config_of(config)
        assert np.ndim(pos.x1) == 1 and len(pos.x1) == len(pos.x2) == len(pos.x3)
        self.state.call("magneticField", config=what, n=len(pos.x1))
        bx, by, bz = cartesian(self.state, pos.x1, pos.x2, pos.x3)
        return Box(field=Box(x1=list(bx), x2=list(by), x3=list(bz)))

    def getPlasmaField(self, a, url, points, options):
        self.state.call("getPlasmaField", n=len(points.x1))
        br, bp, bz = self.state.cylindrical(*(np.asarray(getattr(points, k)) for k in ("x1", "x2", "x3")))
        f = 0.25
        return Box(x1=list(f * br), x2=list(f * bp), x3=list(f * bz))

    def trace(self, p, config, task, *args):
        inverse = bool(getattr(config, "inverseField", False))
        direction = self.state.sign * (-1 if inverse else 1)
        X, Y, Z = (np.asarray(getattr(p, k), dtype=float) for k in ("x1", "x2", "x3"))
        r, phi = np.hypot(X, Y), np.arctan2(Y, X)
        if hasattr(task, "linesPhi"):
            dphi = direction * abs(task.linesPhi.phi)
            self.state.call("trace", n=len(X), step=task.step, config=config_of(config))
            with self.state.lock:
                for at in self.state.fail_at:
                    if self.state.fail_at[at] > 0 and np.any(np.hypot(r - at[0], Z - at[1]) < 1e-9):
                        self.state.fail_at[at] -= 1
                        raise RuntimeError("service is not available for this line")
        else:
            dphi = direction * task.step * task.lines.numSteps / 6.0
        out = []
        for i in range(len(X)):
            # The start, some points on the way (a different number for each line), and the end
            x, y, z = [X[i]], [Y[i]], [Z[i]]
            for s in np.linspace(0, 1, 2 + (i + len(X)) % 3)[1:]:
                e = phi[i] + s * dphi
                r1, z1 = self.state.lines.exact(r[i], Z[i], phi[i], e)
                x.append(r1 * math.cos(e))
                y.append(r1 * math.sin(e))
                z.append(z1)
            out.append(Box(vertices=Box(x1=np.array(x), x2=np.array(y), x3=np.array(z))))
        return Box(lines=out)


class FscField:
    """The fusionsc field of the current case"""

    def __init__(self, state):
        self.state = state

    def interpolateXyz(self, points):
        X, Y, Z = np.broadcast_arrays(*(np.asarray(p, dtype=float) for p in points))
        return np.array(cartesian(self.state, X, Y, Z))


def poincareInPhiPlanes(points, field, phiPlanes, turns, direction="field", **kw):
    state = field.state
    state.call("poincare", direction=direction, turns=turns, **kw)
    X, Y, Z = np.broadcast_arrays(*(np.asarray(p, dtype=float) for p in points))
    r, phi = np.hypot(X, Y), np.arctan2(Y, X)
    s = {"ccw": 1, "cw": -1, "field": state.sign, "against": -state.sign}[direction]
    planes = np.atleast_1d(np.asarray(phiPlanes, dtype=float))
    out = np.empty((3, len(planes)) + X.shape + (turns,))
    for i, pl in enumerate(planes):
        for ind in np.ndindex(X.shape):
            d = (s * (pl - phi[ind])) % (2 * np.pi)
            if d < 1e-9:
                d += 2 * np.pi
            for t in range(turns):
                e = phi[ind] + s * (d + 2 * np.pi * t)
                r1, z1 = state.lines.exact(r[ind], Z[ind], phi[ind], e)
                out[(slice(None), i) + ind + (t,)] = r1 * math.cos(e), r1 * math.sin(e), z1
    return out


@contextlib.contextmanager
def installed(state):
    """The packages exist, and nothing sleeps"""
    service = Service(state)

    class Client:
        def __init__(self, url, **kw):
            self.types = Types()
            self.service = service

    osa = types.ModuleType("osa")
    osa.Client = Client
    fsc = types.ModuleType("fusionsc")
    fsc.flt = types.SimpleNamespace(poincareInPhiPlanes=poincareInPhiPlanes)
    requests = types.ModuleType("requests")
    requests.get = lambda *a, **k: types.SimpleNamespace(raise_for_status=lambda: None)
    fakes = {"osa": osa, "fusionsc": fsc, "requests": requests}
    old = {k: sys.modules.get(k) for k in fakes}
    sys.modules.update(fakes)
    sleep = time.sleep
    time.sleep = lambda s: None
    from zoidberg import field

    had = field.__dict__.get("tracer", None)
    if "tracer" in field.__dict__:
        field.tracer = None
    try:
        yield
    finally:
        time.sleep = sleep
        if "tracer" in field.__dict__:
            field.tracer = had
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
