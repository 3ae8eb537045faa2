"""Evaluate a function in a process in which nothing else has been computed

A server (a new interpreter, which only imports the modules) is started once per worker; each
request is evaluated in a fork of it, so that nothing which a request changes is seen by another one.
"""

import importlib
import os
import pickle
import struct
import subprocess
import sys

_server = None


def _read(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError("no answer")
    n = struct.unpack("<q", head)[0]
    data = f.read(n)
    if len(data) < n:
        raise EOFError("incomplete answer")
    return data


def _write(f, data):
    f.write(struct.pack("<q", len(data)) + data)
    f.flush()


def _start():
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    code = f"import sys; sys.pycache_prefix = {sys.pycache_prefix!r}; from vlib import pristine; pristine.serve()"
    return subprocess.Popen(
        [sys.executable, "-c", code],
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL,
        env=env,
        cwd="/",
    )


def evaluate(module, name, *args):
    """Result of module.name(*args) in a pristine process, in the current directory"""
    global _server
    from vlib.harness import HarnessError

    if _server is None or _server[0] != os.getpid():
        _server = os.getpid(), _start()
    p = _server[1]
    try:
        _write(p.stdin, pickle.dumps((module, name, args, os.getcwd())))
        status, value = pickle.loads(_read(p.stdout))
    except BaseException as e:
        # Also after a time limit: the answer to this request must not be taken for that to another one
        _server = None
        p.kill()
        p.wait()
        if isinstance(e, (EOFError, OSError)):
            raise HarnessError(f"pristine process: {e}") from None
        raise
    if status != "ok":
        raise HarnessError(value)
    return value


def serve():
    out = os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    for m in ("checks.c38",):
        importlib.import_module(m)
    while True:
        try:
            request = _read(sys.stdin.buffer)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                import traceback

                module, name, args, cwd = pickle.loads(request)
                os.chdir(cwd)
                try:
                    answer = "ok", getattr(importlib.import_module(module), name)(*args)
                except BaseException:
                    answer = "error", traceback.format_exc()
                _write(out, pickle.dumps(answer))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
