"""Interpreter which has never called the library, for comparison.

A server process, started on demand by each worker, imports the library but
performs nothing itself; for each job it forks a child, which does the job and
sends back the result.  Thus state which calls may leave behind anywhere in the
library is never shared between jobs.
"""
import os
import pickle
import resource
import struct
import subprocess
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_SERVER = None


def _send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack("<q", len(data)) + data)
    f.flush()


def _recv(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError
    return pickle.loads(f.read(struct.unpack("<q", head)[0]))


def ask(module, function, jobs):
    """Result of ``pbt.props.module.function(job)`` for jobs, each on its own"""
    global _SERVER
    if _SERVER is None or _SERVER[0] != os.getpid() or _SERVER[1].poll() is not None:
        p = subprocess.Popen(
            [sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); "
             "from pbt import pristine; pristine.serve()" % VERIF],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _SERVER = os.getpid(), p
    p = _SERVER[1]
    _send(p.stdin, (module, function, [pickle.dumps(j) for j in jobs]))
    res = []
    for _ in jobs:
        kind, val = _recv(p.stdout)
        if kind == "error":
            raise RuntimeError("in separate process: " + val)
        res.append(pickle.loads(val))
    return res


def serve():
    import importlib
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    from . import env                                       # noqa: F401
    while True:
        try:
            module, function, jobs = _recv(sys.stdin.buffer)
        except EOFError:
            return
        fn = getattr(importlib.import_module("pbt.props." + module), function)
        for job in jobs:
            _send(out, _fork(fn, job))


def _fork(fn, job):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (150, 160))
            import warnings
            warnings.simplefilter("ignore")
            try:
                ans = "ok", pickle.dumps(fn(pickle.loads(job)))
            except BaseException:
                ans = "error", traceback.format_exc()[-1500:]
            with os.fdopen(w, "wb") as f:
                pickle.dump(ans, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return "error", "ended without result (150 s of CPU time)"
    return pickle.loads(data)
