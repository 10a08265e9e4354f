"""
Histories of operations on the real code: each is run in a process of its own,
forked from the one that ran its beginning, so that every operation is run on
the state that exactly its history left behind.
"""
import importlib
import os
import pickle
import sys
import traceback
import types

from vt.core import Hang, by_code, digest


class ChildError(Exception):
    def __init__(self, text, by_code=False):
        Exception.__init__(self, text)
        self.by_code = by_code


def child(f):
    """The result of f, run in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                data = pickle.dumps((True, f()), -1)
            except BaseException as e:
                data = pickle.dumps((False, (traceback.format_exc(),
                                             by_code(e))), -1)
            with os.fdopen(w, "wb") as out:
                out.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as inp:
            data = inp.read()
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise ChildError("the process died")
    ok, value = pickle.loads(data)
    if not ok:
        raise ChildError(*value)
    return value


def globals_of_code():
    """The data in modules, classes and functions of the code under test."""
    out = []
    for name in sorted(sys.modules):
        if name != "taupy" and not name.startswith("taupy.") or \
                ".tests" in name:
            continue
        mod = sys.modules[name]
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if getattr(v, "__module__", name) != name:
                continue
            data(out, name + "." + k, v, 0)
    return out


def data(out, name, v, depth):
    if isinstance(v, type):
        if depth < 3:
            for k, x in sorted(vars(v).items()):
                if k not in ("__dict__", "__weakref__", "__doc__",
                             "__module__", "__dictoffset__"):
                    data(out, name + "." + k, x, depth + 1)
    elif isinstance(v, (types.FunctionType, classmethod, staticmethod)):
        f = getattr(v, "__func__", v)
        if getattr(f, "__defaults__", None) or getattr(f, "__dict__", None):
            put(out, name, (f.__defaults__, dict(f.__dict__)))
    elif not callable(v) or hasattr(v, "__dict__"):
        put(out, name, v)


def put(out, name, v):
    try:
        out.append((name, pickle.dumps(v, -1)))
    except Exception:
        out.append((name, repr(type(v))))


def state(*objects):
    """Digest of objects and of all data in modules."""
    return digest(pickle.dumps((objects, globals_of_code()), -1))


def difference(got, want):
    """Where two values made of tuples, lists, strings, numbers differ."""
    if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)):
        if len(got) != len(want):
            return "%d instead of %d: %s" % (len(got), len(want), str(
                got)[:200])
        for a, b in zip(got, want):
            d = difference(a, b)
            if d:
                return d
        return None
    if isinstance(got, float) and isinstance(want, float):
        if got == want or got != got and want != want or \
                abs(got - want) <= 1e-9 * max(abs(got), abs(want)) + 1e-12:
            return None
    elif got == want:
        return None
    return "%r instead of %r" % (got, want)


def load_code():
    """Imports everything there is, so that no import is part of a history."""
    for n in ("tau", "TauP_Time", "TauP_Pierce", "TauP_Path", "TauP_Create",
              "TauModelLoader", "SeismicPhase", "TauModel", "SlownessModel",
              "VelocityModel"):
        importlib.import_module("taupy." + n)
