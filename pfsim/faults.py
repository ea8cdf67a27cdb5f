"""Injected interrupts, memory exhaustion and failing calls, at numbered points of one call."""
import ctypes
import os
import pickle
import struct
import sys

from .monitor import Monitor, CleanupLines, in_petrofit, where

_LIBS = ("numpy", "scipy", "astropy", "photutils", "matplotlib")


class Injected(RuntimeError):
    """An injected failure of a third-party call."""


class InjectedOS(OSError):
    pass


EXC = {
    "interrupt": lambda: KeyboardInterrupt("injected"),
    "memory": lambda: MemoryError(),   # as the real one, without a message
    "error": lambda: Injected("injected {0} %d failure"),
    "os": lambda: InjectedOS(5, "injected I/O error"),
    "value": lambda: ValueError("injected failure"),
}


def lib_callee(callee):
    mod = getattr(callee, "__module__", None)
    if not isinstance(mod, str):
        obj = getattr(callee, "__self__", None)
        mod = type(obj).__module__ if obj is not None else None
    if not isinstance(mod, str):
        mod = getattr(type(callee), "__module__", None)  # ufuncs and the like
    if not isinstance(mod, str):
        return False
    return mod.split(".")[0] in _LIBS


def in_cleanup(depth):
    """Whether petrofit is recovering from something, or undoing it, in the frame `depth` above this one or its callers."""
    f = sys._getframe(depth)
    while f is not None:
        fn = f.f_code.co_filename
        if in_petrofit(fn):
            if f.f_lineno in CleanupLines.of(fn):
                return True
            if f.f_code.co_name in ("__exit__", "__del__"):
                return True
        f = f.f_back
    return False


class Faulter:
    """Runs func() and raises at the `at`-th eligible point (None: only count points)."""

    def __init__(self, kind, at=None, only=None):
        self.kind = kind
        self.at = at
        self.n = 0
        self.fired = None
        self.only = only
        self.armed = True
        self.kinds = ("start", "cret", "jump") if kind == "interrupt" else ("call",)
        if kind == "interrupt-clean":  # interrupts only where no effect has just been produced
            self.kinds = ("start", "call")
            self.kind = "interrupt"
            self.clean = True
        else:
            self.clean = kind != "interrupt"

    def _point(self, kind, code, offset, callee):
        if not self.armed:
            return
        if kind == "call" and self.kind != "interrupt" and not lib_callee(callee):
            return
        i = self.n
        self.n += 1
        if self.at is not None and i >= self.at and self.fired is None:
            if in_cleanup(3):
                return
            self.fired = "%s@%s" % (kind, where(code, offset))
            self.armed = False
            raise EXC[self.kind]()

    def run(self, func, *a, **k):
        with Monitor(self._point, self.kinds):
            try:
                return ("ok", func(*a, **k))
            except BaseException as e:
                return ("exc", e)


def die_with_parent():
    """In a fresh fork: be killed when the process that forked it ends (Linux), so that an ended check leaves nothing running."""
    try:
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def fork_call(func, *args, timeout=None):
    """Run func in a forked child; returns its (pickled) value, or raises ChildFailed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            die_with_parent()
            os.close(r)
            data = pickle.dumps(func(*args), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            import traceback

            if os.environ.get("PFSIM_DEBUG"):
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        chunks = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not chunks:
        raise ChildFailed("child ended with status %d" % status)
    return pickle.loads(chunks)


class ChildFailed(Exception):
    pass


def count_points(kind, func):
    """How many eligible points func has in the present state (measured in a forked copy)."""

    def body():
        f = Faulter(kind)
        f.run(func)
        return f.n

    return fork_call(body)


def run_with_fault(kind, frac, func):
    """Inject `kind` at fraction `frac` of the call's points; returns (outcome, fired)."""
    n = count_points(kind, func)
    f = Faulter(kind, at=min(int(frac * n), max(n - 1, 0)))
    out = f.run(func)
    return out, f.fired
