"""The file system behind a seam: operations on one directory tree, numbered, failing or crashing on demand.

Operations that name a path (open, rename, remove, mkdir, ...) are seen through CPython's audit
hooks, so library and C-level calls are covered too; an injected error is raised instead of the
operation.  The tree is a device of its own: renaming or linking across its edge fails (EXDEV).
Bytes reaching files are limited with RLIMIT_FSIZE, from the start or from the moment the file the
disk fills up with is opened: the write crossing the limit is cut short exactly there, whoever
makes it (C code and in-kernel copies too), and then fails (EFBIG) or the process is killed by the
kernel (SIGXFSZ).
All of it is installed in disposable forks only.
"""
import builtins
import errno
import io
import os
import resource
import signal
import sys

_OPS = {"os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.utime"}
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

_active = None
_hooked = False


def _hook(event, args):
    fs = _active
    if fs is None or fs.blind:
        return
    if event == "open":
        path, mode, flags = args[0], args[1], args[2]
        if isinstance(path, int):
            return
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & _WRITE)
        fs.seen("open-write" if w else "open-read", [path], None)
    elif event in _OPS:
        fs.seen(event[3:], [a for a in args if isinstance(a, (str, bytes)) or hasattr(a, "__fspath__")], args)


class FS:
    """spec: None or {"nth", "errno", "crash", "sticky", "kinds"}; counts operations under root."""

    def __init__(self, root, spec=None, limit=None, kill=False, on_op=None, arm=None):
        self.root = os.path.realpath(root) + os.sep
        self.spec = spec
        self.limit = limit
        self.kill = kill
        self.arm = arm   # None: limited from the start; k: from the k-th opening for writing on; "fired": from the failed operation on
        self.on_op = on_op
        self.blind = False
        self.ops = []
        self.fired = None

    def _inside(self, paths, args):
        for p in paths:
            p = os.fsdecode(p)
            if not os.path.isabs(p) and args is not None and any(isinstance(a, int) and a > 2 for a in args):
                return True   # relative to an open directory: only our own trees are handled that way
            if (os.path.realpath(p) + os.sep).startswith(self.root) or os.path.abspath(p).startswith(self.root):
                return True
        return False

    def seen(self, kind, paths, args):
        self.blind = True
        try:
            if not self._inside(paths, args):
                return
            if kind in ("rename", "link") and len(paths) == 2 and not all(self._inside([p], args) for p in paths):
                raise OSError(errno.EXDEV, "Invalid cross-device link", os.fsdecode(paths[0]), None, os.fsdecode(paths[1]))
            if self.on_op is not None:
                self.on_op(kind)
        finally:
            self.blind = False
        k = len(self.ops)
        self.ops.append(kind)
        if self.limit is not None and isinstance(self.arm, int) and kind == "open-write" and self.ops.count(kind) == self.arm + 1:
            self._limit()
        s = self.spec
        if s is None or (kind == "open-read" and not s.get("reads")):
            return
        if k == s["nth"] or (self.fired and s.get("sticky") and kind in ("open-write", "mkdir", "rename", "truncate", "link", "symlink")):
            self.fired = self.fired or "%s %s (operation %d)" % (s["errno"], kind, k)
            if s.get("crash"):
                os._exit(7)
            if self.limit is not None and self.arm == "fired":
                self._limit()
            raise OSError(getattr(errno, s["errno"]), "injected", os.fsdecode(paths[0]) if paths else None)

    def __enter__(self):
        global _active, _hooked
        if not _hooked:
            sys.addaudithook(_hook)
            _hooked = True
        _active = self
        if self.limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if self.kill else signal.SIG_IGN)
            if self.arm is None:
                self._limit()
        return self

    def _limit(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, resource.RLIM_INFINITY))

    def __exit__(self, *exc):
        global _active
        _active = None
        if self.limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        return False


class FaultyRaw(io.RawIOBase):
    """A file opened for reading that fails after some bytes, or returns them in small pieces."""

    def __init__(self, path, fail_at=None, piece=None, err="EIO"):
        self.fd = os.open(path, os.O_RDONLY)
        self.name = path
        self.mode = "rb"
        self.at = 0
        self.fail_at = fail_at
        self.piece = piece
        self.err = err
        self.fired = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, pos, how=0):
        self.at = os.lseek(self.fd, pos, how)
        return self.at

    def tell(self):
        return self.at

    def readinto(self, b):
        n = len(b)
        if self.piece:
            n = min(n, self.piece)
        if self.fail_at is not None:
            if self.at >= self.fail_at:
                self.fired = True
                raise OSError(getattr(errno, self.err), "injected read error", self.name)
            n = min(n, self.fail_at - self.at)
        d = os.read(self.fd, n)
        b[: len(d)] = d
        self.at += len(d)
        return len(d)

    def read(self, n=-1):
        """One read system call on a regular file is not cut short; only buffered readers see pieces."""
        piece, self.piece = self.piece, None
        try:
            return super().read(n)
        finally:
            self.piece = piece

    def close(self):
        if not self.closed:
            os.close(self.fd)
        super().close()


class ReadFaults:
    """open / io.open / io.FileIO of files under root go through FaultyRaw."""

    def __init__(self, root, fail_at=None, piece=None, err="EIO"):
        self.root = os.path.realpath(root) + os.sep
        self.k = dict(fail_at=fail_at, piece=piece, err=err)
        self.made = []

    @property
    def fired(self):
        return any(r.fired for r in self.made)

    def _ours(self, path, mode):
        return isinstance(path, (str, bytes, os.PathLike)) and not any(c in mode for c in "wax+") and os.path.realpath(os.fsdecode(path)).startswith(self.root)

    def __enter__(self):
        self.saved = (builtins.open, io.open, io.FileIO)
        real_open, _, real_fileio = self.saved
        rf = self

        def raw(path):
            r = FaultyRaw(os.fsdecode(path), **rf.k)
            rf.made.append(r)
            return r

        def fopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not rf._ours(file, mode):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            r = raw(file)
            if buffering == 0:
                return r
            b = io.BufferedReader(r, 8192 if buffering in (-1, 1) else buffering)
            if "b" in mode:
                return b
            return io.TextIOWrapper(b, encoding or "utf-8", errors, newline)

        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, real_fileio)

        class FileIO(metaclass=Meta):
            def __new__(cls, file, mode="r", *a, **k):
                return raw(file) if rf._ours(file, mode) else real_fileio(file, mode, *a, **k)

        builtins.open, io.open, io.FileIO = fopen, fopen, FileIO
        return self

    def __exit__(self, *exc):
        builtins.open, io.open, io.FileIO = self.saved
        return False


def remove_tree(d, root):
    """Removes a scratch directory made by this check."""
    import shutil

    d = os.path.realpath(d)
    assert d.startswith(os.path.realpath(root) + os.sep), d
    shutil.rmtree(d, ignore_errors=True)
