"""A second pristine process with another hash seed and another memory fill, answering requests in forks of itself.

python -m pfsim.hashserver SOCKET PROPERTY
"""
import os
import select
import signal
import socket
import sys

from . import env


def main():
    env.reexec_pinned(["-m", "pfsim.hashserver"] + sys.argv[1:])
    from . import engine

    mod = engine.load(sys.argv[2])
    env.setup()
    import warnings

    warnings.simplefilter("ignore")
    if hasattr(mod, "prepare_server"):
        mod.prepare_server()
    s = socket.socket(socket.AF_UNIX)
    s.bind(sys.argv[1])
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        r, _, _ = select.select([s, 0], [], [])
        if 0 in r:
            if not os.read(0, 1):
                return 0
        if s in r:
            c, _ = s.accept()
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                try:
                    s.close()
                    fname, args = engine._recv(c)
                    try:
                        out = (True, getattr(mod, fname)(*args))
                    except BaseException as e:
                        out = (False, repr(e))
                    engine._send(c, out)
                finally:
                    os._exit(0)
            c.close()


class Client:
    """Started by a check's prepare(); used from the forked runs."""

    def __init__(self, pid, hashseed, extra=None):
        import subprocess

        self.path = os.path.join(env.scratch_root(), "srv-%s" % hashseed)
        e = dict(os.environ)
        e["PFSIM_HASHSEED"] = str(hashseed)
        e.update(extra or {})
        self.proc = subprocess.Popen([sys.executable, "-m", "pfsim.hashserver", self.path, pid], cwd=env.VERIF, env=e,
                                     stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=None if os.environ.get("PFSIM_DEBUG") else subprocess.DEVNULL)
        import atexit

        me = os.getpid()

        def stop():
            if os.getpid() == me:
                self.proc.kill()
                self.proc.wait()

        atexit.register(stop)

    def wait(self):
        import time

        t = time.monotonic()
        while not os.path.exists(self.path):
            if self.proc.poll() is not None or time.monotonic() - t > 120:
                raise RuntimeError("hash-seed server did not start")
            time.sleep(0.05)

    def ask(self, fname, *args):
        from . import engine

        c = socket.socket(socket.AF_UNIX)
        c.connect(self.path)
        engine._send(c, (fname, args))
        ok, val = engine._recv(c)
        c.close()
        if not ok:
            raise RuntimeError("server: " + val)
        return val


if __name__ == "__main__":
    sys.exit(main())
