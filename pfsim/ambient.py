"""Ambient process state put behind a seam: generators, clocks, processors, collector, directory, locale, memory."""
import gc
import importlib
import locale
import os
import random
import sys
import time

import numpy as np

from . import env
from .monitor import Monitor
from .rng import stream

KINDS = ("rng", "clock", "cpus", "gc", "cwd", "locale", "environ", "memory")


def gen(rng):
    kinds = [k for k in KINDS if rng.random() < 0.5] or [rng.choice(KINDS)]
    return {"kinds": kinds, "seed": rng.randrange(1 << 40)}


class SimClock:
    """A clock that starts anywhere, runs at any speed, stalls, and jumps in both directions (never back for monotonic)."""

    def __init__(self, rng):
        self.rng = rng
        self.wall = rng.choice([0.0, 1.0, 1e9, 2 ** 31 - 0.5, 4.2e9, rng.uniform(0, 4e9)])
        self.mono = rng.choice([0.0, rng.uniform(0, 1e7)])
        self.reads = 0
        self.jumps = 0
        self.moved = 0.0

    def _tick(self):
        self.reads += 1
        u = self.rng.random()
        d = 0.0 if u < 0.3 else self.rng.uniform(0, 1) if u < 0.7 else self.rng.uniform(0, 1e5)
        self.mono += d
        self.moved += d
        self.wall += d
        if self.rng.random() < 0.3:
            self.jumps += 1
            self.wall = max(0.0, self.wall + self.rng.uniform(-1e8, 1e8))

    def time(self):
        self._tick()
        return self.wall

    def time_ns(self):
        return int(self.time() * 1e9)

    def monotonic(self):
        self._tick()
        return self.mono

    def monotonic_ns(self):
        return int(self.monotonic() * 1e9)

    def sleep(self, s):
        self.mono += s
        self.wall += s
        self.moved += s


class Swap:
    """Replaces attributes of modules, and the same objects where petrofit modules have imported them by name."""

    def __init__(self):
        self.undo = []

    def set(self, owner, name, new):
        old = getattr(owner, name)
        self.undo.append((owner, name, old))
        setattr(owner, name, new)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] == "petrofit":
                for k, v in list(vars(m).items()):
                    if v is old:
                        self.undo.append((m, k, old))
                        setattr(m, k, new)

    def restore(self):
        for owner, name, old in reversed(self.undo):
            setattr(owner, name, old)
        self.undo.clear()


_locpath = None


def make_locales():
    """A locale with another decimal point, compiled once per check process when localedef is there."""
    global _locpath
    import subprocess

    d = os.path.join(env.scratch_root(), "locales")
    try:
        os.mkdir(d)
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=60, check=True)
        _locpath = d
    except Exception:
        _locpath = None


class Ambient:
    """with Ambient(spec): the process's surroundings are those of the spec."""

    def __init__(self, spec):
        self.spec = spec
        self.rng = stream(spec["seed"])
        self.faults = {}
        self.clock = None

    def hit(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def __enter__(self):
        rng = self.rng
        self.swap = Swap()
        self.mon = None
        self.saved = {"cwd": os.getcwd(), "environ": dict(os.environ), "gc": (gc.isenabled(), gc.get_threshold())}
        kinds = self.spec["kinds"]
        if "rng" in kinds:
            np.random.seed(rng.randrange(1 << 32))
            random.seed(rng.randrange(1 << 60))
            for _ in range(rng.randrange(5)):
                np.random.standard_normal()
            self.hit("generators reseeded")
        if "clock" in kinds:
            c = self.clock = SimClock(rng)
            for n, f in (("time", c.time), ("time_ns", c.time_ns), ("monotonic", c.monotonic), ("monotonic_ns", c.monotonic_ns),
                         ("perf_counter", c.monotonic), ("perf_counter_ns", c.monotonic_ns), ("process_time", c.monotonic),
                         ("thread_time", c.monotonic), ("sleep", c.sleep)):
                self.swap.set(time, n, f)
            import datetime

            class SimDateTime(datetime.datetime):
                @classmethod
                def now(cls, tz=None):
                    return datetime.datetime.fromtimestamp(c.time(), tz)

                @classmethod
                def utcnow(cls):
                    return datetime.datetime.fromtimestamp(c.time(), datetime.timezone.utc).replace(tzinfo=None)

                @classmethod
                def today(cls):
                    return cls.now()

            self.real_datetime = datetime.datetime
            for m in list(sys.modules.values()):
                if getattr(m, "__name__", "").split(".")[0] == "petrofit":
                    for k, v in list(vars(m).items()):
                        if v is datetime.datetime:
                            self.swap.set(m, k, SimDateTime)
            self.hit("simulated clock")
        if "cpus" in kinds:
            import multiprocessing

            n = rng.choice([1, 2, 3, 64, 1000, None])
            self.swap.set(os, "cpu_count", lambda: n)
            self.swap.set(multiprocessing, "cpu_count", lambda: n or 1)
            self.swap.set(os, "sched_getaffinity", lambda pid=0: set(range(n or 1)))
            self.hit("processor count %s" % n)
        if "gc" in kinds:
            gc.freeze()
            how = rng.choice(["off", "eager", "forced", "forced"])
            if how == "off":
                gc.disable()
            elif how == "eager":
                gc.enable()
                gc.set_threshold(rng.choice([1, 7, 50]), 1, 1)
            else:
                every = rng.choice([5, 20, 100])
                gc.disable()
                st = {"n": 0}

                def point(kind, code, offset, callee):
                    st["n"] += 1
                    if st["n"] % every == 0 and st["n"] < 100 * every:
                        gc.collect()
                        self.hit("collection forced")

                self.mon = Monitor(point, ("start", "cret"))
                self.mon.__enter__()
            self.hit("collector " + how)
        if "cwd" in kinds:
            d = os.path.join(env.scratch_root(), "cwd-%d-%d" % (os.getpid(), rng.randrange(1 << 30)))
            os.mkdir(d)
            for n in ("g.csv", "correction.csv", "petrofit.cfg", "image.fits"):
                with open(os.path.join(d, n), "w") as f:
                    f.write("decoy")
            self.tmp = d
            os.chdir(d)
            self.hit("working directory")
        if "locale" in kinds:
            name = rng.choice(["C", "POSIX", "de_DE.UTF-8", "de_DE.UTF-8"])
            if name.startswith("de") and _locpath:
                os.environ["LOCPATH"] = _locpath
            try:
                locale.setlocale(locale.LC_ALL, name)
                self.hit("locale " + name)
            except locale.Error:
                pass
        if "environ" in kinds:
            os.environ["TZ"] = rng.choice(["UTC", "Asia/Tokyo", "EST5EDT"])
            time.tzset()
            for k, v in (("HOME", "/nonexistent"), ("COLUMNS", "20"), ("LINES", "5"), ("USER", "somebody"), ("LANG", "tr_TR.UTF-8"), ("TMPDIR", env.scratch_root()),
                         ("OMP_NUM_THREADS", "3"), ("PETROFIT_DATA", "x")):
                if rng.random() < 0.6:
                    os.environ[k] = v
            self.hit("environment")
        if "memory" in kinds:
            # dirty the allocator's free lists, so that memory read before it is written holds something else
            junk = [np.full(rng.randrange(1, 5000), rng.choice([np.nan, 1e300, -7.0])) for _ in range(300)]
            self.keep = junk[::rng.choice([2, 3, 50])]
            del junk
            self.hit("memory dirtied")
        return self

    def __exit__(self, *exc):
        if self.mon is not None:
            self.mon.__exit__(None, None, None)
        self.swap.restore()
        os.chdir(self.saved["cwd"])
        os.environ.clear()
        os.environ.update(self.saved["environ"])
        time.tzset()
        locale.setlocale(locale.LC_ALL, "C.UTF-8")
        en, th = self.saved["gc"]
        (gc.enable if en else gc.disable)()
        gc.set_threshold(*th)
        return False
