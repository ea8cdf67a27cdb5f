"""A simulated process pool: real forked workers and real pickling, simulated scheduling and failures.

Stands in for concurrent.futures.ProcessPoolExecutor / ThreadPoolExecutor / as_completed / wait and
multiprocessing.Pool.  Workers are forked at the first submission, as the real pool does; tasks are
handed out first in first out to idle workers; how long each takes, hence the order in which
results arrive, and which worker dies when, is decided by the plan's seed on a simulated clock.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import signal
import socket
from concurrent.futures.process import BrokenProcessPool

from . import faults
from . import monitor
from .ambient import Swap
from .rng import stream

faults.EXC.setdefault("die", lambda: os._exit(9))

MAX_WORKERS = 10


class Stuck(BaseException):
    """Nothing can happen any more, but the program still waits."""


class Sim:
    """The pools of one run."""

    def __init__(self, seed, style="uniform", faults=(), on_event=None):
        self.rng = stream(seed)
        self.style = style
        self.faults = list(faults)
        self.now = 0.0
        self.ntask = 0
        self.pools = []
        self.order = []      # task numbers in completion order
        self.fired = []
        self.on_event = on_event or (lambda *a: None)

    def duration(self, task, worker):
        r = self.rng
        if self.style == "fifo":
            return 1.0
        if self.style == "lifo":
            return 1000.0 / (1 + task)
        if self.style == "heavy":
            return r.paretovariate(0.6)
        if self.style == "slow-worker":
            return r.uniform(0.5, 1.5) * (200 if worker == 0 else 1)
        if self.style == "slow-task":
            return r.uniform(0.5, 1.5) * (300 if task % 5 == 0 else 1)
        return r.uniform(0.0, 10.0)

    def fault_for(self, task):
        for f in self.faults:
            if f["task"] == task:
                return f
        return None

    # -- installation ---------------------------------------------------------
    def __enter__(self):
        sim = self
        self.swap = Swap()

        class Exec(SimExecutor):
            def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
                super().__init__(sim, max_workers, initializer, initargs)

        class Threads(SimExecutor):
            def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
                super().__init__(sim, max_workers, initializer, initargs, inline=True)

        def pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
            return SimPool(sim, processes, initializer, initargs)

        def tpool(processes=None, initializer=None, initargs=()):
            return SimPool(sim, processes, initializer, initargs, inline=True)

        for owner in (cf, cfp):
            self.swap.set(owner, "ProcessPoolExecutor", Exec)
        for owner in (cf, cft):
            self.swap.set(owner, "ThreadPoolExecutor", Threads)
        for owner in (cf, cf._base):
            self.swap.set(owner, "as_completed", sim.as_completed)
            self.swap.set(owner, "wait", sim.wait)
        self.swap.set(multiprocessing, "Pool", pool)
        self.swap.set(multiprocessing.pool, "Pool", pool)
        self.swap.set(multiprocessing.pool, "ThreadPool", tpool)
        self.swap.set(multiprocessing.context.BaseContext, "Pool", lambda self, *a, **k: pool(*a, **k))
        return self

    def __exit__(self, *exc):
        self.swap.restore()
        for p in self.pools:
            p._kill()
        return False

    # -- waiting --------------------------------------------------------------
    def _some(self, pools):
        """Let at least one thing happen in the pools given."""
        n = self.rng.choice([1, 1, 1, 2, 3])
        moved = False
        for _ in range(n):
            live = [p for p in pools if p._can_move()]
            if not live:
                break
            min(live, key=lambda p: p._next_time())._step()
            moved = True
        if not moved:
            raise Stuck("waiting for a result that can never arrive")

    def as_completed(self, fs, timeout=None):
        fs = list(dict.fromkeys(fs))
        pending = [f for f in fs if isinstance(f, SimFuture)]
        while pending:
            done = [f for f in pending if f.done()]
            if not done:
                self._some({f._pool for f in pending})
                continue
            self.rng.shuffle(done)
            for f in done:
                pending.remove(f)
                yield f

    def wait(self, fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = set(fs)
        while True:
            done = {f for f in fs if f.done()}
            if len(done) == len(fs):
                break
            if return_when == cf.FIRST_COMPLETED and done:
                break
            if return_when == cf.FIRST_EXCEPTION and any(not f.cancelled() and f.exception() is not None for f in done):
                break
            self._some({f._pool for f in fs if not f.done()})
        return cf._base.DoneAndNotDoneFutures(done, fs - done)


class SimFuture(cf.Future):
    _pool = None

    def result(self, timeout=None):
        while not self.done():
            self._pool.sim._some([self._pool])
        return super().result(0)

    def exception(self, timeout=None):
        while not self.done():
            self._pool.sim._some([self._pool])
        return super().exception(0)


class _Worker:
    def __init__(self, pool, k):
        self.k = k
        self.busy = None      # (future, task number)
        self.until = 0.0
        self.dead = False
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                monitor.off()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _serve(b, pool.initializer, pool.initargs)
            finally:
                os._exit(0)
        b.close()
        self.sock = a

    def kill(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0
            self.sock.close()
        self.dead = True


def _serve(s, initializer, initargs):
    from .engine import _recvn

    if initializer is not None:
        initializer(*initargs)
    while True:
        try:
            n = int.from_bytes(_recvn(s, 8), "big")
        except EOFError:
            return
        fault, blob = pickle.loads(_recvn(s, n))
        if fault and fault["kind"] == "die-before":
            os._exit(9)
        fired = None
        try:
            fn, a, k = pickle.loads(blob)
            if fault and fault["kind"] not in ("die-after", "die-idle"):
                f = faults.Faulter(fault["kind"], at=fault["at"])
                how, val = f.run(fn, *a, **k)
                fired = f.fired
                if how == "exc":
                    raise val
                out = ("ok", val)
            else:
                out = ("ok", fn(*a, **k))
        except BaseException as e:
            out = ("exc", e)
        if fault and fault["kind"] == "die-after":
            os._exit(9)
        try:
            data = pickle.dumps((fired,) + out, protocol=4)
        except BaseException as e:
            data = pickle.dumps((fired, "exc", RuntimeError("cannot pickle the result: %r" % e)), protocol=4)
        s.sendall(len(data).to_bytes(8, "big") + data)
        if fault and fault["kind"] == "die-idle":
            os._exit(9)


class SimExecutor(cf.Executor):
    def __init__(self, sim, max_workers, initializer=None, initargs=(), inline=False, survive=False):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.sim = sim
        self.n = min(max_workers or os.cpu_count() or 1, MAX_WORKERS)
        self.initializer = initializer
        self.initargs = initargs
        self.inline = inline
        self.survive = survive   # multiprocessing.Pool: a dead worker's task is lost, the pool lives on
        self.workers = None
        self.queue = []
        self.broken = False
        self.closed = False
        self.all = []
        sim.pools.append(self)

    # -- executor interface ------------------------------------------------------
    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        f._pool = self
        f._task = self.sim.ntask
        self.sim.ntask += 1
        self.all.append(f)
        if self.inline:
            f._blob = (fn, args, kwargs)
        else:
            try:
                f._blob = pickle.dumps((fn, args, kwargs), protocol=4)
            except BaseException as e:
                f.set_running_or_notify_cancel()
                f.set_exception(e if isinstance(e, Exception) else RuntimeError(repr(e)))
                return f
        if self.workers is None and not self.inline:
            self.workers = [_Worker(self, k) for k in range(self.n)]
        self.queue.append(f)
        self.sim.on_event("submit", f._task)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(fn, *iterables, timeout=timeout)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for f in self.queue:
                f.cancel()
            self.queue = []
        while wait and self._can_move():
            self._step()
        self._kill()

    def _kill(self):
        for w in self.workers or []:
            w.kill()

    # -- simulation ----------------------------------------------------------------
    def _can_move(self):
        if self.inline:
            return bool(self.queue)
        return bool(self.workers) and (any(w.busy for w in self.workers) or (bool(self.queue) and any(not w.dead for w in self.workers)))

    def _next_time(self):
        t = [w.until for w in self.workers or [] if w.busy]
        return min(t) if t else self.sim.now

    def _step(self):
        """Hand out what can be handed out, then finish one task."""
        sim = self.sim
        if self.inline:
            f = self.queue.pop(sim.rng.randrange(len(self.queue)))
            if f.set_running_or_notify_cancel():
                fn, a, k = f._blob
                try:
                    f.set_result(fn(*a, **k))
                except BaseException as e:
                    f.set_exception(e)
                sim.order.append(f._task)
            return
        idle = [w for w in self.workers if not w.busy and not w.dead]
        sim.rng.shuffle(idle)
        while self.queue and idle:
            f = self.queue.pop(0)
            if not f.set_running_or_notify_cancel():
                continue
            w = idle.pop()
            w.busy = f
            w.until = sim.now + sim.duration(f._task, w.k)
        busy = [w for w in self.workers if w.busy]
        if not busy:
            return
        w = min(busy, key=lambda w: (w.until, w.busy._task))
        sim.now = max(sim.now, w.until)
        self._finish(w)

    def _finish(self, w):
        from .engine import _recvn

        sim = self.sim
        f, w.busy = w.busy, None
        fault = sim.fault_for(f._task)
        data = pickle.dumps((fault, f._blob), protocol=4)
        try:
            w.sock.sendall(len(data).to_bytes(8, "big") + data)
            n = int.from_bytes(_recvn(w.sock, 8), "big")
            fired, how, val = pickle.loads(_recvn(w.sock, n))
        except (EOFError, OSError):
            w.kill()
            sim.fired.append("worker death in task %d" % f._task)
            sim.on_event("worker death", f._task)
            self._break(f)
            return
        if fired:
            sim.fired.append("%s in task %d at %s" % (fault["kind"], f._task, fired))
        sim.order.append(f._task)
        sim.on_event("done", f._task, how)
        if how == "ok":
            f.set_result(val)
        else:
            f.set_exception(val)
        if fault and fault["kind"] == "die-idle":
            w.kill()
            sim.fired.append("worker death after task %d" % f._task)
            self._break(None)

    def _break(self, f):
        if self.survive:
            return   # the task is lost; nobody will ever report it
        self.broken = True
        lost = [f] if f is not None else []
        lost += [w.busy for w in self.workers if w.busy] + self.queue
        for w in self.workers:
            w.busy = None
            w.kill()
        self.queue = []
        for x in lost:
            if not x.done() and not x.cancelled():
                if not x.running():
                    x.set_running_or_notify_cancel()
                x.set_exception(BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending."))


class _Async:
    def __init__(self, futures, single=False, callback=None, error_callback=None):
        self.f = futures
        self.single = single
        self.cb = callback
        self.ecb = error_callback

    def get(self, timeout=None):
        out = [x.result() for x in self.f]
        if self.cb:
            self.cb(out[0] if self.single else out)
        return out[0] if self.single else out

    def wait(self, timeout=None):
        for x in self.f:
            x.exception()

    def ready(self):
        return all(x.done() for x in self.f)

    def successful(self):
        return all(x.exception() is None for x in self.f)


class SimPool:
    """multiprocessing.Pool on the same simulation."""

    def __init__(self, sim, processes=None, initializer=None, initargs=(), inline=False):
        self.sim = sim
        self.ex = SimExecutor(sim, processes, initializer, initargs, inline=inline, survive=True)

    def _many(self, fn, it, star=False):
        return [self.ex.submit(fn, *x) if star else self.ex.submit(fn, x) for x in it]

    def apply(self, fn, args=(), kwds={}):
        return self.ex.submit(fn, *args, **kwds).result()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return _Async([self.ex.submit(fn, *args, **kwds)], True, callback, error_callback)

    def map(self, fn, it, chunksize=None):
        return [f.result() for f in self._many(fn, it)]

    def starmap(self, fn, it, chunksize=None):
        return [f.result() for f in self._many(fn, it, True)]

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self._many(fn, it), False, callback, error_callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self._many(fn, it, True), False, callback, error_callback)

    def imap(self, fn, it, chunksize=1):
        fs = self._many(fn, it)
        return (f.result() for f in fs)

    def imap_unordered(self, fn, it, chunksize=1):
        fs = self._many(fn, it)
        return (f.result() for f in self.sim.as_completed(fs))

    def close(self):
        self.ex.closed = True

    def join(self):
        self.ex.shutdown()

    def terminate(self):
        self.ex.shutdown(wait=False, cancel_futures=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
