"""Baton-passing scheduler: real threads, exactly one runs, the plan decides which.

Threads are parked and released only at the points delivered by `monitor.Monitor` (and at
contended SimLocks).  Policies:
    {"mode": "rand", "seed": s, "p": 0.1}          switch with probability p at every point
    {"mode": "explicit", "switches": [[point, thread], ...]}   replay / minimised schedule
"""
import _thread
import hashlib
import threading

from . import locks
from .faults import EXC, in_cleanup, lib_callee
from .monitor import Monitor, where
from .rng import stream

KINDS = ("start", "cret", "jump", "op")


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    pass


class Scheduler:
    def __init__(self, policy, max_points=400000, faults=None, extra=()):
        self.extra = extra
        self.policy = policy
        self.max_points = max_points
        self.n = 0
        self.switches = []
        self.sig = hashlib.sha256()
        self.faults = list(faults or ())  # [{"t": thread, "at": which of its library calls, "kind": what that call raises}]
        self.calls = {}
        self.fired = []
        if policy["mode"] == "rand":
            self.rng = stream("sched", policy["seed"])
            self.p = policy["p"]
        else:
            self.explicit = {int(a): int(b) for a, b in policy["switches"]}

    # -- called from the monitored threads ---------------------------------
    def owns(self, ident):
        return ident in self.ids

    def _mine(self):
        return _thread.get_ident() in self.ids

    def runnable(self):
        return [t for t in range(self.k) if self.state[t] == "run"]

    def point(self, kind, code, offset, callee):
        if kind == "call":
            self.fail(code, offset, callee)
            return
        i = self.n
        self.n += 1
        if self.n > self.max_points:
            raise StepLimit()
        me = self.cur
        tgt = me
        if self.policy["mode"] == "rand":
            if self.rng.random() < self.p:
                c = self.runnable()
                tgt = c[self.rng.randrange(len(c))]
        else:
            tgt = self.explicit.get(i, me)
            if not 0 <= tgt < self.k or self.state[tgt] != "run":
                tgt = me
        if tgt != me:
            self.switches.append([i, tgt])
            self.sig.update(("%d>%d@%s;" % (me, tgt, where(code, offset))).encode())
            self.hand_over(tgt)

    def fail(self, code, offset, callee):
        """The running thread is about to call something; calls of libraries can fail."""
        if not lib_callee(callee) or in_cleanup(3):
            return
        i = self.calls.get(self.cur, 0)
        self.calls[self.cur] = i + 1
        for f in self.faults:
            if f["t"] == self.cur and i == f["at"]:
                self.fired.append((self.cur, f["kind"], where(code, offset)))
                raise EXC[f["kind"]]()

    def hand_over(self, tgt):
        me = self.cur
        self.cur = tgt
        self.gates[tgt].release()
        self.gates[me].acquire()

    def block_on(self, lock, timeout):
        """The running thread cannot take `lock`: park it.  False: timed out."""
        me = self.cur
        self.state[me] = lock
        # wake threads whose lock became free
        self._wake()
        c = self.runnable()
        if not c:
            if timeout is not None and timeout >= 0:
                self.state[me] = "run"
                return False
            self.state[me] = "run"
            self.deadlocked = True
            raise Deadlock("all threads wait for locks")
        if self.policy["mode"] == "rand":
            tgt = c[self.rng.randrange(len(c))]
        else:
            tgt = c[0]
        if tgt != me:
            self.hand_over(tgt)
        return True

    def _wake(self):
        for t in range(self.k):
            s = self.state[t]
            if not isinstance(s, str) and s._owner is None:
                self.state[t] = "run"

    # -- driver --------------------------------------------------------------
    def run(self, funcs):
        """Run every function in its own thread; returns [(ok, value_or_exception)]."""
        self.k = len(funcs)
        self.gates = [locks._real_lock() for _ in funcs]
        for g in self.gates:
            g.acquire()
        done = locks._real_lock()
        done.acquire()
        self.state = ["run"] * self.k
        self.results = [None] * self.k
        self.ids = set()
        self.cur = 0
        self.deadlocked = False
        started = []

        def body(t):
            self.gates[t].acquire()
            try:
                try:
                    self.results[t] = (True, funcs[t]())
                except BaseException as e:  # recorded, judged by the property
                    self.results[t] = (False, e)
            finally:
                self.ids.discard(_thread.get_ident())
                self.state[t] = "done"
                self._wake()
                c = self.runnable()
                if c:
                    if self.policy["mode"] == "rand":
                        nxt = c[self.rng.randrange(len(c))]
                    else:
                        nxt = c[0]
                    self.cur = nxt
                    self.gates[nxt].release()
                elif any(s != "done" for s in self.state):
                    # parked on locks nobody can release
                    for u in range(self.k):
                        if self.state[u] != "done":
                            self.results[u] = (False, Deadlock("waits for a lock never released"))
                    self.deadlocked = True
                    done.release()
                else:
                    done.release()

        threads = []
        for t in range(self.k):
            th = threading.Thread(target=body, args=(t,), daemon=True)
            threads.append(th)
        with Monitor(self.point, KINDS + (("call",) if self.faults else ()), owns=self._mine, extra=self.extra):
            for th in threads:
                th.start()
            self.ids = {th.ident for th in threads}
            locks.active = self
            try:
                self.gates[0].release()
                done.acquire()
            finally:
                locks.active = None
        for th in threads:
            if not self.deadlocked:
                th.join(10)
        return self.results
