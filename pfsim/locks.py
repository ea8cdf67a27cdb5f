"""Lock factory: locks created by petrofit code become simulable.

When no simulation is active (or from a thread the simulator does not own) a SimLock is an
ordinary lock.  Under the scheduler a contended acquire parks the thread by handing the baton
over instead of blocking for real.
"""
import os
import sys
import threading
import _thread

_real_lock = threading.Lock
_real_rlock = threading.RLock
_root = None

active = None  # the running Scheduler, if any


class SimLock:
    reentrant = False

    def __init__(self):
        self._lk = _real_rlock() if self.reentrant else _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sched = active
        me = _thread.get_ident()
        if sched is None or not sched.owns(me):
            ok = self._lk.acquire(blocking, timeout)
            if ok:
                self._owner = me
                self._count += 1
            return ok
        while True:
            if self._owner is None or (self.reentrant and self._owner == me):
                self._lk.acquire()
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            if not sched.block_on(self, timeout):
                return False

    def release(self):
        self._count -= 1
        if self._count == 0:
            self._owner = None
        self._lk.release()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True


def _from_petrofit():
    for depth in (2, 3):
        try:
            fn = sys._getframe(depth).f_code.co_filename
        except ValueError:
            return False
        if fn.startswith(_root):
            return True
    return False


def install():
    global _root
    from . import env

    _root = os.path.realpath(env.REPO) + os.sep

    def Lock():
        return SimLock() if _from_petrofit() else _real_lock()

    def RLock(*a):
        return SimRLock() if _from_petrofit() else _real_rlock(*a)

    threading.Lock = Lock
    threading.RLock = RLock
