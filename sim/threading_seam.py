"""Replaces threading.Lock/RLock (before the code under test is imported) by
locks that the simulated thread scheduler can see. Outside a simulated thread
they behave exactly like the real ones."""
import threading, _thread

current = None        # the active Scheduler, if any

_alloc = _thread.allocate_lock


def _sched():
    s = current
    if s is not None and s.is_sim_thread():
        return s
    return None


class SimLock(object):
    def __init__(self):
        self._l = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        s = _sched()
        if s is None:
            return self._l.acquire(blocking, timeout)
        s.yield_point("lock.acquire")
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            s.block_on(self)
        return True

    def release(self):
        self._l.release()
        s = current
        if s is not None:
            s.wake(self)
            if s.is_sim_thread():
                s.yield_point("lock.release")

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _alloc()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        ok = self._b.acquire(blocking, timeout)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def locked(self):
        return self._b.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._owner == _thread.get_ident() else 0

    def _at_fork_reinit(self):
        self._b = SimLock()
        self._owner, self._count = None, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


threading.Lock = SimLock
threading.RLock = SimRLock
