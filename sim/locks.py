"""
Cooperative locks: if library code ever takes a lock, a waiting simulated thread
hands over to the scheduler instead of blocking the only running thread.
"""
import threading
import _thread

_real_lock = _thread.allocate_lock
scheduler = None    # set while a thread simulation runs (in a child process)


class Deadlock(BaseException):
    """The only thread waits for a lock: nobody is left to release it"""


class SimLock(object):
    def __init__(self):
        self._lock = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = scheduler
        if s is None or not s.is_mine():
            if self._lock.acquire(False):
                return True
            if blocking and timeout < 0 and _thread._count() == 0:
                raise Deadlock('the only thread waits for a lock that is held')
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking:
                return False
            if not s.blocked():
                if timeout >= 0:
                    return False
                raise s.deadlock()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()


class SimRLock(object):
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return c

    def _acquire_restore(self, c):
        self._lock.acquire()
        (self._count, self._owner) = c

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._owner = None
        self._count = 0


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
