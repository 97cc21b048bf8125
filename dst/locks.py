"""Locks of pyorb behind a seam.

pyorb creates none today; should it ever, a simulated thread that has to wait for one hands its turn to
another simulated thread instead of stopping the whole simulation, and a circle of waiting threads is
reported as a deadlock.  Outside a simulated run the locks are the real ones."""
import _thread
import sys
import threading
import types

SIM = {'run': None}      # the sched.Threads in charge


class Deadlock(BaseException):
    """every simulated thread waits for another one"""


class Lock:
    real = staticmethod(_thread.allocate_lock)

    def __init__(self):
        self._lock = self.real()

    def acquire(self, blocking=True, timeout=-1):
        run = SIM['run']
        if run is None or not run.mine():
            return self._lock.acquire(blocking, timeout)
        if not blocking:
            got = self._lock.acquire(False)
            run.held[run.cur] += got
            return got
        while not self._lock.acquire(False):
            if not run.wait():
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('all simulated threads wait for locks')
        run.held[run.cur] += 1
        return True

    def release(self):
        self._lock.release()
        run = SIM['run']
        if run is not None:
            run.waiting.clear()
            run.held[run.cur] -= 1

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")


class RLock(Lock):
    real = staticmethod(_thread.RLock)

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def _is_owned(self):
        return self._lock._is_owned()


class Semaphore:
    """counting lock, built on the simulated one"""

    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        run = SIM['run']
        while self._value <= 0:
            if not blocking:
                return False
            if run is None or not run.mine() or not run.wait():
                if timeout is not None:
                    return False
                raise Deadlock('nobody can release the semaphore')
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        if SIM['run'] is not None:
            SIM['run'].waiting.clear()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._bound = value

    def release(self, n=1):
        if self._value + n > self._bound:
            raise ValueError('Semaphore released too many times')
        super().release(n)


def stand_in():
    """the module pyorb gets for `import threading` and `import _thread`"""
    t = types.ModuleType('threading', threading.__doc__)
    t.__dict__.update(threading.__dict__)
    t.Lock, t.RLock, t.Semaphore, t.BoundedSemaphore = Lock, RLock, Semaphore, BoundedSemaphore
    low = types.ModuleType('_thread')
    low.__dict__.update(_thread.__dict__)
    low.allocate_lock = low.allocate = low.LockType = low.lock = Lock
    low.RLock = RLock
    return {'threading': t, '_thread': low}


class behind:
    """with behind(): modules imported now get the locks above"""

    def __enter__(self):
        self.old = {n: sys.modules[n] for n in ('threading', '_thread')}
        sys.modules.update(stand_in())

    def __exit__(self, *exc):
        sys.modules.update(self.old)
        return False
