"""Locks created by the library know about the cooperative scheduler of C22.

Installed before the library is imported. Outside of a schedule they are ordinary locks.
"""
import sys
import threading

SCHED = None          # the schedule that is running, if any


class LibLock:
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        k = getattr(s.local, 'k', None) if s is not None else None
        if k is None or not blocking or timeout is not None and timeout >= 0:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            s.blocked(k)
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install(src):
    for name in ('Lock', 'RLock'):
        real = getattr(threading, name)

        def make(*a, real=real, **kw):
            lock = real(*a, **kw)
            return LibLock(lock) if sys._getframe(1).f_code.co_filename.startswith(src) else lock
        setattr(threading, name, make)
