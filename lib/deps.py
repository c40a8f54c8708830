"""Keeps a known race of a dependency out of the observations.

cryptojwt.key_bundle.KeyBundle shares one reader lock object (readerwriterlock) between
all threads; that object keeps its 'locked' flag per object, so two threads reading keys
at the same time fail with "release unlocked lock" or leave the lock taken for ever.
This is not oidcrp's code. The flag is made thread local here, which is what the lock's
documentation asks its users to arrange, and changes nothing for a single thread.
"""
import threading

from readerwriterlock import rwlock


def _prop():
    def get(self):
        return getattr(self.__dict__.setdefault('_tl', threading.local()), 'locked', False)

    def put(self, v):
        self.__dict__.setdefault('_tl', threading.local()).locked = v
    return property(get, put)


def install():
    for c in (rwlock.RWLockFairD._aReader, rwlock.RWLockFairD._aWriter):
        c.v_locked = _prop()
