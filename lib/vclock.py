"""Virtual clock. Must be imported before requests / oidcmsg / cryptojwt / oidcrp.

Every source of wall clock time the library can reach (time.time, time.time_ns,
argument-less time.gmtime/localtime, datetime.now/utcnow/today) is replaced by a
clock that only moves when the workload says so.  time.monotonic, time.sleep and
time.perf_counter stay real.
"""
import datetime as _dt
import time as _time

BASE = 1_800_000_000

_real_time = _time.time
_real_gmtime = _time.gmtime
_real_localtime = _time.localtime
_real_datetime = _dt.datetime


class _Clock:
    now = float(BASE)
    reads = 0

    def reset(self):
        self.now = float(BASE)

    def advance(self, secs):
        self.now += secs


CLOCK = _Clock()


def vtime():
    CLOCK.reads += 1
    return CLOCK.now


def _gmtime(secs=None):
    return _real_gmtime(CLOCK.now if secs is None else secs)


def _localtime(secs=None):
    return _real_localtime(CLOCK.now if secs is None else secs)


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class VDateTime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        CLOCK.reads += 1
        return _real_datetime.fromtimestamp(CLOCK.now, tz)

    @classmethod
    def utcnow(cls):
        CLOCK.reads += 1
        return _real_datetime.fromtimestamp(CLOCK.now, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def install():
    import cryptography.x509  # noqa: F401  keeps its own datetime
    _time.time = vtime
    _time.time_ns = lambda: int(CLOCK.now * 1e9)
    _time.gmtime = _gmtime
    _time.localtime = _localtime
    VDateTime.__name__ = 'datetime'
    VDateTime.__qualname__ = 'datetime'
    _dt.datetime = VDateTime
