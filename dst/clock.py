"""The simulated clock of a run.

The package reads no clock.  Should a change make it read one, it gets this
one: time passes with the executed source lines of the package (at a rate the
plan chooses, from a fast machine to one that needs a second per line), plus
the jumps the plan prescribes.  Only code of the package sees it; everybody
else gets the real functions.
"""
import datetime
import sys
import time

from . import mon

KINDS = ("slow", "jump", "back")
REAL = {}
_set = dict(base=1700000000 * 10 ** 9, rate=1000, jumps=())
reads = [0]


def gen(rng):
    """A seeded clock: nanoseconds per line, jumps [line, nanoseconds]."""
    jumps = []
    for _ in range(rng.choice((0, 0, 1, 2))):
        jumps.append([rng.choice((1, 30, 300, 3000, 30000)) * rng.randint(1, 9),
                      rng.choice((-3600, -5, 1, 30, 3600, 10 ** 6)) * 10 ** 9])
    return dict(base=rng.choice((0, 10 ** 9, 1700000000 + rng.randrange(10 ** 8))) * 10 ** 9,
                rate=rng.choice((1, 1000, 10 ** 5, 10 ** 7, 10 ** 9)), jumps=jumps)


def use(clock):
    reads[0] = 0
    _set.update(clock or dict(base=1700000000 * 10 ** 9, rate=1000, jumps=()))


def elsewhere():
    """Another process reads other times."""
    use(dict(base=_set["base"] + 86461 * 10 ** 9, rate=_set["rate"] * 1000, jumps=()))


def now(wall):
    """Nanoseconds; a monotonic clock never jumps back."""
    reads[0] += 1
    n = mon.K.steps + reads[0]
    t = n * _set["rate"] + sum(d for s, d in _set["jumps"] if s <= n and (wall or d > 0))
    return max(0, _set["base"] + t) if wall else t


def _ours():
    return sys._getframe(2).f_code.co_filename.startswith(mon.PKG)


def _wrap(name, wall, ns):
    real = getattr(time, name)
    REAL[name] = real

    def fake():
        if not _ours():
            return real()
        return now(wall) if ns else now(wall) / 1e9
    fake.__name__ = name
    setattr(time, name, fake)


def install():
    for name, wall in (("time", True), ("monotonic", False), ("perf_counter", False),
                       ("process_time", False), ("thread_time", False)):
        _wrap(name, wall, False)
        _wrap(name + "_ns", wall, True)
    REAL["sleep"] = time.sleep

    def sleep(seconds):
        if not _ours():
            return REAL["sleep"](seconds)
        mon.K.steps += int(seconds * 1e9) // max(1, _set["rate"]) + 1
        mon.K.tick()
    time.sleep = sleep
    real = datetime.datetime

    class SimDatetime(real):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(now(True) / 1e9, tz) if _ours() else real.now(tz)

        @classmethod
        def utcnow(cls):
            return real(1970, 1, 1) + datetime.timedelta(seconds=now(True) / 1e9) \
                if _ours() else real.utcnow()

        @classmethod
        def today(cls):
            return real.fromtimestamp(now(True) / 1e9) if _ours() else real.today()
    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    datetime.datetime = SimDatetime
