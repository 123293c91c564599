"""Locks of the package, under the control of the scheduler.

The package has none.  Should a change give it some (threading.Lock, RLock, or
Condition, Event, Semaphore and Queue, which are built from them), a thread
waiting for one hands the baton on instead of stopping the simulation, and
threads that wait for each other are reported: StepLimit is raised in them.
Everybody else gets the real thing.
"""
import sys
import threading

from . import mon

REAL = {}
made = [0]


class SimLock(object):
    again = False               # may its owner take it again?

    def __init__(self):
        self.owner = None
        self.count = 0
        self.ghosts = 0         # taken by the harness while somebody holds it
        made[0] += 1

    def blocked(self, task):
        return self.count > 0 and not (self.again and self.owner is task)

    def acquire(self, blocking=True, timeout=-1):
        K = mon.K
        me = K.cur
        if self.blocked(me):
            if K.busy:
                self.ghosts += 1
                return True
            if not blocking:
                return False
            if not K.block(self, timeout):
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if mon.K.busy and self.ghosts:
            self.ghosts -= 1
            return
        if not self.count or self.again and self.owner is not mon.K.cur:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.count > 0


class SimRLock(SimLock):
    again = True

    # for threading.Condition
    def _is_owned(self):
        return self.count > 0 and self.owner is mon.K.cur

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


def _ours():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(mon.PKG):
            return True
        if f.f_globals.get("__name__") not in ("threading", "queue"):
            return False
        if isinstance(f.f_locals.get("self"), threading.Thread):
            return False
        f = f.f_back
    return False


def _wrap(name, sim):
    real = getattr(threading, name)
    REAL[name] = real

    def make(*a, **kw):
        return sim() if _ours() else real(*a, **kw)
    make.__name__ = name
    setattr(threading, name, make)


def install():
    _wrap("Lock", SimLock)
    _wrap("_allocate_lock", SimLock)
    _wrap("RLock", SimRLock)
