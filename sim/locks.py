"""Locks that library code may create take part in the simulated schedule."""
from __future__ import annotations

import sys
import threading

current = None  # the libsim.Threads being run


class SimLock:
    """Stands for threading.Lock/RLock created by library code: waiting hands over the baton."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        t = current
        if t is None or t.me() is None or not blocking:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            t.blocked()
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self._real, k)


def install():
    """To be called before the code under test is imported."""
    for name in ("Lock", "RLock"):
        real = getattr(threading, name)

        def make(*a, _real=real, **k):
            lock = _real(*a, **k)
            f = sys._getframe(1)
            return SimLock(lock) if str(f.f_globals.get("__name__", "")).startswith("moz.l10n") else lock

        setattr(threading, name, make)
