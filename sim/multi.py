"""Several simulated processes on one machine, interleaved at their system calls.

Each process is a thread, but only the one holding the baton ever runs; the baton moves
only at system calls and only as the schedule says, so a schedule is an exact repeat.

A schedule is a list of [k, p]: at the k-th system call of the whole run, process p goes on.
"""
from __future__ import annotations

import io
import sys
import threading

from .proc import Outcome, _reset_logging, execute
from .vfs import HarnessError, SimCrash, activate, active


class Multi:
    def __init__(self, world, fns, schedule, op0=0):
        self.world = world
        self.fns = fns
        self.sched = {k: p for k, p in schedule}
        self.op0 = op0
        self.k = 0
        self.cur = 0
        self.order = []  # process of each event, for reports
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.state = [{"dead": False, "pending": None, "cwd": world.cwd} for _ in range(n)]
        self.out: list[Outcome | None] = [None] * n
        self.error = None
        self.finished_at = [None] * n
        self.started_at = [None] * n
        self.main = threading.Semaphore(0)

    def save(self):
        w, s = self.world, self.state[self.cur]
        s["dead"], s["pending"], s["cwd"] = w.dead, w.pending, w.cwd

    def load(self, p):
        w, s = self.world, self.state[p]
        w.dead, w.pending, w.cwd = s["dead"], s["pending"], s["cwd"]
        w.op = self.op0 + p
        self.cur = p
        if self.started_at[p] is None:
            self.started_at[p] = self.k

    def switch(self, p, me=None):
        self.save()
        self.load(p)
        self.sem[p].release()
        if me is not None:
            self.sem[me].acquire()
            if self.error:
                raise HarnessError("abandoned")

    def point(self, kind, path):
        if self.world.quiet:
            return
        me = self.cur
        p = self.sched.get(self.k)
        self.k += 1
        if p is not None and p != me and 0 <= p < len(self.fns) and not self.done[p]:
            self.switch(p, me)

    def body(self, i):
        self.sem[i].acquire()
        try:
            if not self.error:
                self.out[i] = execute(self.world, self.fns[i])
        except BaseException as e:  # noqa: BLE001
            self.error = self.error or e
        self.done[i] = True
        self.finished_at[i] = self.k
        rest = [j for j in range(len(self.fns)) if not self.done[j]]
        self.world.dead = False
        if rest:
            self.save()
            if not self.error:
                self.load(rest[0])
            self.sem[rest[0]].release()
        else:
            self.main.release()

    def run(self):
        w = self.world
        prev = active()
        old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        _reset_logging()
        activate(w)
        w.scheduler = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        try:
            for t in ts:
                t.start()
            self.load(0)
            self.sem[0].release()
            self.main.acquire()
            for t in ts:
                t.join()
        finally:
            w.scheduler = None
            activate(prev)
            sys.stdout, sys.stderr = old
            _reset_logging()
            w.dead = False
            w.pending = None
            w.fds.clear()
            w.gen += 1
        if self.error:
            raise self.error
        return self.out


__all__ = ["Multi", "SimCrash"]
