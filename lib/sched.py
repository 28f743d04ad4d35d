# -*- coding: utf-8 -*-
"""A scheduler of threads at the granularity of source lines of the library.

Threads run one at a time.  Before each source line of the library (a sys.settrace event) the
running thread asks the schedule whether another one is to go on; which one, and where, is
recorded.  A thread that blocks on something else while it has the turn (a lock the library
might take) is noticed by the main thread, which gives the turn to another one."""
import os
import sys
import threading
import time

from base import Inconclusive, PKG


class Interleaving:
    """Runs the calls, one thread each. decide(me, step, alive) -> thread to go on, or None."""

    STALL_S = 0.5
    LIMIT_S = 60

    def __init__(self, calls, decide, first=0):
        self.calls = calls
        self.decide = decide
        n = len(calls)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.results = [None] * n
        self.alive = list(range(n))
        self.owner = first
        self.steps = 0
        self.own_steps = [0] * n
        self.switches = []          # (from, to, file, line)
        self.stalls = 0
        self.finished = threading.Event()
        self.lock = threading.Lock()
        self.seen = None            # called with the frame of each line

    def _wait(self, me):
        while True:
            self.sems[me].acquire()
            if self.owner == me:
                return

    def _point(self, me, frame):
        if self.owner != me:        # the turn went on while this thread was blocked
            self._wait(me)
        self.steps += 1
        self.own_steps[me] += 1
        if self.seen:
            self.seen(frame)
        if len(self.alive) > 1:
            to = self.decide(me, self.own_steps[me], self.alive)
            if to is not None and to != me and to in self.alive:
                self.switches.append((me, to, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self.owner = to
                self.sems[to].release()
                self._wait(me)

    def _run(self, me):
        self._wait(me)
        point = self._point

        def local(frame, event, arg):
            if event == "line":
                point(me, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG):
                return local
            return None

        sys.settrace(glob)
        try:
            try:
                r = self.calls[me]()
            except BaseException as e:  # compared by the caller
                r = ("raised", type(e).__name__, str(e))
        finally:
            sys.settrace(None)
        with self.lock:
            self.results[me] = r
            self.alive.remove(me)
            if not self.alive:
                self.finished.set()
            elif self.owner == me:
                to = self.decide(None, 0, self.alive)
                if to is None or to not in self.alive:
                    to = self.alive[0]
                self.switches.append((me, to, "", 0))
                self.owner = to
                self.sems[to].release()

    def run(self):
        threads = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.calls))]
        for t in threads:
            t.start()
        t0 = time.time()
        self.sems[self.owner].release()
        last, since = -1, t0
        while not self.finished.wait(0.05):
            now = time.time()
            if self.steps != last:
                last, since = self.steps, now
            elif now - since > self.STALL_S:
                with self.lock:
                    others = [x for x in self.alive if x != self.owner]
                    if others:
                        self.stalls += 1
                        self.owner = others[self.stalls % len(others)]
                        self.sems[self.owner].release()
                since = now
            if now - t0 > self.LIMIT_S:
                raise Inconclusive("threads did not end")
        for t in threads:
            t.join(10)
        return self.results


def never(me, step, alive):
    return None


def at_points(points):
    """Preempt thread me at its step k in favour of another: points {(me, k): to}."""

    def decide(me, step, alive):
        return points.get((me, step))

    return decide


def at_random(rng, p):
    def decide(me, step, alive):
        if me is None or rng.random() < p:
            return alive[rng.randrange(len(alive))]
        return None

    return decide


def by_priority(rng, n, depth, length):
    """Probabilistic concurrency testing: the thread of highest priority runs, priorities drop at points."""
    prio = list(range(10, 10 + n))
    rng.shuffle(prio)
    drops = sorted(rng.randrange(1, max(2, length)) for _ in range(depth))
    state = {"n": 0, "low": 0}

    def decide(me, step, alive):
        state["n"] += 1
        if me is not None and drops and state["n"] >= drops[0]:
            drops.pop(0)
            state["low"] -= 1
            prio[me] = state["low"]
        return max(alive, key=lambda x: prio[x])

    return decide
