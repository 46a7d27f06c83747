"""Faults and schedules: calls into the code under test that are broken off at a chosen point, and
threads that take turns at chosen points. Both are decided by a seed and so can be replayed."""
import contextlib
import hashlib
import os
import sys
import threading
import time

from . import env

SRC = os.path.join(os.path.abspath(env.REPO), "pyNTM") + os.sep


class Broken(BaseException):
    """What a break-off raises (as Ctrl-C would: not an Exception)."""


def mine(frame):
    return frame.f_code.co_filename.startswith(SRC)


def count_lines(f, limit=200000):
    """How many lines of the code under test f() runs."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if mine(frame) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        f()
    finally:
        sys.settrace(old)
    return n[0]


def break_at(f, at):
    """Run f(), raising Broken at the at-th line of the code under test. Returns "broken", "swallowed"
    (f returned although it was broken off) or "done" (it ended before), and what f returned."""
    n = [0]
    hit = [False]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == at:
                hit[0] = True
                raise Broken()
        return local

    def tracer(frame, event, arg):
        return local if mine(frame) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = f()
    except Broken:
        return "broken", None
    finally:
        sys.settrace(old)
    return ("swallowed" if hit[0] else "done"), r


class _Pipe(object):
    def __init__(self, at):
        self.at = at

    def write(self, s):
        self.at -= 1
        if self.at == 0:
            raise BrokenPipeError("nobody reads")
        return len(s)

    def flush(self):
        pass


def broken_pipe_at(f, at):
    """Run f() with an output that fails at the at-th write."""
    p = _Pipe(at)
    try:
        with contextlib.redirect_stdout(p):
            r = f()
    except BrokenPipeError:
        return "broken", None
    return ("swallowed" if p.at <= 0 else "done"), r


class Turns(object):
    """Threads of which one runs at a time; at lines of the code under test chosen by rng another one
    goes on. Returns after all have ended; .results holds (True, value) or (False, exception)."""

    def __init__(self, rng, fns, every=40):
        self.rng, self.every = rng, every
        self.fns = fns
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(len(fns)))
        self.results = [None] * len(fns)
        self.switches = 0
        self.trail = hashlib.sha256()
        self.left = 1
        self.end = threading.Event()
        self.free = False

    def _next(self, me):
        self.left = self.rng.randint(1, 2 * self.every)
        if self.rng.random() < 0.1:
            self.left = 1 + self.left // 8
        to = self.rng.choice(self.alive)
        if to != me:
            self.switches += 1
            self.trail.update(b"%d>%d;" % (me, to))
            self.sem[to].release()
            if me in self.alive and not self.free:
                self.sem[me].acquire()

    def _body(self, me):
        self.sem[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0 and not self.free:
                    self.trail.update(b"%d" % frame.f_lineno)
                    self._next(me)
            return local

        def tracer(frame, event, arg):
            return local if mine(frame) else None

        sys.settrace(tracer)
        try:
            self.results[me] = (True, self.fns[me]())
        except BaseException as ex:
            self.results[me] = (False, ex)
        finally:
            sys.settrace(None)
            self.alive.remove(me)
            if self.alive:
                self._next(me)
            else:
                self.end.set()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.sem[self.rng.choice(self.alive)].release()
        last, since = None, time.time()
        while not self.end.wait(0.2):
            if (self.left, self.switches) != last:
                last, since = (self.left, self.switches), time.time()
            elif time.time() - since > 5:
                # whoever has the turn waits for another one: let all of them go on
                self.free = True
                for s in self.sem:
                    s.release()
        for t in ts:
            t.join()
        return self
