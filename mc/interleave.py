"""A controlled scheduler for two real threads.

Every line of the watched files (and every call into the others) is a point where the running thread can be stopped; a schedule says after how many of its points the running thread hands over.
Exactly one thread runs at a time. A thread that would wait for a lock the stopped one holds hands over (at once for locks created inside `with Locks():`, else after a while).
"""
import os
import sys
import threading
import time


class Stuck(Exception):
    pass


class Lock(object):
    """A re-entrant lock that hands over to the stopped thread instead of waiting for it."""
    real = staticmethod(threading.RLock)

    def __init__(self):
        self.lock = Lock.real()

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(local, "run", None)
        while True:
            if self.lock.acquire(False):
                return True
            if not blocking:
                return False
            if me is None:
                return self.lock.acquire(True, timeout)
            run, i = me
            if run.done[1 - i]:
                return self.lock.acquire(True, timeout)
            run.blocked += 1
            run.hand_over(i)
            run.go[i].acquire()

    def release(self):
        self.lock.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


local = threading.local()


class Locks(object):
    """with Locks(): locks created in the block hand over."""

    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        threading.Lock = threading.RLock = Lock

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = self.saved


class Run(object):
    def __init__(self, programs, switches, lines, calls, root, whole=()):
        """programs: two functions; switches: points after which the running thread is stopped, in order of running; lines/calls: files (relative to root) watched by line / by call;
        whole: functions of the former that are only watched by call."""
        self.whole = frozenset(whole)
        self.programs, self.switches = programs, list(switches)
        self.lines = {os.path.join(root, f) for f in lines}
        self.calls = {os.path.join(root, f) for f in calls}
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.points = [0, 0]            # points passed by each thread
        self.since = 0                  # points of the running thread since it was last resumed
        self.running = None
        self.results = [None, None]
        self.trace = []
        self.finished = threading.Semaphore(0)
        self.blocked = 0

    def point(self, me):
        if self.running != me:          # released because the other one waits for a lock held here
            self.go[me].acquire()
        self.points[me] += 1
        self.since += 1
        if self.switches and self.since >= self.switches[0] and not self.done[1 - me]:
            self.switches.pop(0)
            self.hand_over(me)
            self.go[me].acquire()

    def hand_over(self, me):
        self.since, self.running = 0, 1 - me
        self.go[1 - me].release()

    def tracer(self, me):
        lines, calls, whole, point = self.lines, self.calls, self.whole, self.point

        def local(frame, event, arg):
            if event == "line":
                point(me)
            return local

        def glob(frame, event, arg):
            name = frame.f_code.co_filename
            if name in lines:
                point(me)
                return None if frame.f_code.co_name in whole else local
            if name in calls:
                point(me)
            return None
        return glob

    def thread(self, me):
        self.go[me].acquire()
        local.run = (self, me)
        sys.settrace(self.tracer(me))
        try:
            self.results[me] = ("ok", self.programs[me]())
        except BaseException as exc:
            self.results[me] = ("error", "%s: %s" % (exc.__class__.__name__, exc))
        finally:
            sys.settrace(None)
            self.done[me] = True
            if not self.done[1 - me]:
                self.hand_over(me)
            self.finished.release()

    def execute(self, first, limit=20.0):
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in threads:
            t.start()
        self.running = first
        self.go[first].release()
        left, begin, seen = 2, time.time(), None
        while left:
            if self.finished.acquire(timeout=1.0):
                left -= 1
                continue
            now = (tuple(self.points), tuple(self.done), self.running)
            if now == seen and not any(self.done):
                self.blocked += 1
                self.hand_over(self.running)     # it waits for something the stopped thread holds
            seen = now
            if time.time() - begin > limit:
                raise Stuck("the threads do not finish")
        for t in threads:
            t.join()
        return self.results
