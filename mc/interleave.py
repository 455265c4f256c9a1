"""Two or more threads of real code under a controlled scheduler.

Only one thread runs at a time.  Every line of the code under test (or every function call, if coarse)
is a scheduling point.  A schedule is a list of (thread, number of points it runs before it is preempted);
after the list, the remaining threads run to their end one after another.  Random draws are routed to an
explorer per thread, so that every thread has its own stream whatever the schedule.
"""
import os
import sys
import threading

from . import rng

SRC = os.environ.get("BB_SRC", "/nowhere")


class Router:
    """stands in for the explorer: every thread draws from its own"""

    def __init__(self):
        self.local = threading.local()
        self.shared = None

    def bind(self, ex):
        self.local.ex = ex

    def __getattr__(self, name):
        ex = getattr(self.__dict__["local"], "ex", None)
        if ex is None:
            raise rng.Unsupported("a random draw outside of the explored threads")
        return getattr(ex, name)


class Run:
    def __init__(self, fns, streams, schedule, coarse=False):
        """fns: one function per thread; streams: one prepared explorer per thread"""
        self.fns, self.streams = fns, streams
        self.schedule = list(schedule)
        self.coarse = coarse
        self.n = len(fns)
        self.cond = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.points = [0] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.budget = None
        self.finished = threading.Semaphore(0)
        self.abort = False

    # --- the schedule
    def _next(self):
        """the thread that runs next, and for how many points"""
        while self.schedule:
            t, k = self.schedule.pop(0)
            if not self.done[t]:
                return t, k
        for t in range(self.n):
            if not self.done[t]:
                return t, None
        return None, None

    def _switch(self, me):
        t, k = self._next()
        self.budget = k
        if t is None:
            self.finished.release()
            return
        if t != me:
            self.cond[t].release()
            if me is not None and not self.done[me]:
                self.cond[me].acquire()

    def point(self, me):
        self.points[me] += 1
        while self.budget is not None and self.budget <= 0:
            self._switch(me)
        if self.budget is not None:
            self.budget -= 1

    # --- threads
    def _trace(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            if not f.startswith(SRC):
                return None
            if self.coarse:
                self.point(me)
                return None
            return local
        return glob

    def _body(self, me, router):
        self.cond[me].acquire()
        router.bind(self.streams[me])
        sys.settrace(self._trace(me))
        try:
            self.result[me] = self.fns[me]()
        except BaseException as e:
            self.error[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self._switch(me)

    def go(self):
        router = Router()
        threads = [threading.Thread(target=self._body, args=(i, router), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        import time
        rng.Ctl.explorer, rng.Ctl.active, rng.Ctl.started = router, True, time.time()
        try:
            self._switch(None)
            self.finished.acquire()
        finally:
            rng.Ctl.active = False
        for t in threads:
            t.join()
        return self


def stream(salt, accept, radius=1):
    """an explorer that goes through one deterministic sequence of draws"""
    n = [salt]

    def nxt(k):
        n[0] += 1
        return (n[0] * 7 + n[0] // 5 + salt) % k
    ex = rng.Explorer(radius=radius, unit=lambda k: [(1e-9 if accept[k % len(accept)] else 1 - 1e-12, 1.0)],
                      menu=lambda kind, pts: [pts[nxt(len(pts))]] if pts else pts, int_menu=lambda kind, o: [o[nxt(len(o))]],
                      max_draws=100000)
    return ex
