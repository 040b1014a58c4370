"""Cooperative scheduler for real Python threads (preemption-bounded exploration).

Threads run one at a time. Every line (or bytecode instruction) executed in the
source files of the package is a scheduling point, at which the plan of the
execution may switch to another thread. Everything outside of these files runs
atomically (numpy and spharm hold the GIL or act on thread-local data).
"""

import os
import sys
import threading
import time
import _thread

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock


class Stalled(Exception):
    pass


class CoopLock:
    """Lock whose waiting is visible to the scheduler."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0
        self._real = _REAL_RLOCK() if reentrant else _REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        sched = Scheduler.active
        me = _thread.get_ident()
        if sched is None or me not in sched.ids or sched.free:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking:
                return False
            sched.blocked()
        return True

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install_locks(src):
    """Locks made by code of the package become cooperative."""
    def factory(real, reentrant):
        def make():
            name = sys._getframe(1).f_code.co_filename
            return CoopLock(reentrant) if name.startswith(src) else real()
        return make
    threading.Lock = factory(_REAL_LOCK, False)
    threading.RLock = factory(_REAL_RLOCK, True)


class Scheduler:
    active = None

    def __init__(self, bodies, plan, src, opcodes=False, start=0):
        self.bodies = bodies
        self.plan = dict(plan)
        self.src = src
        self.opcodes = opcodes
        self.n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.alive = [True] * self.n
        self.results = [None] * self.n
        self.idx = 0
        self.current = start
        self.free = False
        self.done = threading.Semaphore(0)
        self.ids = {}
        self.where = []
        self.switches = 0

    def run(self):
        Scheduler.active = self
        threads = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        self.sems[self.current].release()
        left, last, stalls = self.n, -1, 0
        while left:
            if self.done.acquire(timeout=5.):
                left -= 1
                continue
            if self.idx == last or self.free:
                # No progress: some thread waits for something this scheduler
                # does not know. Let everything run freely to its end.
                stalls += 1
                if not self.free:
                    self.free = True
                    for s in self.sems:
                        s.release()
                if stalls > 6:
                    Scheduler.active = None
                    raise Stalled("threads do not come to an end (deadlock)")
            last = self.idx
        Scheduler.active = None
        return self.results

    def _main(self, i):
        self.ids[_thread.get_ident()] = i
        self.sems[i].acquire()
        sys.settrace(self._trace)
        try:
            out = ("ok", self.bodies[i]())
        except BaseException as e:
            out = ("exc", e)
        finally:
            sys.settrace(None)
        self.results[i] = out
        self.alive[i] = False
        nxt = next((j for j in range(self.n) if self.alive[j]), None)
        if nxt is not None and not self.free:
            self.current = nxt
            self.sems[nxt].release()
        self.done.release()

    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.src):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self._local

    def point(self, frame):
        if self.free:
            return
        i = self.idx
        self.idx = i + 1
        target = self.plan.get(i)
        if target is not None:
            me = self.current
            if target != me and self.alive[target]:
                self.where.append("{}:{}".format(os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self._switch(me, target)

    def blocked(self):
        me = self.current
        nxt = next((j for j in range(self.n) if self.alive[j] and j != me), None)
        if nxt is None:
            raise Stalled("thread waits for a lock nobody will release")
        self._switch(me, nxt)

    def _switch(self, me, target):
        self.switches += 1
        if self.switches > 100000:
            raise Stalled("livelock")
        self.current = target
        self.sems[target].release()
        self.sems[me].acquire()


def explore(make, src, bound, opcodes=False, shard=(0, 1), starts=(0, 1)):
    """All schedules of two threads with at most `bound` preemptions.

    make() returns fresh thread bodies. Yields (plan, start, results, scheduler).
    The schedules are divided among shards by their first preemption.
    """
    def execute(plan, start):
        s = Scheduler(make(), plan, src, opcodes, start)
        return s.run(), s

    for start in starts:
        if shard[0] == 0:
            res, s = execute([], start)
            yield (), start, res, s
        # number of points until the first thread ends is an upper bound for
        # the position of a first preemption: learn it from the default run
        res, s0 = execute([], start)
        stack = []
        if bound >= 1:
            for i in range(shard[0], s0.idx, shard[1]):
                stack.append(((i, 1 - start),))
        while stack:
            plan = stack.pop()
            res, s = execute(plan, start)
            if len(s.where) < len(plan):
                # the last preemption was not possible any more (only one
                # thread left): same schedule as without it
                continue
            yield plan, start, res, s
            if len(plan) < bound:
                i, t = plan[-1]
                for j in range(i + 1, s.idx):
                    stack.append(plan + ((j, 1 - t),))
