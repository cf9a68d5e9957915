"""A controlled scheduler for real threads.

Threads run one at a time; a scheduling point is the start of every source line of the
library that a thread executes.  A schedule is a list of (step, thread): at that step the
running thread is preempted in favour of the named one.  A thread that is really blocked (on a
lock, on an import) is noticed by the lack of progress and another one is let go."""
import sys
import threading

from . import hist

STALL = 0.4


class Run:
    def __init__(self, fns, switches=(), first=0):
        self.fns = fns
        self.n = len(fns)
        self.switches = dict(switches)
        self.cv = threading.Condition()
        self.active = first
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.step = 0
        self.progress = 0
        self.stalled = set()
        self.pc = [None] * self.n
        self.trace = []                 # (thread, line, how often this thread has been there)
        self.states = set()
        self.visits = {}
        self.deadlock = False

    # ------------------------------------------------------------ in the threads
    def point(self, tid, where):
        with self.cv:
            self.progress += 1
            self.stalled.discard(tid)
            while self.active != tid:
                self.cv.wait()
            self.step += 1
            self.pc[tid] = where
            k = (tid, where)
            v = self.visits[k] = self.visits.get(k, 0) + 1
            self.trace.append((tid, where, v))
            self.states.add(tuple(self.pc))
            t = self.switches.get(self.step)
            if t is not None and t != tid and not self.done[t]:
                self.active = t
                self.cv.notify_all()
                while self.active != tid:
                    self.cv.wait()

    def tracer(self, tid):
        def local(frame, event, arg):
            if event == "line":
                self.point(tid, (frame.f_code.co_filename, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            return local if (frame.f_globals.get("__name__") or "").startswith("fluids") else None
        return glob

    def body(self, tid):
        with self.cv:
            while self.active != tid:
                self.cv.wait()
        sys.settrace(self.tracer(tid))
        try:
            r = hist.plain(self.fns[tid]())
        except Exception as e:
            r = "!%s: %s" % (type(e).__name__, str(e)[:200])
        sys.settrace(None)
        with self.cv:
            self.result[tid] = r
            self.done[tid] = True
            self.pc[tid] = "done"
            self.states.add(tuple(self.pc))
            self.progress += 1
            if self.active == tid:
                self.handover()

    def handover(self):
        for t in list(range(self.active + 1, self.n)) + list(range(self.active + 1)):
            if not self.done[t] and t not in self.stalled:
                self.active = t
                break
        self.cv.notify_all()

    # ------------------------------------------------------------ main thread
    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        quiet = 0
        with self.cv:
            while not all(self.done):
                p = self.progress
                self.cv.wait(STALL)
                if self.progress != p or all(self.done):
                    quiet = 0
                    continue
                self.stalled.add(self.active)
                quiet += 1
                if quiet > 3 * self.n + 20:
                    self.deadlock = True
                    break
                if len(self.stalled) == self.n - sum(self.done):
                    self.stalled = {self.active}
                self.handover()
        return self


def explore(make, bound, visits, check, parallel=None):
    """Every schedule of make()'s threads with at most `bound` preemptions, each placed at one of the first `visits`
    executions of a line; each in a forked process.  check(results, label) judges one run.  -> (schedules, steps, states)"""
    n, steps, states = 0, 0, set()

    def once(first, switches):
        def run():
            fns, fin = make()
            r = Run(fns, switches, first).go()
            return r.result, r.deadlock, r.trace, r.states, (fin() if fin else None)
        return hist.forked(run)
    count = len(make.names)
    todo = [(f, ()) for f in range(count)]
    while todo:
        first, sw = todo.pop()
        res, dead, trace, st, fin = once(first, sw)
        n += 1
        steps += len(trace)
        states |= st
        label = "threads %s, starting with %d, preempted at %s" % (make.names, first, [
            "step %d (%s:%d) for thread %d" % (s, trace[s - 1][1][0].rsplit("/", 1)[-1], trace[s - 1][1][1], t) for s, t in sw if s <= len(trace)])
        if dead:
            check.deadlock(label)
        check(res, fin, label)
        if len(sw) < bound:
            last = sw[-1][0] if sw else 0
            over = {}
            for i, (tid, where, v) in enumerate(trace, 1):
                over[tid] = i
            for i, (tid, where, v) in enumerate(trace, 1):
                if i > last and v <= visits:
                    for t in range(count):
                        if t != tid and over.get(t, 0) > i:         # t still has something to do
                            todo.append((first, sw + ((i, t),)))
    return n, steps, len(states)
