"""A scheduler of real threads: only one runs at a time, and it is switched only at the yield points
(calls, lines or instructions in the library's own files) that a plan names.

A plan is a list of (thread, number of yield points); the thread runs until it has passed that many
points, or ends; after the plan, the threads run to their end one after another."""

import os
import queue
import sys
import threading

from mc import env

PREFIX = os.path.join(os.path.realpath(env.REPO), "pddl") + os.sep
PREFIXES = (PREFIX, os.path.join(env.REPO, "pddl") + os.sep)
BLOCKED_SECONDS = 2.0


MON = sys.monitoring
TOOL = 4
_workers = {}
_watched = None


def _point(code, *where):
    if not code.co_filename.startswith(PREFIXES):
        return MON.DISABLE
    w = _workers.get(threading.get_ident())
    if w is not None:
        w.tick()
    return None


def watch(grain):
    """Turn the events of one grain on; they stay on, as turning them on is slow."""
    global _watched
    if _watched == grain:
        return
    if _watched is None:
        MON.use_tool_id(TOOL, "schedules")
    e = MON.events
    MON.set_events(TOOL, 0)
    for event in (e.PY_START, e.LINE, e.INSTRUCTION):
        MON.register_callback(TOOL, event, None)
    event = {"call": e.PY_START, "line": e.LINE, "opcode": e.INSTRUCTION}[grain]
    MON.register_callback(TOOL, event, _point)
    MON.set_events(TOOL, event)
    _watched = grain


class Worker(threading.Thread):
    def __init__(self, fn, grain, reports):
        super().__init__(daemon=True)
        self.fn, self.grain, self.reports = fn, grain, reports
        self.go = threading.Semaphore(0)
        self.left = 0
        self.points = 0
        self.done = False
        self.result = None

    def tick(self):
        self.points += 1
        if self.left > 0:
            self.left -= 1
            return
        self.reports.put(self)
        self.go.acquire()
        self.left -= 1

    def run(self):
        self.go.acquire()
        _workers[threading.get_ident()] = self
        try:
            self.result = ("value", self.fn())
        except BaseException as e:  # noqa
            self.result = ("exc", "%s" % type(e).__name__, str(e)[:300])
        finally:
            del _workers[threading.get_ident()]
            self.done = True
            self.reports.put(self)


def run(fns, plan, grain):
    """Results of the functions run in threads under a plan, and the numbers of points passed."""
    watch(grain)
    reports = queue.SimpleQueue()
    ws = [Worker(fn, grain, reports) for fn in fns]
    for w in ws:
        w.start()
    blocked = set()

    def resume(w, n):
        """Let w pass n points; returns when it stops, ends or seems to be blocked."""
        if w.done or n <= 0:
            return
        if w in blocked:
            return
        w.left = n
        w.go.release()
        while True:
            try:
                r = reports.get(timeout=BLOCKED_SECONDS)
            except queue.Empty:
                blocked.add(w)
                return
            blocked.discard(r)
            if r is w:
                return

    for i, n in plan:
        resume(ws[i], n)
    for _ in range(3):
        for w in ws:
            resume(w, 1 << 60)
            while w in blocked and not w.done and len(blocked) == 1 and all(o.done for o in ws if o is not w):
                try:
                    blocked.discard(reports.get(timeout=BLOCKED_SECONDS * 5))
                except queue.Empty:
                    break
                if not w.done:
                    resume(w, 1 << 60)
    for w in ws:
        if not w.done:
            # a thread that is blocked although the others have ended
            return [("exc", "Deadlock", "") if not o.done else o.result for o in ws], [o.points for o in ws]
        w.join()
    return [w.result for w in ws], [w.points for w in ws]


def plans(points, bound, stride=1):
    """All plans for two threads with at most `bound` preemptions (points: how many each has)."""
    for a in (0, 1):
        b = 1 - a
        yield [(a, 1 << 60), (b, 1 << 60)]
        for i in range(1, points[a], stride):
            yield [(a, i), (b, 1 << 60)]
            if bound > 1:
                for j in range(1, points[b], stride):
                    yield [(a, i), (b, j), (a, 1 << 60), (b, 1 << 60)]
                    if bound > 2:
                        for k in range(1, points[a] - i, stride):
                            yield [(a, i), (b, j), (a, k), (b, 1 << 60)]
