"""A controlled scheduler: two jobs, each in a thread of its own, one of them at a time.

Every executed source line (or bytecode) of pystrata is a scheduling point.  A *plan*
``(k1, k2, ...)`` preempts the first job after k1 of its points, the second after k2 of
its own, then the first again after k3 further ones, and so on; a job that ends hands the turn to the other.
Exactly one thread runs at any moment, so that an execution is determined by its plan.
"""

import os
import pathlib
import sys
import threading

SRC = str(pathlib.Path(os.environ["PYSTRATA_SRC"]).resolve()) + os.sep
BLOCKED = 1.0  # seconds: the other thread waits for something that this one holds


class _Job:
    def __init__(self, fn):
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.points = 0
        self.trail = []
        self.result = None
        self.error = None


class Run:
    def __init__(self, fns, plan, opcodes=False, record=False):
        self.record = record
        self.jobs = [_Job(f) for f in fns]
        self.plan = list(plan)
        self.opcodes = opcodes
        self.left = self.plan.pop(0) if self.plan else None
        self.switches = 0
        self.blocked = False

    def _hand_over(self, i):
        other = self.jobs[1 - i] if len(self.jobs) > 1 else None
        self.left = self.plan.pop(0) if self.plan else None
        if other is None or other.done:
            return False
        self.switches += 1
        other.sem.release()
        return True

    def _wait(self, i):
        if not self.jobs[i].sem.acquire(timeout=BLOCKED):
            self.blocked = True  # the other job waits for this one: go on
            self.left = None
            self.plan.clear()

    def _point(self, i):
        job = self.jobs[i]
        job.points += 1
        if self.left is not None:
            if self.left <= 0:
                if self._hand_over(i):
                    self._wait(i)
            else:
                self.left -= 1

    def _body(self, i):
        job = self.jobs[i]
        what = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == what:
                if self.record:
                    job.trail.append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lasti))
                self._point(i)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(SRC):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        self._wait(i)
        sys.settrace(tracer)
        try:
            job.result = job.fn()
        except BaseException as e:  # noqa: BLE001  (reported by the caller)
            job.error = e
        finally:
            sys.settrace(None)
            job.done = True
            self._hand_over(i)

    def go(self):
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        self.jobs[0].sem.release()
        for t in threads:
            t.join()
        return self
