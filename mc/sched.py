"""Controlled scheduler: real threads, one running at a time, switched at chosen executed lines or instructions of the code under test (sys.settrace).  A schedule is a list of (thread, number of scheduling points or None=to the end)."""
import dis
import os
import sys
import threading
import time

import omegaconf

LIB = os.path.dirname(os.path.abspath(omegaconf.__file__)) + os.sep
# instructions that cannot be told apart by another thread: moving a switch from before to after one of them changes nothing
_LOCAL = ("LOAD_FAST", "STORE_FAST", "DELETE_FAST", "LOAD_CONST", "POP_TOP", "JUMP", "POP_JUMP", "RESUME", "NOP", "CACHE", "COPY", "SWAP", "PUSH_NULL", "RETURN", "LOAD_CLOSURE", "MAKE_", "EXTENDED_ARG", "IS_OP", "KW_NAMES",
          "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP", "BUILD_STRING", "COPY_FREE_VARS", "END_FOR", "LOAD_DEREF", "PUSH_EXC", "POP_EXCEPT", "RERAISE", "CHECK_EXC", "UNARY_NOT", "PRECALL", "SETUP", "POP_BLOCK", "DUP", "ROT")
SHARED = [not dis.opname[i].startswith(_LOCAL) for i in range(256)]


class Thread:
    def __init__(self, sched, i):
        self.s, self.i = sched, i
        self.go = threading.Semaphore(0)
        self.job = None
        self.done = True
        self.parked = False
        self.budget = -1
        self.points = 0
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            f = self.job
            if self.budget >= 0:
                sys.settrace(self.trace)
            try:
                r = ("ok", f())
            except Exception as e:
                r = ("exc", e)
            finally:
                sys.settrace(None)
            self.result = r
            self.done = True
            self.s.back.release()

    # ---- tracing
    def trace(self, frame, event, arg):
        g = self.s.grain(frame.f_code)
        if g is None:
            return None
        if g == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.on_opcode
        if g == "call":
            self.point()
            return None
        return self.on_line

    def on_line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.on_line

    def on_opcode(self, frame, event, arg):
        if event == "opcode" and SHARED[frame.f_code.co_code[frame.f_lasti]]:
            self.point()
        return self.on_opcode

    def point(self):
        self.points += 1
        if self.budget < 0:
            sys.settrace(None)
        elif self.points >= self.budget:
            self.parked = True
            self.s.back.release()
            self.go.acquire()
            self.parked = False
            if self.budget < 0:
                # runs to the end: no more scheduling points needed
                sys.settrace(None)


class Sched:
    def __init__(self, n, grain, instructions=False):
        """grain(code object) -> None | 'call' | 'line' | 'opcode'"""
        self._grain, self._g = grain, {}
        if instructions:
            self._instructions()
        self.back = threading.Semaphore(0)
        self.threads = [Thread(self, i) for i in range(n)]

    def _instructions(self):
        # the interpreter reports instructions only if some frame asked for it before tracing starts
        sys._getframe().f_trace_opcodes = True

    def grain(self, code):
        g = self._g.get(code, 0)
        if g == 0:
            g = self._g[code] = self._grain(code)
        return g

    def close(self):
        for t in self.threads:
            t.job = None
            t.go.release()

    def _start(self, jobs):
        for t, j in zip(self.threads, jobs):
            t.job, t.done, t.points, t.parked, t.fresh, t.budget, t.result = j, False, 0, False, True, -1, None

    def _free(self, n, horizon):
        """some thread waits for something another one holds: let all go on -> False if they never end"""
        end = time.time() + horizon
        for u in self.threads[:n]:
            u.budget = -1
            if not u.done and (u.parked or u.fresh):
                u.fresh = False
                u.go.release()
        while not all(u.done for u in self.threads[:n]):
            if time.time() > end:
                return False
            if self.back.acquire(timeout=0.02):
                for u in self.threads[:n]:
                    if u.parked:
                        u.go.release()
                        time.sleep(0.001)
        time.sleep(0.001)
        while self.back.acquire(blocking=False):
            pass
        return True

    def run(self, jobs, schedule, patience=0.1, horizon=20.0):
        """schedule: (thread, points or None) ... -> (results or None if the threads are stuck, segments (thread, points, finished))"""
        self._start(jobs)
        n = len(jobs)
        segs = []
        for i, k in list(schedule) + [(i, None) for i in range(n)]:
            t = self.threads[i]
            if t.done:
                continue
            a = t.points
            t.budget = -1 if k is None else a + k
            t.fresh = False
            t.go.release()
            if not self.back.acquire(timeout=patience):
                segs.append(("blocked", i, False))
                if not self._free(n, horizon):
                    return None, segs
                break
            segs.append((i, t.points - a, t.done))
        return [t.result for t in self.threads[:n]], segs

    def sweep(self, a, b, start, state, judge, patience=0.1, horizon=20.0):
        """Runs a; at each of its points from start on, runs b from beginning to end and calls judge(point, result of b), until b changes the shared state(); then a goes on alone.
        If b does not change the shared state, a goes on exactly as without b: each point is one complete schedule.
        -> (result of a or None if stuck, the first point not covered or None at the end, schedules, blocked)"""
        A, B = self.threads[:2]
        self._start([a, b])
        B.done = True
        A.budget = start
        A.fresh = False
        A.go.release()
        k = 0
        while True:
            self.back.acquire()
            if A.done:
                return A.result, None, k, False
            i = A.points
            f = state()
            B.job, B.done, B.points, B.parked, B.fresh, B.budget, B.result = b, False, 0, False, False, -1, None
            B.go.release()
            k += 1
            if not self.back.acquire(timeout=patience):
                if not self._free(2, horizon):
                    return None, None, k, True
                judge(i, B.result)
                return A.result, i + 1, k, True
            judge(i, B.result)
            if state() != f:
                A.budget = -1
                A.go.release()
                if not self.back.acquire(timeout=horizon):
                    return None, None, k, False
                return A.result, i + 1, k, False
            A.go.release()
