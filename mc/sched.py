"""Real threads under a controlled scheduler.

Every thread runs the real code with a trace function; at each scheduling point (a call, line
or bytecode of the traced files, or an operation on a lock made through `threading`) exactly one
thread goes on, chosen by the Chooser.  Going on with the same thread costs nothing, switching
away from a thread that could go on is a preemption and costs one deviation.
"""
import _thread
import os
import sys
import threading
import time

import impl

ME = None  # the running Scheduler of this process


class Lock:
    """A lock whose waiting is controlled (replaces threading.Lock and threading.RLock)."""

    def __init__(self, reentrant=False):
        self._real = _thread.allocate_lock()
        self._re = reentrant
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._count += 1
            return True
        s = ME
        if s is None or me not in s.slots:
            ok = self._real.acquire(blocking, timeout)
        else:
            s.point()
            while True:
                ok = self._real.acquire(False)
                if ok or not blocking:
                    break
                if not s.block(self, timeout >= 0):
                    ok = self._real.acquire(False)
                    break
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self._re:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        if ME is not None:
            ME.wake(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._real.locked()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._count = self._count, 1
        if self._re:
            self.release()
        else:
            self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n

    def _at_fork_reinit(self):
        self.__init__(self._re)


def patch():
    threading.Lock = Lock
    threading.RLock = lambda: Lock(True)


class Slot:
    def __init__(self, i):
        self.i = i
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = "ready"  # ready, blocked, outside, done
        self.waits = None
        self.timed = False
        self.timeout = False
        self.tid = None


class Scheduler:
    def __init__(self, c, jobs, grain, stdlib, bucket, first, visits=0, skip=()):
        """jobs: functions, one per thread.  bucket: (k, m): the first preemption is at a
        point whose number is k modulo m.  visits: preemptions only at the first so many visits of
        each thread to each location (a line, as reached from the calling line); 0: at every one.
        skip: no point in the files whose paths, within the source directory, begin so."""
        self.visits, self.seen = visits, {}
        self.skip = tuple(impl.SRC + os.sep + p for p in skip)
        self.c, self.jobs, self.grain, self.bucket = c, jobs, grain, bucket
        self.files = (impl.SRC + os.sep,) + ((os.path.dirname(os.__file__) + "/xml/",) if stdlib else ())
        self.slots = {}
        self.all = [Slot(i) for i in range(len(jobs))]
        self.results = [None] * len(jobs)
        self.current = None
        self.points = 0
        self.preempted = 0
        self.first = first
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.verdict = None
        self.error = None
        self.external = 0

    # --- what threads do ----------------------------------------------------------
    def body(self, slot, job):
        slot.tid = _thread.get_native_id()
        threading.current_thread().name = "worker"  # threads may share their name
        self.slots[_thread.get_ident()] = slot
        self.up.release()
        slot.go.acquire()
        try:
            if self.c.spent < self.c.bound and self.grain != "lock":
                sys.settrace(self.trace)
            self.results[slot.i] = job()
        except BaseException as e:  # noqa: B902
            self.results[slot.i] = ("died", repr(e))
        finally:
            sys.settrace(None)
        slot.state = "done"
        try:
            self.switch(slot, False)
        except BaseException as e:  # noqa: B902
            self.fail(e)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.files) or self.skip and frame.f_code.co_filename.startswith(self.skip):
            return None
        if self.grain == "enter":
            self.at(frame, event)
            return None
        if self.grain == "call":
            frame.f_trace_lines = False
        elif self.grain == "opcode":
            frame.f_trace_opcodes = True
        self.at(frame, event)
        return self.step

    def step(self, frame, event, arg):
        if event == "exception":
            return self.step
        self.at(frame, event)
        return self.step

    def at(self, frame, event):
        if self.visits:
            back = frame.f_back
            k = (_thread.get_ident(), event, frame.f_code, frame.f_lineno, back and back.f_code, back and back.f_lineno)
            n = self.seen[k] = self.seen.get(k, 0) + 1
            slot = self.slots.get(k[0])
            if n > self.visits and slot is not None and slot.state == "ready":
                return
        self.point()

    def point(self):
        slot = self.slots.get(_thread.get_ident())
        if slot is None or self.verdict:
            return
        if slot.state == "outside":  # was blocked outside our control: wait for a turn
            slot.state = "ready"
            slot.go.acquire()
            return
        if self.c.spent >= self.c.bound:  # no preemption left: the rest of the schedule is settled
            sys.settrace(None)
            return
        self.points += 1
        if not self.preempted and self.bucket and self.points % self.bucket[1] != self.bucket[0]:
            return
        try:
            self.switch(slot, True)
        except BaseException as e:  # noqa: B902
            self.fail(e)
            raise

    def block(self, lock, timed):
        """False if the wait timed out."""
        slot = self.slots[_thread.get_ident()]
        slot.state, slot.waits, slot.timed, slot.timeout = "blocked", lock, timed, False
        self.switch(slot, False)
        slot.waits = None
        return not slot.timeout

    def wake(self, lock):
        for s in self.all:
            if s.state == "blocked" and s.waits is lock:
                s.state = "ready"

    # --- choosing -------------------------------------------------------------------
    def switch(self, slot, able):
        if self.verdict:
            if slot.state == "blocked":
                slot.go.acquire()  # for ever; the process ends
            return
        ready = [s for s in self.all if s.state == "ready" and s is not slot]
        if able:
            if not ready:
                return
            k = self.c.choose(1 + len(ready), 1)
            if k == 0:
                return
            self.preempted += 1
            nxt = ready[k - 1]
        elif ready:
            nxt = ready[self.c.choose(len(ready))] if len(ready) > 1 else ready[0]
        else:
            late = [s for s in self.all if s.state == "blocked" and s.timed]
            if late:
                nxt = late[0]
                nxt.state, nxt.timeout = "ready", True
            elif any(s.state == "outside" for s in self.all):
                self.current = None  # wait for them
                nxt = None
            elif all(s.state == "done" for s in self.all):
                return self.finish("done")
            else:
                self.finish("deadlock")
                nxt = None
        if nxt is not None:
            self.current = nxt
            if nxt is not slot:
                nxt.go.release()
        if slot.state != "done" and nxt is not slot:
            slot.go.acquire()

    def fail(self, e):
        self.error = e
        self.finish("error")

    def finish(self, v):
        if not self.verdict:
            self.verdict = v
            self.over.release()

    # --- the main thread -----------------------------------------------------------------
    def sleeping(self, slot):
        try:
            with open(f"/proc/self/task/{slot.tid}/stat") as f:
                s = f.read().rsplit(")", 1)[1].split()
            return s[0] == "S" and (s[11], s[12])
        except OSError:
            return False

    def run(self, limit=60):
        global ME
        ME = self
        if self.grain == "opcode":  # before any thread's settrace, or it has no effect in the first
            (lambda: setattr(sys._getframe(), "f_trace_opcodes", True))()  # on a frame that ends at once
        self.up = _thread.allocate_lock()
        self.up.acquire()
        for s, j in zip(self.all, self.jobs):
            _thread.start_new_thread(self.body, (s, j))
            self.up.acquire()
        self.current = self.all[self.first]
        self.current.go.release()
        end, last, calm = time.monotonic() + limit, None, 0
        while not self.over.acquire(True, 0.5):
            if time.monotonic() > end:
                self.finish("hang")
                break
            cur = self.current
            now = (self.points, cur and cur.i, cur and self.sleeping(cur))
            calm = calm + 1 if now == last and (cur is None or now[2]) else 0
            last = now
            if calm >= 4:  # two seconds asleep inside something we do not control
                calm = 0
                if cur is not None and cur.state != "done":
                    self.external += 1
                    cur.state = "outside"
                others = [s for s in self.all if s.state == "ready"]
                if others:
                    self.current = others[0]
                    others[0].go.release()
                elif self.external > 10 * len(self.all):
                    self.finish("hang")
        if self.error is not None:
            raise self.error
        return self.verdict
