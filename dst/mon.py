"""The simulation kernel.

One object (``K``) owns every source of nondeterminism inside a simulated run:

* simulated time is the number of source lines of the package executed so far
  (counted through ``sys.monitoring`` LINE events),
* caller threads are real threads of which exactly one holds the baton; the
  baton moves only when the plan's schedule says so, at a LINE event or at a
  device operation,
* faults (KeyboardInterrupt, MemoryError, RecursionError) are raised at a LINE
  event chosen by the plan,
* observers look at the world at every LINE event.

Nothing here draws random numbers or reads a clock.
"""
import os
import sys
import threading
import zlib

M = sys.monitoring
TOOL = 4
REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
PKG = os.path.join(REPO, "sudokutools") + os.sep
TESTS = os.path.join(PKG, "tests") + os.sep


class StepLimit(BaseException):
    """Raised inside the package when a run exceeds its step budget."""


class Deadlock(Exception):
    pass


FAULTS = {
    "interrupt": lambda: KeyboardInterrupt(),
    "memory": lambda: MemoryError("simulated allocation failure"),
    "recursion": lambda: RecursionError("simulated recursion limit"),
}


class Task(object):
    def __init__(self, idx, fn, name=None):
        self.idx = idx
        self.fn = fn
        self.name = name or "t%d" % idx
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.steps = 0
        self.exc = None
        self.result = None
        # armed fault: (count, kind, predicate) on this task's own step count
        self.fault = None
        self.fault_fired = None
        self.waiting = None    # the package's lock this task waits for
        self.ctx = {}          # per-task data (streams, ...)


class Kernel(object):
    def __init__(self):
        self.active = False
        self.busy = False
        self._code = {}
        self.reset()

    def reset(self):
        self.steps = 0
        self.cap = None
        self.observer = None
        self.tasks = []
        self.cur = None
        self.schedule = []
        self.sptr = 0
        self.quantum = None
        self.switches = 0
        self.trace = 0
        self.limit_hit = False
        self.stuck = False
        self.main_task = Task(-1, None, "main")
        self.cur = self.main_task

    # -- activation ---------------------------------------------------------
    def install(self):
        M.use_tool_id(TOOL, "dst")
        M.register_callback(TOOL, M.events.LINE, self._on_line)

    def start(self, cap=None):
        self.cap = cap
        self.active = True
        M.set_events(TOOL, M.events.LINE)

    def stop(self):
        self.active = False
        M.set_events(TOOL, 0)

    # -- the LINE event -----------------------------------------------------
    def _on_line(self, code, line):
        ok = self._code.get(code)
        if ok is None:
            fn = code.co_filename
            ok = fn.startswith(PKG) and not fn.startswith(TESTS)
            self._code[code] = ok
        if not ok:
            return M.DISABLE
        if self.busy or not self.active:
            return None
        self.steps += 1
        task = self.cur
        task.steps += 1
        if self.cap is not None and self.steps > self.cap:
            self.limit_hit = True
            raise StepLimit("more than %d steps" % self.cap)
        if self.observer is not None:
            self.busy = True
            try:
                self.observer(code, line)
            finally:
                self.busy = False
        f = task.fault
        if f is not None and task.steps >= f[0]:
            if f[2] is None or self._quiet(f[2], code, line):
                task.fault = None
                task.fault_fired = (f[1], task.steps, code.co_name)
                raise FAULTS[f[1]]()
        q = self.quantum
        if q is not None:
            if q <= 1:
                self._advance()
            else:
                self.quantum = q - 1
        return None

    def _quiet(self, pred, code, line):
        self.busy = True
        try:
            return pred(code, line)
        finally:
            self.busy = False

    def tick(self):
        """A scheduling point outside the package (device operation)."""
        if not self.active or self.busy:
            return
        q = self.quantum
        if q is not None:
            if q <= 1:
                self._advance()
            else:
                self.quantum = q - 1

    # -- scheduling ---------------------------------------------------------
    def _next(self):
        """Next (task, quantum) according to the cyclic schedule."""
        n = len(self.schedule)
        for _ in range(n):
            t, q = self.schedule[self.sptr % n]
            self.sptr += 1
            t = self.tasks[t % len(self.tasks)]
            if not t.done and (t.waiting is None or not t.waiting.blocked(t)):
                return t, max(1, q)
        for t in self.tasks:
            if not t.done and (t.waiting is None or not t.waiting.blocked(t)):
                return t, None
        return None, None

    def block(self, lock, timeout):
        """The current task waits for a lock of the package (locks.py)."""
        me = self.cur
        end = None if timeout is None or timeout < 0 else self.steps + 1 + int(timeout * 10000)
        if end is not None:
            while lock.blocked(me) and self.steps < end:
                self.steps += 1
                self.quantum = None
                self._advance()
            return not lock.blocked(me)
        me.waiting = lock
        try:
            while lock.blocked(me):
                t, q = self._next()
                if t is None:
                    raise StepLimit("waits for a lock that nobody will release")
                self.quantum = q
                self.switches += 1
                self.trace = zlib.crc32(b"%d|%d@%d" % (me.idx, t.idx, me.steps), self.trace)
                self.cur = t
                t.lock.release()
                me.lock.acquire()
                if self.stuck:
                    self.stuck = False
                    raise StepLimit("waits for a lock that nobody will release")
            return True
        finally:
            me.waiting = None

    def _advance(self):
        me = self.cur
        t, q = self._next()
        self.quantum = q
        if t is None or t is me:
            return
        self.switches += 1
        self.trace = zlib.crc32(b"%d>%d@%d" % (me.idx, t.idx, me.steps), self.trace)
        self.cur = t
        t.lock.release()
        me.lock.acquire()

    def _body(self, task):
        task.lock.acquire()
        try:
            task.result = task.fn()
        except BaseException as e:     # recorded, judged by the oracle
            task.exc = e
        # hand the baton on
        self.busy = True
        task.done = True
        t, q = self._next()
        if t is None:
            # all the others wait for locks
            t = next((x for x in self.tasks if not x.done), None)
            self.stuck = t is not None
        self.quantum = q
        if t is None:
            t = self.main_task
        self.trace = zlib.crc32(b"%d!%d" % (task.idx, task.steps), self.trace)
        self.cur = t
        self.busy = False
        t.lock.release()

    def run_tasks(self, tasks, schedule):
        """Run the tasks (Task objects) to completion under the schedule."""
        self.tasks = list(tasks)
        self.schedule = [tuple(x) for x in schedule]
        self.sptr = 0
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True)
                   for t in tasks]
        for th in threads:
            th.start()
        t, q = self._next()
        if t is None:
            return
        self.quantum = q
        self.cur = t
        t.lock.release()
        self.main_task.lock.acquire()
        self.quantum = None
        self.cur = self.main_task
        for th in threads:
            th.join()


K = Kernel()
