"""Controlled scheduler for the real code: stateless exploration of thread schedules with a preemption bound.

Every source line of the library that a controlled thread is about to execute is a scheduling point (line events of
sys.monitoring). Exactly one controlled thread runs at a time (it holds the baton). At a scheduling point the plan of
the current execution says whether to go on with the same thread (default) or to hand the baton to another one, which
costs one preemption; when a thread ends or blocks on a lock, every choice of the next thread is free. `explore`
enumerates all plans with at most `bound` preemptions depth first: each execution reports its decisions, and every
alternative after the last planned decision spawns a new plan, so that every schedule within the bound is executed
exactly once.

Locks created by the library are replaced by cooperative ones, so that a thread that waits for a lock gives up the
baton. Should a thread block in any other way, the baton is passed on after STALL seconds; what runs is always a
possible execution of the real code. To bound loops, only the first `visits` executions of a source line by a task are
scheduling points (and none after CAP executions by all tasks).
"""
import gc
import os
import sys
import threading
import time
import types
import _thread

STALL = 1.0
ARRIVAL = 0.5
CAP = 200

_real_lock = _thread.allocate_lock
_mon = sys.monitoring
_TOOL = 3


class Monitor:
    """Line events of the library, delivered to the active scheduler."""

    def __init__(self):
        self.root = None
        self.known = set()
        self.modules = -1
        self.disabled = False

    def codes(self):
        found, todo = set(), []
        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType):
                todo.append(obj.__code__)
        inside = {}
        while todo:
            code = todo.pop()
            name = code.co_filename
            if name not in inside:
                inside[name] = os.path.realpath(name).startswith(self.root)
            if not inside[name] or code in found:
                continue
            found.add(code)
            todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
        return found

    def start(self, root):
        root = os.path.realpath(root) + os.sep
        if self.root is None:
            _mon.use_tool_id(_TOOL, 'verif')
            _mon.register_callback(_TOOL, _mon.events.LINE, self.line)
            _mon.register_callback(_TOOL, _mon.events.PY_RETURN, self.leave)
            _mon.register_callback(_TOOL, _mon.events.PY_UNWIND, self.leave)
            _mon.set_events(_TOOL, _mon.events.PY_UNWIND)
        if self.root != root or len(sys.modules) != self.modules:
            self.root, self.modules = root, len(sys.modules)
            for code in self.codes() - self.known:
                self.known.add(code)
                _mon.set_local_events(_TOOL, code, _mon.events.LINE)
        if self.disabled:
            _mon.restart_events()
            self.disabled = False

    def line(self, code, line):
        sched = ACTIVE
        if sched is None:
            return None
        task = sched.by_thread.get(_thread.get_ident())
        if task is None or sched.closed:
            return None
        where = (code, line)
        n = sched.hits[where] = sched.hits.get(where, 0) + 1
        if n > CAP:
            self.disabled = True
            return _mon.DISABLE
        if not sched.wanted(code):
            return None
        sched.point(task, where)
        return None

    def leave(self, code, offset, value):
        sched = ACTIVE
        if sched is not None:
            task = sched.by_thread.get(_thread.get_ident())
            if task is not None and task.outer is not None and sys._getframe(1) is task.outer:
                task.outer = None
                sched.finish(task)

    def watch(self, task):
        """The task ends when the outermost frame of the library on the stack of this thread returns."""
        frame, outer = sys._getframe(1), None
        while frame is not None:
            if frame.f_code in self.known:
                outer = frame
            frame = frame.f_back
        task.outer = outer
        if outer is not None:
            _mon.set_local_events(_TOOL, outer.f_code, _mon.events.LINE | _mon.events.PY_RETURN)


MONITOR = Monitor()


class Task:
    def __init__(self, ident):
        self.ident = ident
        self.sem = threading.Semaphore(0)
        self.state = 'parked'          # parked, running, blocked, done
        self.outer = None
        self.waiting_for = None
        self.visits = {}


class Scheduler:
    """Runs one execution according to a plan {decision index: identity of the chosen task}."""

    def __init__(self, root, plan, files=None, expected=None, visits=None):
        self.plan = plan
        self.files = files
        self.visits = visits           # a line is a scheduling point the first `visits` times a task executes it
        self.mutex = threading.Lock()
        self.tasks = {}
        self.by_thread = {}
        self.running = None
        self.decisions = []            # (kind, current, enabled, chosen)
        self.points = 0
        self.expected = expected       # callable: number of tasks that must have arrived before a free decision
        self.beat = time.monotonic()
        self.stalls = 0
        self.short_arrivals = 0
        self.closed = False
        self._files = {}
        self.hits = {}
        MONITOR.start(root)

    def wanted(self, code):
        known = self._files.get(code.co_filename)
        if known is None:
            known = self.files is None or any(code.co_filename.endswith(f) for f in self.files)
            self._files[code.co_filename] = known
        return known

    # -- decisions ----------------------------------------------------------------------------------------------------
    def decide(self, kind, current):
        """Called with the mutex held. Returns the chosen task or None if nobody can run."""
        enabled = sorted(i for i, t in self.tasks.items()
                         if t.state == 'parked' or (kind == 'line' and t is current)
                         or (t.state == 'blocked' and t.waiting_for is not None and not t.waiting_for.locked()))
        if not enabled:
            return None
        default = current.ident if kind == 'line' else enabled[0]
        if len(enabled) == 1:
            chosen = enabled[0]
        else:
            chosen = self.plan.get(len(self.decisions), default)
            if chosen not in enabled:
                chosen = default
            self.decisions.append((kind, current.ident if current else None, tuple(enabled), chosen))
        return self.tasks[chosen]

    def dispatch(self, task):
        task.state = 'running'
        self.running = task
        self.beat = time.monotonic()
        task.sem.release()

    def point(self, task, where):
        if self.visits is not None and self.running is task:
            seen = task.visits.get(where, 0)
            if seen >= self.visits:
                return
            task.visits[where] = seen + 1
        with self.mutex:
            self.points += 1
            self.beat = time.monotonic()
            if self.running is not task:           # the baton was passed on while this thread was stuck elsewhere
                task.state = 'parked'
                if self.running is None:
                    chosen = self.decide('free', None)
                    if chosen is not None:
                        self.dispatch(chosen)
            else:
                chosen = self.decide('line', task)
                if chosen is task or chosen is None:
                    return
                task.state = 'parked'
                self.dispatch(chosen)
        self.wait(task)

    def wait(self, task):
        while not task.sem.acquire(timeout=ARRIVAL):
            with self.mutex:
                self.rescue()

    def rescue(self):
        """The baton does not move: nobody arrives any more, or its holder is stuck outside the library."""
        now = time.monotonic()
        if self.running is None:
            if now - self.beat >= ARRIVAL:
                chosen = self.decide('free', None)
                if chosen is not None:
                    self.short_arrivals += 1
                    self.dispatch(chosen)
        elif now - self.beat > STALL:
            parked = [t for t in self.tasks.values() if t.state == 'parked']
            if parked:
                self.stalls += 1
                self.running.state = 'stalled'
                self.running = None
                chosen = self.decide('free', None)
                if chosen is not None:
                    self.dispatch(chosen)

    # -- tasks --------------------------------------------------------------------------------------------------------
    def arrive(self, ident):
        """The calling thread becomes a controlled task and waits for the baton."""
        me = _thread.get_ident()
        with self.mutex:
            old = self.by_thread.get(me)
        if old is not None:
            self.finish(old)
        task = Task(ident)
        with self.mutex:
            while ident in self.tasks:
                ident = ident + (0,) if isinstance(ident, tuple) else (ident, 0)
            task.ident = ident
            self.tasks[ident] = task
            self.by_thread[me] = task
            self.beat = time.monotonic()
            if self.running is None:
                self.start_if_complete()
        self.wait(task)
        return task

    def start_if_complete(self):
        parked = sum(t.state in ('parked', 'blocked') for t in self.tasks.values())
        if self.expected is None or parked >= self.expected(self):
            chosen = self.decide('free', None)
            if chosen is not None:
                self.dispatch(chosen)

    def finish(self, task):
        with self.mutex:
            task.state = 'done'
            self.by_thread = {k: t for k, t in self.by_thread.items() if t is not task}
            self.beat = time.monotonic()
            if self.running is task:
                self.running = None
                self.start_if_complete()

    def block(self, task, lock):
        """The calling task waits for a lock held by a task that is not running."""
        with self.mutex:
            self.beat = time.monotonic()
            task.state = 'blocked'
            task.waiting_for = lock
            if self.running is task:
                self.running = None
            chosen = self.decide('free', None)
            if chosen is not None:
                self.dispatch(chosen)
        while not task.sem.acquire(timeout=ARRIVAL):
            with self.mutex:
                if self.running is None:
                    chosen = self.decide('free', None)
                    if chosen is not None:
                        self.dispatch(chosen)
                else:
                    self.rescue()
        with self.mutex:
            task.waiting_for = None

    def current_task(self):
        return self.by_thread.get(_thread.get_ident())


ACTIVE = None


class CoopLock:
    """Lock of the library under test; waiting for it is a scheduling decision."""

    def __init__(self, reentrant=False):
        self._lock = _real_lock()
        self._owner = None
        self._count = 0
        self._reentrant = reentrant

    def locked(self):
        return self._lock.locked()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        sched = ACTIVE
        task = sched.current_task() if sched is not None else None
        if not blocking:
            got = self._lock.acquire(False)
        elif task is None:
            got = self._lock.acquire(True, timeout)
        else:
            got = self._lock.acquire(False)
            while not got:
                if timeout is not None and timeout >= 0 and sched.closed:
                    return False
                sched.block(task, self)
                got = self._lock.acquire(False)
        if got:
            self._owner, self._count = me, 1
        return got

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._lock.release()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install_locks(root):
    """Locks created by the library (at import time or later) become cooperative. Call before importing it."""
    root = os.path.realpath(root) + os.sep
    lock, rlock = threading.Lock, threading.RLock

    def from_library():
        return os.path.realpath(sys._getframe(2).f_code.co_filename).startswith(root)

    def make_lock(*a, **k):
        return CoopLock() if from_library() else lock(*a, **k)

    def make_rlock(*a, **k):
        return CoopLock(True) if from_library() else rlock(*a, **k)
    threading.Lock, threading.RLock = make_lock, make_rlock


def run_threads(root, plan, bodies, files=None, visits=None):
    """Executes the bodies in one controlled thread each. Returns (scheduler, outcomes)."""
    global ACTIVE
    sched = Scheduler(root, plan, files, expected=lambda s: len(bodies) - sum(
        t.state == 'done' for t in s.tasks.values()), visits=visits)
    outcome = [None] * len(bodies)

    def thread(i):
        task = sched.arrive(i)
        try:
            outcome[i] = ('value', bodies[i]())
        except BaseException as exc:
            outcome[i] = ('raised', exc)
        finally:
            sched.finish(task)
    ACTIVE = sched
    try:
        threads = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sched.closed = True
        ACTIVE = None
    return sched, outcome


class pool_control:
    """Context in which threads started by the library are controlled from the moment they load a file until the
    outermost library function they are in returns."""

    def __init__(self, root, plan, n_files, workers, name_of, expect, files=None, visits=None):
        self.n_files, self.workers, self.name_of = n_files, workers, name_of
        self.main = _thread.get_ident()

        def expected(s):
            left = n_files - sum(t.state == 'done' for t in s.tasks.values())
            return max(1, min(workers, expect[0], left))
        self.sched = Scheduler(root, plan, files, expected=expected, visits=visits)
        self.expect = expect

    def __enter__(self):
        global ACTIVE
        from surfalize import Surface
        sched = self.sched
        self.cpu = os.cpu_count
        self.load = Surface.__dict__['load']
        original = self.load.__func__
        name_of, main = self.name_of, self.main

        def load(cls, path_or_buffer, *args, **kwargs):
            if _thread.get_ident() != main and not sched.closed:
                MONITOR.watch(sched.arrive(name_of(path_or_buffer)))
            return original(cls, path_or_buffer, *args, **kwargs)

        Surface.load = classmethod(load)
        os.cpu_count = lambda: self.workers
        ACTIVE = sched
        return sched

    def __exit__(self, *exc):
        global ACTIVE
        from surfalize import Surface
        os.cpu_count = self.cpu
        deadline = time.monotonic() + 20
        while any(t.state != 'done' for t in self.sched.tasks.values()) and time.monotonic() < deadline:
            time.sleep(0.001)
        self.sched.closed = True
        Surface.load = self.load
        ACTIVE = None
        if self.sched.short_arrivals:
            self.expect[0] = max(1, self.expect[0] - 1)


def explore(execute, bound, part=(0, 1)):
    """Enumerates all schedules with at most `bound` preemptions. execute(plan, counted) runs one and returns its
    scheduler. part = (i, n): the i-th of n parts, by the position of the first preemption; schedules without preemption
    are run by all parts and counted by the first."""
    index, parts = part
    stack = [({}, 0)]
    while stack:
        plan, cost = stack.pop()
        sched = execute(plan, cost > 0 or index == 0)
        start = max(plan) + 1 if plan else 0
        for i in range(start, len(sched.decisions)):
            kind, current, enabled, chosen = sched.decisions[i]
            if kind == 'line' and cost == 0 and i % parts != index:
                continue
            for alternative in enabled:
                if alternative == chosen:
                    continue
                c = cost + (kind == 'line')
                if c <= bound:
                    stack.append(({**plan, i: alternative}, c))
