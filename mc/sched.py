"""A controlled scheduler for real Python threads.

install() replaces the primitives of threading/queue/time before the code under
test is imported.  A scenario body runs inside run(ch, main): main and every
thread the code under test creates become *tasks* - real OS threads of which
exactly one runs at a time.  At every scheduling point the next task is chosen
through the explorer, so that all interleavings (up to a bound on preemptions)
are enumerated.  Scheduling points are: lock acquisitions, sleeps, thread
start/join and - through sys.monitoring - every attribute/subscript access and
call inside the modules under test selected by the scenario.

Time is virtual: it advances only when no task can run otherwise, or - at the
cost of one deviation - early, which stands for the other tasks being slow.
"""
import _thread
import dis
import os
import re
import sys
import threading
import time

from mc.explore import Prune, Violation

_raw_lock = _thread.allocate_lock
_start_thread = _thread.start_new_thread
_ident = _thread.get_ident
_real_time = time.time
_real_monotonic = time.monotonic
_real_sleep = time.sleep
_RealThread = threading.Thread

EPOCH = 1000.0
CURRENT = None  # the active scheduler
_EXEC = 0  # number of the active execution


class Abort(BaseException):
    """Unwinds the tasks of an execution that is over."""


IO = ("recv", "select", "loop")  # waits for sockets
PORT = re.compile(r"(127\.0\.0\.1):\d+")  # they differ from run to run


class Task:
    def __init__(self, sched, num, name, func):
        self.sched = sched
        self.num = num
        self.name = name
        self.func = func
        self.baton = _raw_lock()
        self.baton.acquire()
        self.done = False
        self.started = True
        self.blocked = None  # predicate which must hold to continue
        self.deadline = None  # virtual time at which a wait times out
        self.quiet = 0
        self.look_step = -1
        self.looks = 0
        self.where = "start"
        self.error = None
        self.ident = None
        self.thread = None


class Sched:
    """One controlled execution."""

    def __init__(self, ch, horizon=20000, timers=True):
        self.ch = ch
        self.tasks = []
        self.by_ident = {}
        self.now = EPOCH
        self.current = None
        self.aborting = False
        self.failure = None  # ("deadlock"|"horizon", text)
        self.horizon = horizon
        self.timers = timers
        self.steps = 0
        self.finished = _raw_lock()
        self.finished.acquire()
        self.preempt = True
        self.order_cost = 0
        self.exec = _EXEC

    # ------------------------------------------------------------- tasks
    def add(self, name, func):
        task = Task(self, len(self.tasks), name, func)
        self.tasks.append(task)
        ready = _raw_lock()
        ready.acquire()

        def boot():
            task.ident = _ident()
            self.by_ident[task.ident] = task
            if task.thread is not None:
                threading._active[task.ident] = task.thread
            ready.release()
            task.baton.acquire()
            try:
                if not self.aborting:
                    task.func()
            except Abort:
                pass
            except (Violation, Prune) as exc:
                if self.failure is None:
                    self.failure = ("verdict", exc)
                self.aborting = True
            except BaseException as exc:  # pylint: disable=broad-except
                task.error = exc
            finally:
                threading._active.pop(task.ident, None)
                task.done = True
                self._leave(task)

        task.boot = boot
        task.ready = ready
        return task

    def launch(self, task):
        _start_thread(task.boot, ())
        task.ready.acquire()

    def _leave(self, task):
        """The task ended: pass the baton on for good."""
        if self.aborting:
            self._abort_next()
            return
        try:
            nxt = self._pick(task)
        except BaseException as exc:  # replay divergence, ...
            self.failure = ("internal", exc)
            self.aborting = True
            self._abort_next()
            return
        if nxt is None:
            if all(t.done for t in self.tasks):
                self.finished.release()
            else:
                self._fail("deadlock")
                self._abort_next()
            return
        self.current = nxt
        nxt.baton.release()

    def _abort_next(self):
        """Unwind remaining tasks one after another."""
        for task in self.tasks:
            if not task.done and task.ident is not None:
                self.current = task
                task.baton.release()
                return
        self.finished.release()

    def _fail(self, kind):
        if self.failure is None:
            lines = [
                f"{t.name}@{t.where}" + ("" if t.blocked is None else "(waits)")
                for t in self.tasks
                if not t.done
            ]
            self.failure = (kind, ", ".join(lines))
        self.aborting = True

    # ------------------------------------------------------- choosing
    def _enabled(self, task):
        if task.done or task.ident is None:
            return False
        if task.blocked is not None:
            if task.blocked():
                return True
            return task.deadline is not None and task.deadline <= self.now
        return True

    def _pick(self, cur):
        """Choose the next task; None when nothing can run."""
        cur_on = self._enabled(cur)
        if cur_on and not self.preempt:
            return cur
        ready = [t for t in self.tasks if t is not cur and self._enabled(t)]
        if cur_on:
            ready.insert(0, cur)
        if not ready and any(
            t.blocked is not None and t.where in IO and not t.done
            for t in self.tasks
        ):
            # before time passes, the kernel gets to deliver what was sent
            os.sched_yield()
            ready = [t for t in self.tasks if self._enabled(t)]
        sleepers = [
            t
            for t in self.tasks
            if not t.done
            and t.ident is not None
            and t.deadline is not None
            and not self._enabled(t)
        ]
        early = []
        if sleepers:
            first = min(t.deadline for t in sleepers)
            early = [t for t in sleepers if t.deadline <= first]
        if not ready:
            if not early:
                return None
            self.now = early[0].deadline
            options = early
            costs = tuple([0] + [self.order_cost] * (len(early) - 1))
        else:
            options = list(ready)
            costs = [0] + [1 if cur_on else self.order_cost] * (
                len(ready) - 1
            )
            if self.timers and self.preempt:
                options += early
                costs += [1] * len(early)
            costs = tuple(costs)
        if len(options) > 1:
            self.ch.states.add(
                hash(
                    tuple(
                        [(t.where, t.done, t.blocked is None) for t in self.tasks]
                    )
                )
                & 0xFFFFFFFFFFFFFFFF
            )
            idx = self.ch.choose(len(options), costs)
        else:
            idx = 0
        nxt = options[idx]
        if nxt in early and not self._enabled(nxt):
            self.now = max(self.now, nxt.deadline)
        if self.ch.keep_log and nxt is not cur:
            self.ch.log.append(PORT.sub(r"\1:*", (
                f"t={self.now - EPOCH:.3f} {cur.name}@{cur.where} => "
                f"{nxt.name}@{nxt.where}"
            )))
        return nxt

    def switch(self, task):
        """Offer to run another task; return when task is chosen again."""
        if self.aborting:
            raise Abort()
        self.steps += 1
        if self.steps > self.horizon:
            self._fail("horizon")
            raise Abort()
        try:
            nxt = self._pick(task)
        except BaseException as exc:  # replay divergence, ...
            self.failure = ("internal", exc)
            self.aborting = True
            raise Abort() from None
        if nxt is None:
            self._fail("deadlock")
            raise Abort()
        if nxt is not task:
            self.current = nxt
            nxt.baton.release()
            task.baton.acquire()
            if self.aborting:
                raise Abort()

    def point(self, where):
        task = self.by_ident.get(_ident())
        if task is None or task.quiet or self.aborting:
            if self.aborting and task is not None and not task.quiet:
                raise Abort()
            return
        task.where = where
        self.ch.steps += 1
        if not self.preempt:
            return
        self.switch(task)

    def wait(self, pred, where, timeout=None):
        """Block until pred() (True) or the virtual timeout (False)."""
        task = self.by_ident[_ident()]
        task.where = where
        if self.aborting:
            raise Abort()
        task.blocked = pred
        task.deadline = None if timeout is None else self.now + timeout
        try:
            while True:
                self.switch(task)
                if pred():
                    return True
                if task.deadline is not None and task.deadline <= self.now:
                    return False
        finally:
            task.blocked = None
            task.deadline = None


def me():
    """The current task, when the caller is one."""
    if CURRENT is None:
        return None
    return CURRENT.by_ident.get(_ident())


# ------------------------------------------------------------ primitives


class CtrlLock:
    """threading.Lock under control (and free of charge elsewhere)."""

    _points = True

    def __init__(self):
        self._owner = None
        self._exec = _EXEC

    def _fresh(self):
        if self._exec != _EXEC:
            self._exec = _EXEC
            self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        self._fresh()
        task = me()
        if task is None:
            if self._owner is not None:
                if not blocking:
                    return False
                raise Violation("a lock is held for ever")
            self._owner = "outside"
            return True
        sched = CURRENT
        if sched.aborting:
            return True
        if self._points:
            sched.point("lock")
        if self._owner is None:
            self._owner = task
            return True
        if not blocking:
            return False
        got = sched.wait(
            lambda: self._owner is None,
            "lock-wait",
            None if timeout is None or timeout < 0 else timeout,
        )
        if got:
            self._owner = task
        return got

    def release(self):
        self._fresh()
        if CURRENT is not None and CURRENT.aborting:
            self._owner = None
            return
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None

    def locked(self):
        self._fresh()
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None

    # used by threading.Condition
    def _is_owned(self):
        self._fresh()
        return self._owner is not None

    def _release_save(self):
        self.release()

    def _acquire_restore(self, _):
        self.acquire()


class WaiterLock(CtrlLock):
    """The private lock of a condition waiter: no preemption point."""

    _points = False


class CtrlRLock:
    """threading.RLock under control."""

    def __init__(self):
        self._owner = None
        self._count = 0
        self._exec = _EXEC

    def _fresh(self):
        if self._exec != _EXEC:
            self._exec = _EXEC
            self._owner = None
            self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        self._fresh()
        task = me()
        key = task if task is not None else ("outside", _ident())
        if self._owner == key:
            self._count += 1
            return True
        if task is None:
            if self._owner is not None:
                if not blocking:
                    return False
                raise Violation("a lock is held for ever")
            self._owner, self._count = key, 1
            return True
        sched = CURRENT
        if sched.aborting:
            return True
        sched.point("rlock")
        if self._owner is not None:
            if not blocking:
                return False
            got = sched.wait(
                lambda: self._owner is None,
                "rlock-wait",
                None if timeout is None or timeout < 0 else timeout,
            )
            if not got:
                return False
        self._owner, self._count = key, 1
        return True

    __enter__ = acquire

    def release(self):
        self._fresh()
        if CURRENT is not None and CURRENT.aborting:
            self._owner, self._count = None, 0
            return
        task = me()
        key = task if task is not None else ("outside", _ident())
        if self._owner != key:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def __exit__(self, *_):
        self.release()

    # used by threading.Condition
    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        task = me()
        key = task if task is not None else ("outside", _ident())
        return self._owner == key


class CtrlThread:
    """threading.Thread whose schedule is chosen by the explorer."""

    _num = 0

    def __init__(
        self,
        group=None,
        target=None,
        name=None,
        args=(),
        kwargs=None,
        *,
        daemon=None,
    ):
        del group
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        CtrlThread._num += 1
        self.name = name or f"Thread-{CtrlThread._num}"
        self.daemon = bool(daemon)
        self._task = None
        self._real = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None or self._real is not None:
            raise RuntimeError("threads can only be started once")
        if me() is None:
            self._real = _RealThread(target=self.run, daemon=True)
            self._real.start()
            return
        sched = CURRENT
        task = sched.add(f"{self.name}", self.run)
        task.thread = self
        self._task = task
        sched.launch(task)
        sched.point("thread-start")

    def join(self, timeout=None):
        if self._real is not None:
            self._real.join(timeout)
            return
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        task = me()
        if task is self._task:
            raise RuntimeError("cannot join current thread")
        if task is None:
            if not self._task.done:
                raise Violation("joined a thread that never ends")
            return
        if CURRENT.aborting:
            raise Abort()
        if not self._task.done:
            CURRENT.wait(lambda: self._task.done, "join", timeout)

    def is_alive(self):
        if self._real is not None:
            return self._real.is_alive()
        return self._task is not None and not self._task.done

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, val):
        self.daemon = val

    def getName(self):
        return self.name

    def setName(self, val):
        self.name = val

    @property
    def ident(self):
        if self._real is not None:
            return self._real.ident
        return None if self._task is None else self._task.ident

    native_id = ident


SPIN = 1000


def _look(task):
    """The virtual time; who does nothing but look at it lets others run."""
    if task.look_step != CURRENT.steps:
        task.look_step, task.looks = CURRENT.steps, 0
    task.looks += 1
    if task.looks > SPIN:
        task.looks = 0
        CURRENT.wait(lambda: False, "spin", 0.001)
    return CURRENT.now


def v_time():
    task = me()
    return _look(task) if task is not None else _real_time()


def v_monotonic():
    task = me()
    return _look(task) if task is not None else _real_monotonic()


def v_sleep(amount):
    task = me()
    if task is None:
        _real_sleep(amount)
        return
    if amount < 0:
        raise ValueError("sleep length must be non-negative")
    CURRENT.wait(lambda: False, "sleep", amount)


_INSTALLED = False


def install():
    """Replace the primitives; to be called before importing vtelem."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    assert not any(m == "vtelem" or m.startswith("vtelem.") for m in sys.modules)
    # Import what vtelem imports, while everything is still original.
    import asyncio  # noqa
    import http.server  # noqa
    import logging  # noqa
    import queue
    import socketserver  # noqa

    for name in ("websockets", "cerberus", "requests", "vcorelib.io",
                 "vcorelib.dict", "psutil"):
        try:
            __import__(name)
        except ImportError:
            pass
    threading.Lock = CtrlLock
    threading._allocate_lock = WaiterLock
    threading.RLock = CtrlRLock
    threading._PyRLock = CtrlRLock
    threading._CRLock = CtrlRLock
    threading.Thread = CtrlThread
    threading._time = v_monotonic
    queue.time = v_monotonic
    # SimpleQueue is implemented in C; vtelem does not use it.
    time.time = v_time
    time.monotonic = v_monotonic
    time.perf_counter = v_monotonic
    time.sleep = v_sleep


# ------------------------------------------------- instruction points

TOOL = 3
_CODES = {}  # code -> set of interesting offsets
_WATCHED = set()
_WATCHING = None

FINE = {
    "LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR",
    "DELETE_SUBSCR", "CONTAINS_OP", "FOR_ITER", "CALL", "CALL_FUNCTION_EX",
    "LOAD_SUPER_ATTR",
}
COARSE = {
    "STORE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR",
    "CONTAINS_OP", "FOR_ITER",
}


def _offsets(code, ops):
    out = set()
    for ins in dis.get_instructions(code):
        if ins.opname in ops:
            if ins.opname == "LOAD_ATTR" and ins.arg is not None and ins.arg & 1:
                continue  # method lookup; the call itself is a point
            out.add(ins.offset)
    return out


def _on_instruction(code, offset):
    offs = _CODES.get(code)
    if offs is None or offset not in offs:
        return sys.monitoring.DISABLE
    if CURRENT is not None and not CURRENT.aborting:
        CURRENT.point(f"{code.co_qualname}+{offset}")
    return None


def _code_objects(mod):
    """All code objects defined in a module's file."""
    seen = set()
    out = []

    def walk_code(code):
        if code in seen or code.co_filename != mod.__file__:
            return
        seen.add(code)
        out.append(code)
        for const in code.co_consts:
            if hasattr(const, "co_code"):
                walk_code(const)

    def walk(obj, depth=0):
        if id(obj) in seen or depth > 4:
            return
        seen.add(id(obj))
        obj = getattr(obj, "__wrapped__", obj)
        if isinstance(obj, property):
            for part in (obj.fget, obj.fset, obj.fdel):
                if part is not None:
                    walk(part, depth + 1)
        elif isinstance(obj, (staticmethod, classmethod)):
            walk(obj.__func__, depth + 1)
        elif isinstance(obj, type):
            if obj.__module__ == mod.__name__:
                for val in list(vars(obj).values()):
                    walk(val, depth + 1)
        elif hasattr(obj, "__code__"):
            walk_code(obj.__code__)
        elif hasattr(obj, "func") and callable(getattr(obj, "func")):
            walk(obj.func, depth + 1)

    for val in list(vars(mod).values()):
        walk(val)
    return out


def watch(modules, ops=None):
    """Make the interesting instructions of these modules points.

    modules: names (all with the same ops), or name -> ops."""
    global _WATCHING
    if not isinstance(modules, dict):
        modules = {name: ops or FINE for name in modules}
    key = tuple((n, frozenset(o)) for n, o in modules.items())
    if key == _WATCHING:
        return
    _WATCHING = key
    import importlib

    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "mc")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
    for code in _WATCHED:
        mon.set_local_events(TOOL, code, 0)
    _WATCHED.clear()
    _CODES.clear()
    for name, kinds in modules.items():
        mod = importlib.import_module(name)
        for code in _code_objects(mod):
            offs = _offsets(code, kinds)
            if not offs:
                continue
            _CODES[code] = offs
            _WATCHED.add(code)
            mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)
    mon.restart_events()


# --------------------------------------------------------------- running


class quiet:
    """No scheduling points inside (set-up and oracle code)."""

    def __enter__(self):
        self.task = me()
        if self.task is not None:
            self.task.quiet += 1

    def __exit__(self, *_):
        if self.task is not None:
            self.task.quiet -= 1


def run(ch, main, horizon=20000, timers=True, allow=(), preempt=True,
        order_cost=0):
    """Run main() as the first task under control; returns the scheduler.

    Raises Violation on deadlock or when the horizon is passed (unless the kind
    is listed in allow), and re-raises what main raised.  Exceptions of other
    tasks are left in sched.tasks[i].error for the caller to judge."""
    global CURRENT, _EXEC
    _EXEC += 1
    sched = Sched(ch, horizon, timers)
    sched.exec = _EXEC
    sched.preempt = preempt
    # the cost of not running the first of several when the current one waits
    sched.order_cost = order_cost
    CtrlThread._num = 0
    CURRENT = sched
    task = sched.add("main", main)
    task.thread = CtrlThread(name="main")
    task.thread._task = task
    CtrlThread._num = 0
    try:
        sched.launch(task)
        sched.current = task
        task.baton.release()
        sched.finished.acquire()
    finally:
        CURRENT = None
    if sched.failure is not None:
        kind, text = sched.failure
        if kind in ("internal", "verdict"):
            raise text
        # what main raised comes before what followed from it
        if task.error is not None:
            raise task.error
        if kind not in allow:
            raise Violation(f"{kind}: {text}")
    if task.error is not None:
        raise task.error
    return sched


def spawn(name, func):
    """Start a harness thread (a task) from inside run()."""
    thread = CtrlThread(target=func, name=name)
    with quiet():
        thread.start()
    return thread


def join_all(threads):
    """Wait for harness threads."""
    for thread in threads:
        thread.join()


def errors(sched_or_none=None):
    """Uncaught exceptions of tasks other than main."""
    sched = sched_or_none or CURRENT
    return [
        (t.name, t.error)
        for t in sched.tasks[1:]
        if t.error is not None
    ]
