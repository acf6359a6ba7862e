"""Deterministic thread scheduler and line probe.

Simulated threads are real threads of which exactly one, the holder of the baton, runs.
It may hand the baton on at yield points: lines of the package under test, simulated
file calls and lock operations. Which thread runs next is decided by the schedule.
"""
import random
import sys
import threading
import types
import zlib
import _thread

TOOL = 4
_hooks = {}  # thread ident -> callable(code, line)
_installed = {"codes": None}
_allocate = _thread.allocate_lock


# ---------------------------------------------------------------------- line probe
def _codes(root):
    """All code objects of the package."""
    seen, stack = set(), []
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if mod is None or not f or not f.startswith(root):
            continue
        for obj in list(vars(mod).values()):
            stack.append(obj)
    done = set()
    while stack:
        obj = stack.pop()
        if id(obj) in done:
            continue
        done.add(id(obj))
        if isinstance(obj, types.CodeType):
            if obj.co_filename.startswith(root) and obj not in seen:
                seen.add(obj)
            stack.extend(c for c in obj.co_consts if isinstance(c, types.CodeType))
        elif isinstance(obj, types.FunctionType):
            stack.append(obj.__code__)
            w = getattr(obj, "__wrapped__", None)
            if w is not None:
                stack.append(w)
        elif isinstance(obj, (classmethod, staticmethod)):
            stack.append(obj.__func__)
        elif isinstance(obj, property):
            stack.extend(f for f in (obj.fget, obj.fset, obj.fdel) if f)
        elif isinstance(obj, type) and getattr(sys.modules.get(obj.__module__), "__file__", "") and \
                str(getattr(sys.modules.get(obj.__module__), "__file__", "")).startswith(root):
            stack.extend(vars(obj).values())
    return seen


def probe(root):
    """Call the hook of the running thread at every line of the package."""
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")
    get = _thread.get_ident

    def on_line(code, line):
        h = _hooks.get(get())
        if h is not None:
            h(code, line)

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    for code in _codes(root):
        mon.set_local_events(TOOL, code, mon.events.LINE)


class hooked:
    """Within the block, `hook(code, line)` is called at package lines of this thread."""

    def __init__(self, hook):
        self.hook = hook

    def __enter__(self):
        self.before = _hooks.get(_thread.get_ident())
        _hooks[_thread.get_ident()] = self.hook

    def __exit__(self, *exc):
        if self.before is None:
            _hooks.pop(_thread.get_ident(), None)
        else:
            _hooks[_thread.get_ident()] = self.before
        return False


# ---------------------------------------------------------------------- locks
class SimLock:
    """A lock that hands the baton on instead of blocking a simulated thread."""

    def __init__(self):
        self._lock = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = Scheduler.current()
        if s is None:
            return self._lock.acquire(blocking, timeout)
        s.step(("lock",))
        while not self._lock.acquire(False):
            if not blocking or timeout >= 0:
                # A timed wait may elapse at any time.
                s.step(("lock-timeout",))
                return self._lock.acquire(False)
            s.wait(self)
        return True

    def release(self):
        self._lock.release()
        s = Scheduler.current()
        if s is not None:
            s.wake(self)
            s.step(("unlock",))

    def locked(self):
        return self._lock.locked()

    def _at_fork_reinit(self):
        self._lock = _allocate()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._block.acquire(blocking, timeout)
        if r:
            self._owner, self._count = me, 1
        return r

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = self._count, self._owner
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


# ---------------------------------------------------------------------- scheduler
class Deadlock(BaseException):
    pass


class Abandoned(BaseException):
    """Ends a simulated thread from outside."""


class Task:
    def __init__(self, k, name, fn):
        self.k, self.name, self.fn = k, name, fn
        self.sem = _allocate()
        self.sem.acquire()
        self.ident = None
        self.done = False
        self.waiting = None
        self.result = None
        self.error = None
        self.kill = False


class Scheduler:
    """Runs tasks under a schedule.

    plan: {"kind": "random", "seed": s, "p": p}   a switch with probability p per step
          {"kind": "pct", "seed": s, "d": d, "n": n}  priorities with d change points
          {"kind": "places", "seed": s, "m": m}  a switch at every m-th or so line of the package, whenever it is reached
          {"kind": "fixed", "switches": [[step, task], ...]}
    """

    _active = None

    def __init__(self, plan, stats, max_steps=2_000_000):
        self.plan = plan
        self.stats = stats
        self.tasks = []
        self.by_ident = {}
        self.steps = 0
        self.max_steps = max_steps
        self.trace = []  # [step, task] switches made
        self.running = None
        self.failure = None
        self.done_lock = _allocate()
        self.done_lock.acquire()
        kind = plan["kind"]
        if kind in ("random", "pct", "places"):
            self.rng = random.Random(plan["seed"])
        if kind == "fixed":
            self.fixed = {}
            for s, t in plan["switches"]:
                self.fixed.setdefault(s, []).append(t)

    @classmethod
    def current(cls):
        s = cls._active
        if s is None or _thread.get_ident() not in s.by_ident or s.failure is not None:
            return None
        return s

    def spawn(self, name, fn):
        self.tasks.append(Task(len(self.tasks), name, fn))

    def run(self):
        """Run every task to its end. Returns the tasks."""
        if self.plan["kind"] == "pct":
            n, d = self.plan["n"], self.plan["d"]
            self.prio = [self.rng.random() + 1 for _ in self.tasks]
            self.change = sorted(self.rng.randrange(max(1, n)) for _ in range(d))
        Scheduler._active = self
        threads = []
        try:
            for t in self.tasks:
                threads.append(_thread.start_new_thread(self._main, (t,)))
            first = self._choose(None)
            self.trace.append([0, first.k])
            self.running = first
            first.sem.release()
            if not self.done_lock.acquire(timeout=600):
                raise RuntimeError("simulated threads stalled outside the simulator")
        finally:
            Scheduler._active = None
        return self.tasks

    def _main(self, task):
        task.ident = _thread.get_ident()
        task.sem.acquire()
        self.by_ident[task.ident] = task
        _hooks[task.ident] = self._line
        try:
            task.result = task.fn()
        except BaseException as e:  # judged by the caller
            task.error = e
        finally:
            _hooks.pop(task.ident, None)
            task.done = True
            self._finish(task)
            self.by_ident.pop(task.ident, None)

    def _line(self, code, line):
        self.step((code.co_name, line))

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.waiting is None]

    def _choose(self, me):
        ready = self._runnable()
        if not ready:
            return None
        kind = self.plan["kind"]
        if kind == "pct":
            return max(ready, key=lambda t: self.prio[t.k])
        if kind == "places" and len(ready) > 1 and me in ready:
            ready.remove(me)
        if kind in ("random", "places"):
            return ready[self.rng.randrange(len(ready))]
        for k in self.fixed.get(self.steps, []):
            for t in ready:
                if t.k == k:
                    return t
        return me if me in ready else ready[0]

    def step(self, label):
        """Possible switch of the calling task."""
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.failure is not None:
            return
        self.steps += 1
        self.stats.counts["sched_steps"] = self.stats.counts.get("sched_steps", 0) + 1
        if self.steps > self.max_steps:
            self._fail("livelock")
            raise Deadlock("no progress within the step budget")
        kind = self.plan["kind"]
        if kind == "random":
            if self.rng.random() >= self.plan["p"]:
                return
        elif kind == "pct":
            if self.change and self.steps >= self.change[0]:
                self.change.pop(0)
                self.prio[me.k] = min(self.prio) - 1
        elif kind == "places":
            if zlib.crc32(f"{self.plan['seed']} {label}".encode()) % self.plan["m"]:
                return
        elif self.steps not in self.fixed:
            return
        to = self._choose(me)
        if to is not me and to is not None:
            self._switch(me, to)
        if me.kill:
            raise Abandoned()

    def _switch(self, me, to):
        self.stats.counts["switches"] = self.stats.counts.get("switches", 0) + 1
        self.trace.append([self.steps, to.k])
        self.running = to
        to.sem.release()
        me.sem.acquire()
        if self.failure is not None:
            raise Deadlock(self.failure)

    def wait(self, lock):
        """The calling task cannot go on before `lock` is released."""
        me = self.by_ident[_thread.get_ident()]
        me.waiting = lock
        to = self._choose(me)
        if to is None:
            me.waiting = None
            self._fail("deadlock")
            raise Deadlock("deadlock")
        self._switch(me, to)

    def wake(self, lock):
        for t in self.tasks:
            if t.waiting is lock:
                t.waiting = None

    def _fail(self, why):
        self.failure = why
        for t in self.tasks:
            if not t.done and t is not self.by_ident.get(_thread.get_ident()):
                t.waiting = None
                t.sem.release()

    def _finish(self, me):
        if self.failure is not None:
            if all(t.done for t in self.tasks):
                try:
                    self.done_lock.release()
                except RuntimeError:
                    pass
            return
        self.steps += 1
        to = self._choose(None)
        if to is not None:
            self.trace.append([self.steps, to.k])
            self.running = to
            to.sem.release()
        elif all(t.done for t in self.tasks):
            self.done_lock.release()
        else:
            self._fail("deadlock")
