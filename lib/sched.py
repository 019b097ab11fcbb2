"""Controlled scheduler: thread interleavings of the real code, one at a time.

Worker threads run one by one.  Every line (or bytecode) of a sleplet frame
that can reach mutable state is a decision point; a schedule is the set of
points at which the default choice (carry on) is overridden.  `explore`
enumerates all schedules up to a number of preemptions."""

import concurrent.futures
import sys
import threading
import time
import types

import vh

_SRC = str(vh.REPO / "src" / "sleplet")
_REAL = concurrent.futures.ThreadPoolExecutor
_IMMUTABLE = (int, float, complex, str, bytes, bool, type(None), frozenset)
STALL = 0.5


class Injected(Exception):
    """The exception thrown into a worker."""


def _is_immutable(x):
    if isinstance(x, _IMMUTABLE):
        return True
    if isinstance(x, tuple):
        return all(_is_immutable(y) for y in x)
    return type(x).__module__ in ("gmpy2", "numpy") and getattr(x, "ndim", 0) == 0


_GLOBALS = {}


def _reaches_globals(code, glob):
    """Does the code name a global that is a mutable object?"""
    if code not in _GLOBALS:
        seen = False
        for name in code.co_names:
            if name in glob:
                x = glob[name]
                if not isinstance(x, (types.ModuleType, types.FunctionType, type)) and not _is_immutable(x):
                    if type(x).__name__ != "Logger":
                        seen = True
        # a rebound global (even an immutable one) is shared state
        import dis

        seen |= any(i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL") for i in dis.get_instructions(code))
        _GLOBALS[code] = seen
    return _GLOBALS[code]


def visible(frame):
    code = frame.f_code
    if code.co_freevars or _reaches_globals(code, frame.f_globals):
        return True
    return not all(_is_immutable(x) for x in frame.f_locals.values())


class _Thread:
    def __init__(self, tid):
        self.tid = tid
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.done = False
        self.stalled = False


class Deadlock(Exception):
    pass


class Schedule:
    """One execution.  overrides: {decision index: thread id}."""

    def __init__(self, overrides=(), opcodes=False, fault=None, fault_exc=Injected, traced=True):
        self.overrides = dict(overrides)
        self.opcodes = opcodes
        self.traced = traced  # interrupt workers only where they block
        self.fault = fault
        self.fault_exc = fault_exc
        self.fault_hit = False
        self.fault_where = ""
        self.events = 0
        self.n = 0
        self.points = []  # (enabled others, chosen, current enabled)
        self.main = _Thread(0)
        self.threads = [self.main]
        self.cur = 0
        self.beat = 0
        self.lock = threading.Lock()
        self.deadlock = False
        self.local = threading.local()
        self.local.me = self.main
        self._stop = threading.Event()
        self._watch = threading.Thread(target=self._watchdog, daemon=True)
        self._watch.start()

    # ------------------------------------------------------------ scheduling
    def _enabled(self, t):
        return not t.done and not t.stalled and (t.pred is None or t.pred())

    def _watchdog(self):
        """A thread blocked outside our control hands its turn over."""
        last, since = -1, time.monotonic()
        while not self._stop.wait(0.05):
            if self.beat != last:
                last, since = self.beat, time.monotonic()
                continue
            if time.monotonic() - since < STALL:
                continue
            with self.lock:
                cur = self.threads[self.cur]
                others = [t for t in self.threads if t is not cur and self._enabled(t)]
                if others and not cur.stalled:
                    cur.stalled = True
                    self.cur = others[0].tid
                    self.beat += 1
                    others[0].sem.release()
            since = time.monotonic()

    def _decide(self, me, me_enabled):
        """Choose who runs next; called by the running thread."""
        i = self.n
        self.n += 1
        self.beat += 1
        others = [t.tid for t in self.threads if t is not me and self._enabled(t)]
        default = me.tid if me_enabled else (others[0] if others else None)
        choice = self.overrides.get(i, default)
        if choice != default and choice not in others:
            choice = default
        self.points.append((tuple(others), choice, me_enabled))
        return choice

    def _resume(self, me):
        """Wait for our turn."""
        me.sem.acquire()

    def point(self):
        me = self.local.me
        if me.stalled or self.cur != me.tid:
            with self.lock:
                me.stalled = False
                mine = self.cur == me.tid
            if not mine:
                self._resume(me)
        choice = self._decide(me, True)
        if choice != me.tid:
            self.cur = choice
            self.threads[choice].sem.release()
            self._resume(me)

    def block(self, pred):
        me = self.local.me
        while not pred():
            if me.stalled or self.cur != me.tid:
                with self.lock:
                    me.stalled = False
                    mine = self.cur == me.tid
                if not mine:
                    self._resume(me)
                    continue
            me.pred = pred
            choice = self._decide(me, pred())
            if choice is None:
                if any(t.stalled for t in self.threads):
                    time.sleep(0.01)
                    continue
                self.deadlock = True
                raise Deadlock
            if choice != me.tid:
                self.cur = choice
                self.threads[choice].sem.release()
                self._resume(me)
            me.pred = None
        me.pred = None

    def spawn(self, fn, pred=None):
        t = _Thread(len(self.threads))
        t.pred = pred
        self.threads.append(t)

        def body():
            self.local.me = t
            t.sem.acquire()
            t.pred = None
            if self.traced:
                sys.settrace(self._trace)
            try:
                fn()
            finally:
                sys.settrace(None)
                t.done = True
                if self.cur == t.tid:
                    choice = self._decide(t, False)
                    if choice is not None:
                        self.cur = choice
                        self.threads[choice].sem.release()

        t.real = threading.Thread(target=body, daemon=True)
        t.real.start()
        return t

    def finish(self):
        """Let everything left run to completion."""
        try:
            self.block(lambda: all(t.done for t in self.threads[1:]))
        finally:
            self._stop.set()
        for t in self.threads[1:]:
            t.real.join(5)

    # ------------------------------------------------------------ tracing
    def _event(self, frame):
        i = self.events
        self.events += 1
        if i == self.fault:
            self.fault_hit = True
            self.fault_where = f"{frame.f_code.co_name}:{frame.f_lineno}"
            raise self.fault_exc("injected failure")

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(_SRC):
            return None
        self._event(frame)
        if not visible(frame):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self._event(frame)
            self.point()
        return self._local


class _Future(concurrent.futures.Future):
    def __init__(self, sched):
        super().__init__()
        self._sched = sched

    def result(self, timeout=None):
        self._sched.block(self.done)
        return super().result(0)

    def exception(self, timeout=None):
        self._sched.block(self.done)
        return super().exception(0)


class Executor(concurrent.futures.Executor):
    """Stand-in for ThreadPoolExecutor under a Schedule."""

    current = None  # the Schedule in force

    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._s = Executor.current
        self._max = max_workers or 32
        self._init = (initializer, initargs)
        self._tasks = []
        self._closed = False

    def submit(self, fn, /, *args, **kwargs):
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = _Future(self._s)
        n = len(self._tasks)
        started = [False]

        def ready():
            if started[0]:
                return True
            active = sum(1 for g, st in self._tasks if st[0] and not g.done())
            return active < self._max and all(st[0] or g.done() for g, st in self._tasks[:n])

        def run():
            started[0] = True
            if not f.set_running_or_notify_cancel():
                return
            try:
                if self._init[0]:
                    self._init[0](*self._init[1])
                out = fn(*args, **kwargs)
            except BaseException as e:  # noqa: BLE001
                f.set_exception(e)
            else:
                f.set_result(out)

        self._tasks.append((f, started))
        self._s.spawn(run, ready)
        self._s.point()
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._closed = True
        if cancel_futures:
            for f, _ in self._tasks:
                f.cancel()
        if wait:
            self._s.block(lambda: all(f.done() for f, _ in self._tasks))
        else:
            self._s.point()


def _wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = list(fs)
    if return_when == concurrent.futures.ALL_COMPLETED:
        Executor.current.block(lambda: all(f.done() for f in fs))
    elif return_when == concurrent.futures.FIRST_COMPLETED:
        Executor.current.block(lambda: any(f.done() for f in fs))
    else:
        Executor.current.block(
            lambda: all(f.done() for f in fs)
            or any(f.done() and not f.cancelled() and f.exception(0) for f in fs)
        )
    done = {f for f in fs if f.done()}
    return concurrent.futures._base.DoneAndNotDoneFutures(done, set(fs) - done)


def _as_completed(fs, timeout=None):
    left = list(fs)
    while left:
        Executor.current.block(lambda: any(f.done() for f in left))
        for f in [f for f in left if f.done()]:
            left.remove(f)
            yield f


def install():
    """Replace the thread pool everywhere sleplet may see it."""
    swap = {
        _REAL: Executor,
        concurrent.futures.wait: _wait,
        concurrent.futures.as_completed: _as_completed,
    }
    for name, mod in list(sys.modules.items()):
        if name == "concurrent.futures" or name.startswith("sleplet"):
            for key, val in list(vars(mod).items()):
                try:
                    if val in swap:
                        setattr(mod, key, swap[val])
                except TypeError:
                    pass
    concurrent.futures.ThreadPoolExecutor = Executor


def run_one(body, overrides=(), **kw):
    """body() under one schedule; returns (schedule, outcome)."""
    s = Schedule(overrides, **kw)
    Executor.current = s
    try:
        try:
            out = ("ok", body())
        except Exception as e:  # noqa: BLE001
            out = ("raised", f"{type(e).__name__}: {e}"[:300])
        s.finish()
    finally:
        s._stop.set()
    return s, out


def children(s, overrides, used, bound):
    """Schedules one deviation later than `overrides`, as (overrides, used)."""
    last = max(overrides, default=-1)
    for j in range(last + 1, len(s.points)):
        others, choice, me_enabled = s.points[j]
        cost = used + (1 if me_enabled else 0)
        if cost > bound:
            continue
        for t in others:
            if t != choice:
                yield {**overrides, j: t}, cost


def explore(body, bound, visit, part=0, parts=1, **kw):
    """Depth-first over all schedules with at most `bound` preemptions.

    The first level of the tree is divided among `parts`.  visit(s, out,
    overrides) returns False to stop."""
    s, out = run_one(body, **kw)
    total = 1 if part == 0 else 0
    if part == 0 and visit(s, out, {}) is False:
        return total
    stack = [c for i, c in enumerate(children(s, {}, 0, bound)) if i % parts == part]
    stack.reverse()
    while stack:
        overrides, used = stack.pop()
        s, out = run_one(body, overrides, **kw)
        total += 1
        if visit(s, out, overrides) is False:
            return total
        if used < bound or any(not p[2] for p in s.points):
            stack.extend(children(s, overrides, used, bound))
    return total
