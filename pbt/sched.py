"""Deterministic thread scheduler for the tree under test.

load() imports modbus_tk with scheduler-aware versions of the classes of `threading` (they behave like the real ones
when no scheduler is running).  A Scheduler then runs a set of functions as threads of which exactly one executes at any
time; the running thread may be preempted at every source line (or every bytecode, `fine`) of modbus_tk and at every
lock, event or thread operation.  The schedule is data:

    [[gap, pick], ...]   after `gap` switch points, switch to the pick-th of the other runnable threads

Afterwards (and between two entries) a thread runs until it blocks or ends; then the next runnable thread goes on.
A state where nobody can run is a deadlock.  Nothing depends on time.
"""
import gc
import os
import sys
import threading as _t
import time
import types

from pbt import engine

_RThread, _RLockR, _RLock, _REvent, _RCond = _t.Thread, _t.RLock, _t.Lock, _t.Event, _t.Condition
_get_ident = _t.get_ident

ACTIVE = None           # the running Scheduler
_LOCKS = []             # every lock created: released when a run was aborted


class Abort(BaseException):
    """raised in the managed threads when a run is given up"""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class _M(object):
    """a managed thread"""

    def __init__(self, name, fct):
        self.name, self.fct = name, fct
        self.sem = _t.Semaphore(0)
        self.blocked = None         # predicate: None = runnable
        self.why = ""
        self.done = False
        self.error = None
        self.library = False
        self.ident = None


class Scheduler(object):
    def __init__(self, schedule, fine=False, max_steps=60000, focus=None):
        # focus: only the source lines of these files are switch points
        self.focus = focus
        self.schedule = [tuple(x) for x in schedule]
        self.fine = fine
        self.max_steps = max_steps
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.steps = 0
        self.switches = 0           # preemptions that took place
        self.pos = 0
        self.left = self.schedule[0][0] if self.schedule else -1
        self.failure = None
        self.main = _t.Semaphore(0)
        self.root = os.path.realpath(os.path.join(engine.REPO, "modbus_tk")) + os.sep
        self.files = {}
        self.clock = 0              # number of events, for call and return times

    # -- used by the tests ------------------------------------------------------------------
    def tick(self):
        self.clock += 1
        return self.clock

    def spawn(self, fct, name=None):
        m = _M(name or "t%d" % len(self.threads), fct)
        self.threads.append(m)
        started = _t.Semaphore(0)
        th = _RThread(target=self._body, args=(m, started), daemon=True)
        m.thread = th
        th.start()
        started.acquire()
        return m

    def run(self):
        """run all the threads; raises Deadlock/StepLimit, or the error of a thread"""
        global ACTIVE
        was = gc.isenabled()
        gc.disable()
        ACTIVE = self
        try:
            if self.threads:
                self.current = self.threads[0]
                self.current.sem.release()
                self.main.acquire()
        finally:
            if self.failure is not None:
                for m in self.threads:
                    m.sem.release()
                    m.sem.release()
            for m in self.threads:
                m.thread.join(20)
            ACTIVE = None
            if was:
                gc.enable()
            for lock in _LOCKS:
                lock._reset()
        if self.failure is not None:
            raise self.failure
        for m in self.threads:
            # a thread started by the tested code ends silently, like every thread
            if m.error is not None and (not m.library or isinstance(m.error, engine.Violation)):
                raise m.error

    # -- inside ------------------------------------------------------------------------------
    def _body(self, m, started):
        m.ident = _get_ident()
        self.by_ident[m.ident] = m
        started.release()
        m.sem.acquire()
        try:
            if self.failure is None:
                sys.settrace(self._trace)
                try:
                    m.fct()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:      # noqa
            m.error = e
        m.done = True
        self.by_ident.pop(m.ident, None)
        if self.failure is None:
            self._leave()

    def _leave(self):
        """the current thread has ended: another one goes on, or the run is over"""
        nxt = self._runnable()
        if nxt:
            self.current = nxt[0]
            nxt[0].sem.release()
        elif all(m.done for m in self.threads):
            self.main.release()
        else:
            self._fail(Deadlock(self._describe()))
            self.main.release()

    def _describe(self):
        return "deadlock: " + "; ".join("%s waits for %s" % (m.name, m.why) for m in self.threads if not m.done)

    def _fail(self, exc):
        if self.failure is None:
            self.failure = exc

    def _runnable(self):
        """runnable threads, the ones after the current one first"""
        i = self.threads.index(self.current)
        order = self.threads[i + 1:] + self.threads[:i + 1]
        out = []
        for m in order:
            if m.done:
                continue
            if m.blocked is not None and m.blocked():
                continue
            out.append(m)
        return out

    def me(self):
        return self.by_ident.get(_get_ident())

    def _trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        ok = self.files.get(name)
        if ok is None:
            ok = self.files[name] = os.path.realpath(name).startswith(self.root) and (
                self.focus is None or os.path.basename(name) in self.focus)
        if not ok:
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if not self.fine:
                self.point()
            elif self.failure is None:
                # raising from a trace function while opcodes are traced can crash the interpreter (3.12): a thread of an
                # aborted run goes on to its next operation on a lock
                try:
                    self.point()
                except Abort:
                    sys.settrace(None)
        return self._local

    def point(self):
        """a switch point of the current thread"""
        if self.failure is not None:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail(StepLimit("no end after %d steps; %s" % (self.steps, [m.name for m in self.threads if not m.done])))
            self.main.release()
            raise Abort()
        if self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        pick = self.schedule[self.pos][1]
        self.pos += 1
        self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else -1
        others = [m for m in self._runnable() if m is not self.current]
        if others:
            self.switches += 1
            self._switch(others[pick % len(others)])

    def _switch(self, to):
        m = self.current
        self.current = to
        to.sem.release()
        m.sem.acquire()
        if self.failure is not None:
            raise Abort()

    def idle(self):
        """a bounded wait of the current thread: the other threads go on first"""
        self.point()
        nxt = [x for x in self._runnable() if x is not self.current]
        if nxt:
            self._switch(nxt[0])

    def block(self, pred, why):
        """the current thread waits while pred() is true"""
        m = self.current
        self.point()
        while pred():
            m.blocked, m.why = pred, why
            nxt = [x for x in self._runnable() if x is not m]
            if not nxt:
                self._fail(Deadlock(self._describe()))
                self.main.release()
                raise Abort()
            self._switch(nxt[0])
            m.blocked = None
        m.blocked = None


def _sched():
    """the scheduler when the calling thread is one of its threads"""
    s = ACTIVE
    if s is not None and _get_ident() in s.by_ident:
        return s
    return None


class RLock(object):
    reentrant = True

    def __init__(self):
        self.owner, self.count = None, 0
        _LOCKS.append(self)
        if len(_LOCKS) > 4000:
            del _LOCKS[50:2000]

    def _reset(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = _sched()
        me = _get_ident()
        if s is not None:
            s.point()
            if self.owner is not None and not (self.reentrant and self.owner == me):
                if timeout >= 0:
                    s.idle()
                if self.owner is None:
                    pass
                elif not blocking or timeout >= 0:
                    return False
                else:
                    s.block(lambda: self.owner is not None, "a lock held by %s" % (
                        s.by_ident[self.owner].name if self.owner in s.by_ident else self.owner))
        elif self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            raise RuntimeError("lock is held and nobody can release it")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.reentrant and self.owner != _get_ident() or self.owner is None:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        s = _sched()
        if s is not None and s.failure is None:
            s.point()

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _get_ident()


class Lock(RLock):
    reentrant = False


class Condition(object):
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiting = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        s = _sched()
        ticket = [True]
        n, self.lock.count, self.lock.owner = self.lock.count, 0, None
        if timeout is None:
            self.waiting.append(ticket)
            if s is None:
                raise RuntimeError("nobody can notify")
            s.block(lambda: ticket[0], "a condition")
        elif s is not None:
            s.idle()
        self.lock.acquire()
        self.lock.count = n
        return timeout is None

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout) and timeout is not None:
                return predicate()
        return True

    def notify(self, n=1):
        for ticket in self.waiting[:n]:
            ticket[0] = False
        del self.waiting[:n]

    def notify_all(self):
        self.notify(len(self.waiting))

    notifyAll = notify_all


class Event(object):
    def __init__(self):
        self.flag = False

    def is_set(self):
        s = _sched()
        if s is not None:
            s.point()
        return self.flag

    isSet = is_set

    def set(self):
        s = _sched()
        if s is not None:
            s.point()
        self.flag = True

    def clear(self):
        s = _sched()
        if s is not None:
            s.point()
        self.flag = False

    def wait(self, timeout=None):
        s = _sched()
        if s is not None:
            if timeout is None:
                s.block(lambda: not self.flag, "an event")
            elif not self.flag:
                s.idle()
        elif timeout is None and not self.flag:
            raise RuntimeError("nobody can set the event")
        return self.flag


class Semaphore(object):
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        s = _sched()
        if s is not None:
            s.point()
        if self.value <= 0:
            if not blocking or timeout is not None or s is None:
                return False
            s.block(lambda: self.value <= 0, "a semaphore")
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Thread(_RThread):
    """a real thread outside of a run, a managed one inside"""
    _m = None
    _polls = 0

    def start(self):
        s = _sched()
        if s is None:
            return _RThread.start(self)
        if self._m is not None:
            raise RuntimeError("threads can only be started once")
        self._m = s.spawn(self.run, self.name)
        self._m.library = True
        s.point()

    def is_alive(self):
        s = _sched()
        if s is not None:
            s.point()
        if self._m is not None:
            if s is not None and not self._m.done:
                self._polls += 1
                if self._polls > 3:     # a loop which waits for the end
                    s.idle()
            return not self._m.done
        return _RThread.is_alive(self)

    def join(self, timeout=None):
        s = _sched()
        if s is None or (self._m is None and _RThread.is_alive(self)):
            if self._m is not None:
                return None
            return _RThread.join(self, timeout)
        if self._m is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._m is s.current:
            raise RuntimeError("cannot join current thread")
        if timeout is None:
            s.block(lambda: not self._m.done, "the end of %s" % self._m.name)
        elif not self._m.done:
            s.idle()
        return None


def _sleep(duration):
    s = _sched()
    if s is not None:
        s.idle()
    else:
        time.sleep(duration)


SHIM = {"Lock": Lock, "RLock": RLock, "Event": Event, "Thread": Thread, "Condition": Condition,
        "Semaphore": Semaphore, "BoundedSemaphore": Semaphore}
_loaded = []


def load():
    """import the tree under test with the classes above; returns the module pbt.real"""
    if _loaded:
        return _loaded[0]
    import importlib
    import logging
    import socket                # noqa: everything modbus_tk needs, imported with the real classes
    import queue                 # noqa
    import select                # noqa
    engine_mod = [m for m in sys.modules if m.split(".")[0] == "modbus_tk"]
    if engine_mod:
        raise RuntimeError("modbus_tk was imported before the scheduler: %r" % engine_mod)
    saved = {k: getattr(_t, k) for k in SHIM}
    for k, v in SHIM.items():
        setattr(_t, k, v)
    try:
        mt = engine.use_repo()
        for name in ("hooks", "utils", "modbus", "modbus_tcp", "modbus_rtu", "modbus_rtu_over_tcp"):
            importlib.import_module("modbus_tk." + name)
    finally:
        for k, v in saved.items():
            setattr(_t, k, v)
    # logging created its handler lock while the classes were replaced
    for h in logging.getLogger("modbus_tk").handlers:
        h.createLock()
    shim = types.ModuleType("threading")
    shim.__dict__.update(_t.__dict__)
    shim.__dict__.update(SHIM)
    clock = types.ModuleType("time")
    clock.__dict__.update(time.__dict__)
    clock.sleep = _sleep
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "modbus_tk":
            if getattr(mod, "threading", None) is _t:
                mod.threading = shim
            if getattr(mod, "time", None) is time:
                mod.time = clock
    from pbt import real
    _loaded.append(real)
    return real


def schedules(max_preempt=6, max_gap=120):
    """strategy of schedules"""
    from hypothesis import strategies as st
    gap = st.one_of(st.integers(0, 12), st.integers(0, max_gap // 3), st.integers(0, max_gap))
    return st.lists(st.tuples(gap, st.integers(0, 3)).map(list), max_size=max_preempt)


# -- linearizability --------------------------------------------------------------------------
def linearizable(history, state, step, final):
    """history: [(call, ret, op, result)]; step(state, op) -> (result matcher, new state); final(state) -> bool

    Is there an order, compatible with the real time order, in which the sequential model gives every result and an
    accepted final state?  step returns (accepts(result) -> bool, new state).
    """
    n = len(history)
    seen = set()

    def rec(done, st, key):
        if len(done) == n:
            return final(st)
        k = (frozenset(done), key(st))
        if k in seen:
            return False
        seen.add(k)
        rest = [i for i in range(n) if i not in done]
        first_ret = min(history[i][1] for i in rest)
        for i in rest:
            if history[i][0] > first_ret:
                continue
            accepts, nxt = step(st, history[i][2])
            if accepts(history[i][3]) and rec(done | {i}, nxt, key):
                return True
        return False

    return rec(frozenset(), state, lambda s: s.key())
