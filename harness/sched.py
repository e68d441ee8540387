"""A deterministic scheduler for the code under test.

Code run inside Scheduler.run() sees threading.Lock, RLock, Condition,
Event, Thread, time.time and time.sleep replaced by versions that hand
control to the scheduler: one thread runs at a time, the next one is
chosen at each synchronisation point (and, with trace_files, at any line
of the given files), and time is virtual: it advances only when every
thread is blocked, straight to the earliest deadline.

Outside run(), and in unmanaged threads, the originals are used.
install() must be called before the modules under test are imported.
"""
import sys
import threading
import time

_real = {n: getattr(threading, n)
         for n in ("Lock", "RLock", "Condition", "Event", "Thread")}
_get_ident = threading.get_ident
_real_time = time.time
_real_sleep = time.sleep
_real_monotonic = time.monotonic
_RealCondition = threading.Condition

EPS = 0.001

_active = None          # the scheduler that is running, if any
_by_ident = {}


class SchedAbort(BaseException):
    pass


_bypass = False
_building = None


def _managed():
    return not _bypass and (_building is not None or _me() is not None)


def _me():
    """The managed thread we are in, or None"""
    if _active is None:
        return None
    return _by_ident.get(_get_ident())


class MThread(object):

    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.gate = _real["Lock"]()
        self.gate.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.abort = False
        self.error = None
        self.daemon = False
        self.start_ok = False

    def _main(self):
        _by_ident[_get_ident()] = self
        self.gate.acquire()
        try:
            if self.abort:
                return
            if self.sched.trace_files:
                sys.settrace(self._trace)
            self.fn()
        except SchedAbort:
            pass
        except BaseException as e:           # noqa
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            _by_ident.pop(_get_ident(), None)
            self.sched._back.release()

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.endswith(self.sched.trace_files):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.sched.line_p and \
                self.sched.rng.random() < self.sched.line_p:
            self.yield_()
        return self._local

    def yield_(self):
        """Gives up the processor, staying runnable"""
        self.block(None, None)

    def block(self, pred, deadline):
        """Waits until pred() or the (virtual) deadline"""
        self.pred = pred
        self.deadline = deadline
        self.sched._back.release()
        self.gate.acquire()
        self.pred = None
        self.deadline = None
        if self.abort:
            raise SchedAbort


class Scheduler(object):

    def __init__(self, rng, start=1000000000.0, trace_files=(), line_p=0.0,
                 max_steps=20000, choose=None):
        self.rng = rng
        self.now = start
        self.threads = []
        self._back = _real["Lock"]()
        self._back.acquire()
        self.trace_files = tuple(trace_files)
        self.line_p = line_p
        self.max_steps = max_steps
        self.on_stuck = None
        self.on_deadlock = None
        self.choose = choose
        self.steps = 0
        self.status = None

    def spawn(self, name, fn):
        global _bypass
        t = MThread(self, name, fn)
        self.threads.append(t)
        # Thread and Event build their own locks: use the originals
        _bypass = True
        try:
            r = _real["Thread"](target=t._main, daemon=True)
            t.real = r
            r.start()
        finally:
            _bypass = False
        return t

    def _runnable(self, t):
        if t.done:
            return False
        if t.pred is None and t.deadline is None:
            return True
        if t.pred is not None and t.pred():
            return True
        return t.deadline is not None and self.now >= t.deadline

    def _step(self, t):
        t.gate.release()
        self._back.acquire()

    def run(self):
        """Runs until every non-daemon thread is done.  Returns 'done',
        'deadlock' or 'steps' (too many steps: a live lock)."""
        global _active
        assert _active is None
        _active = self
        last = None
        try:
            while True:
                live = [t for t in self.threads
                        if not t.done and not t.daemon]
                if not live:
                    self.status = "done"
                    break
                if self.steps >= self.max_steps:
                    self.status = "steps"
                    break
                run = [t for t in self.threads if self._runnable(t)]
                if not run:
                    waits = [t.deadline for t in self.threads
                             if not t.done and t.deadline is not None]
                    if not waits:
                        self.status = "deadlock"
                        if self.on_deadlock:
                            self.on_deadlock()
                        break
                    if self.on_stuck:
                        self.on_stuck()
                    self.now = max(self.now, min(waits)) + EPS
                    continue
                self.steps += 1
                if self.choose is not None:
                    t = self.choose(run, last)
                elif last in run and len(run) > 1 and \
                        self.rng.random() < 0.3:
                    t = last
                else:
                    t = self.rng.choice(run)
                last = t
                self._step(t)
        finally:
            for t in self.threads:
                while not t.done:
                    t.abort = True
                    self._step(t)
            _active = None
        return self.status


def bursts(rng, mean):
    """A chooser that lets one thread run on for a while"""
    left = [0]

    def choose(run, last):
        if left[0] > 0 and last in run:
            left[0] -= 1
            return last
        left[0] = int(rng.expovariate(1.0 / mean)) if mean else 0
        return rng.choice(run)
    return choose


# --- replacements ----------------------------------------------------------

class Lock(object):
    _reentrant = False

    def __new__(cls):
        if not _managed():
            return _real["RLock" if cls._reentrant else "Lock"]()
        return object.__new__(cls)

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if me is None:
            # set-up code outside run(): nobody else can hold it
            if self.owner is None or (self._reentrant and
                                      self.owner == "main"):
                self.owner = "main"
                self.count += 1
                return True
            if not blocking:
                return False
            raise RuntimeError("managed lock is held")
        if self._reentrant and self.owner is me:
            self.count += 1
            return True
        me.yield_()
        if self.owner is not None:
            if not blocking:
                return False
            deadline = None
            if timeout is not None and timeout >= 0:
                deadline = me.sched.now + timeout
            while self.owner is not None:
                if deadline is not None and me.sched.now >= deadline:
                    return False
                me.block(lambda: self.owner is None, deadline)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        me = _me()
        if self.owner is None or (
                self._reentrant and self.owner is not (me or "main")):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    # for Condition
    def _is_owned(self):
        return self.owner is (_me() or "main")

    def _release_save(self):
        state = (self.owner, self.count)
        self.owner, self.count = None, 0
        return state

    def _acquire_restore(self, state):
        me = _me()
        while self.owner is not None:
            me.block(lambda: self.owner is None, None)
        self.owner, self.count = state


class RLock(Lock):
    _reentrant = True


class Condition(object):

    def __new__(cls, lock=None):
        if not _managed():
            return _RealCondition(lock)
        return object.__new__(cls)

    def __init__(self, lock=None):
        self._lock = RLock() if lock is None else lock
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *args):
        return self._lock.__exit__(*args)

    def wait(self, timeout=None):
        me = _me()
        if not self._lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        if me is None:
            raise RuntimeError("wait outside the scheduler")
        ticket = [False]
        self._waiters.append(ticket)
        saved = self._lock._release_save()
        try:
            # a wait takes some time even when its time-out is 0
            deadline = None if timeout is None else \
                me.sched.now + max(timeout, EPS)
            me.block(lambda: ticket[0], deadline)
        finally:
            # by identity: tickets are equal to each other
            self._waiters[:] = [w for w in self._waiters if w is not ticket]
            if not me.abort:
                self._lock._acquire_restore(saved)
        return ticket[0]

    def wait_for(self, predicate, timeout=None):
        me = _me()
        end = None if timeout is None else me.sched.now + timeout
        result = predicate()
        while not result:
            left = None
            if end is not None:
                left = end - me.sched.now
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        if not self._lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for ticket in self._waiters[:n]:
            ticket[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event(object):

    def __new__(cls):
        if not _managed():
            return _real["Event"]()
        return object.__new__(cls)

    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        me = _me()
        me.yield_()
        if not self._flag:
            me.block(lambda: self._flag,
                     None if timeout is None else me.sched.now + timeout)
        return self._flag


class Thread(object):

    def __new__(cls, *args, **kws):
        if not _managed():
            return _real["Thread"](*args, **kws)
        return object.__new__(cls)

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target, self._args = target, args
        self._kwargs = kwargs or {}
        self.name = name or "spawned"
        self.daemon = bool(daemon)
        self._t = None
        self.ident = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _active or _building
        self._t = s.spawn(self.name, self.run)
        self._t.daemon = self.daemon

    def setDaemon(self, flag):
        self.daemon = flag

    def is_alive(self):
        return self._t is not None and not self._t.done

    isAlive = is_alive

    def join(self, timeout=None):
        me = _me()
        if not self._t.done:
            me.block(lambda: self._t.done,
                     None if timeout is None else me.sched.now + timeout)


class building(object):
    """Context in which set-up code outside run() builds managed objects"""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        global _building
        _building = self.sched
        return self.sched

    def __exit__(self, *args):
        global _building
        _building = None


def vtime():
    s = _active or _building
    if s is not None and (_building or _me() is not None):
        return s.now
    return _real_time()


def vsleep(t):
    me = _me()
    if me is None:
        if _building:
            _building.now += t
            return
        return _real_sleep(t)
    if t <= 0:
        me.yield_()
    else:
        me.block(None, me.sched.now + t)


def vmonotonic():
    s = _active or _building
    if s is not None and (_building or _me() is not None):
        return s.now
    return _real_monotonic()


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    threading.Condition = Condition
    threading.Event = Event
    threading.Thread = Thread
    time.time = vtime
    time.sleep = vsleep
    time.monotonic = vmonotonic


def preempt():
    """A scheduling point for harness code (for example, a database call)"""
    me = _me()
    if me is not None:
        me.yield_()
