"""Puts every source of nondeterminism of the code under test behind the simulator.

install() must run before anything of /repo (or Django) is imported.  Outside of
simulated tasks every replaced function behaves like the original.
"""
import _thread
import os
import random
import socket
import sys
import threading
import time
import zlib

from . import engine

_real = {}
_installed = False
_run_rng = random.Random(0)


def reseed(seed):
    """Restarts the pseudo-random sources used by the code under test."""
    global _run_rng
    if not isinstance(seed, int):
        seed = zlib.crc32(str(seed).encode())   # (seeding with a string hashes it in pure Python on PyPy)
    _run_rng = random.Random(seed)
    random.seed(seed)


def real(name):
    return _real[name]


def _task():
    return engine._by_real_ident.get(engine._real_get_ident())


class SimLock(object):
    """threading.Lock/RLock which blocks through the simulator inside of simulated tasks."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        t = _task()
        return t if t is not None else engine._real_get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._reentrant and self._owner is me or (self._reentrant and self._owner == me):
            self._count += 1
            return True
        t = _task()
        if t is None:
            # Outside of the simulation there is only one thread using these.
            if self._owner is not None:
                if not blocking:
                    return False
                while self._owner is not None:
                    _real['sleep'](0.001)
            self._owner = me
            self._count = 1
            return True
        sim = t.sim
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            if deadline is not None and sim.now >= deadline:
                return False
            sim.block(self, None if deadline is None else deadline - sim.now)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            t = _task()
            if t is not None:
                t.sim.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner is not None and (self._owner is self._me() or self._owner == self._me())

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True


class SimThread(object):
    """threading.Thread inside of the simulation: a task of the same process."""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or 'Thread'
        self.daemon = bool(daemon)
        self._simtask = None
        self._delay = None
        self._kind = 'thread'

    def start(self):
        t = _task()
        if t is None:
            raise engine.HarnessError('thread started outside of the simulation')
        self._simtask = t.sim.spawn(self._kind, self._bootstrap, t.process, kind=self._kind, delay=self._delay)
        self._simtask.info = self
        hook = getattr(t.sim, 'on_spawn', None)
        if hook is not None:
            hook(t, self._simtask)

    def _bootstrap(self):
        t = _task()
        hook = getattr(t.sim, 'on_thread_start', None)
        if hook is not None:
            hook(t)
        try:
            self.run()
        finally:
            hook = getattr(t.sim, 'on_thread_end', None)
            if hook is not None:
                hook(t)

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    @property
    def ident(self):
        return None if self._simtask is None else self._simtask.ident

    def is_alive(self):
        return self._simtask is not None and self._simtask.state != 'done'

    isAlive = is_alive

    def join(self, timeout=None):
        if self._simtask is not None and self._simtask.state != 'done':
            _task().sim.block(self._simtask, timeout)

    def setDaemon(self, v):
        self.daemon = v

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class SimCurrent(object):
    """threading.current_thread() of a thread of the harness. Names do not identify threads."""
    name = 'worker'
    daemon = True

    def __init__(self, task):
        self._task = task

    @property
    def ident(self):
        return self._task.ident

    native_id = ident

    def is_alive(self):
        return self._task.state != 'done'

    def getName(self):
        return self.name

    def isDaemon(self):
        return True


class SimTimer(SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        SimThread.__init__(self, name='Timer')
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self._cancelled = False
        self._kind = 'timer'

    def start(self):
        self._delay = max(0.0, float(self.interval))
        SimThread.start(self)

    def cancel(self):
        self._cancelled = True

    def run(self):
        if not self._cancelled:
            self.function(*self.args, **self.kwargs)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        _real[name] = getattr(time, name)
    _real['urandom'] = os.urandom
    _real['getpid'] = os.getpid
    _real['gethostname'] = socket.gethostname
    _real['Thread'] = threading.Thread
    _real['Timer'] = threading.Timer
    _real['get_ident'] = engine._real_get_ident

    def clock():
        t = _task()
        if t is None:
            return _real['time']()
        return t.sim.clock(t.process)

    def sim_time():
        return clock()

    def sim_mono():
        t = _task()
        if t is None:
            return _real['monotonic']()
        t.sim.now += t.sim.tick
        return t.sim.now - t.sim.start_time + 1000.0

    def sim_sleep(s):
        t = _task()
        if t is None:
            return _real['sleep'](s)
        t.sim.sleep(s)

    time.time = sim_time
    time.monotonic = sim_mono
    time.perf_counter = sim_mono
    time.sleep = sim_sleep
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_mono() * 1e9)
    time.perf_counter_ns = lambda: int(sim_mono() * 1e9)

    def sim_urandom(n):
        if _task() is None:
            return _real['urandom'](n)
        return bytes(_run_rng.getrandbits(8) for _ in range(n))

    os.urandom = sim_urandom
    random._urandom = sim_urandom

    def sim_getpid():
        t = _task()
        return _real['getpid']() if t is None else t.process.pid

    os.getpid = sim_getpid

    def sim_gethostname():
        t = _task()
        return _real['gethostname']() if t is None else t.process.host

    socket.gethostname = sim_gethostname

    def sim_get_ident():
        t = _task()
        return engine._real_get_ident() if t is None else t.ident

    _thread.get_ident = sim_get_ident
    threading.get_ident = sim_get_ident

    _real['current_thread'] = threading.current_thread

    def sim_current_thread():
        t = _task()
        if t is None:
            return _real['current_thread']()
        if isinstance(t.info, SimThread):
            return t.info
        if t.thread is None:
            t.thread = SimCurrent(t)
        return t.thread

    threading.current_thread = threading.currentThread = sim_current_thread

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock

    class Thread(_real['Thread']):
        def __new__(cls, *a, **kw):
            if _task() is not None and cls in (Thread, Timer):
                return (SimTimer if cls is Timer else SimThread)(*a, **kw)
            return object.__new__(cls)

        def start(self):
            if _task() is not None:
                # subclass of Thread defined by the code under test
                st = SimThread(target=self.run, name=self.name)
                st.start()
                self._simthread = st
                self.join = st.join
                self.is_alive = st.is_alive
                return
            _real['Thread'].start(self)

    class Timer(Thread):
        def __init__(self, interval, function, args=None, kwargs=None):
            Thread.__init__(self)
            self.interval, self.function = interval, function
            self.args = args if args is not None else []
            self.kwargs = kwargs if kwargs is not None else {}
            self._cancelled = False

        def cancel(self):
            self._cancelled = True

        def run(self):
            time.sleep(self.interval)
            if not self._cancelled:
                self.function(*self.args, **self.kwargs)

    threading.Thread = Thread
    threading.Timer = Timer
