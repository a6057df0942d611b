"""Deterministic simulator: real OS threads, exactly one of which runs at a time.

Every task of the simulated system is a real thread parked on its own baton
lock.  A task gives the baton away only at yield points (cache and database
operations, clock-dependent blocking, lock operations, file-system calls and,
in some runs, source lines of the code under test), and which task continues is
decided by the Chooser, the single recorded source of all nondeterminism of a
run (schedule, latencies, faults).  Time is simulated: it advances only when a
task reads the clock (by a tick) or when nobody is runnable.
"""
import _thread
import heapq
import random as _random
import sys

# Real primitives, captured before seams.install() replaces anything.
_allocate_lock = _thread.allocate_lock
_real_get_ident = _thread.get_ident
_start_new_thread = _thread.start_new_thread

_by_real_ident = {}


class SimKilled(BaseException):
    """The task (or its process) was killed by the simulator."""


class SimStuck(Exception):
    """The run made no progress within its step budget."""


class Deadlock(SimStuck):
    pass


class HarnessError(Exception):
    """The harness itself is broken; never a verdict about the code under test."""


class Chooser(object):
    """The only source of nondeterminism during a run.

    Records every decision as a small integer; 0 is always the benign default
    (go on with the same task, no fault, no delay).  Given a trace it replays
    it, and answers 0 when the trace is exhausted.
    """

    def __init__(self, seed=None, trace=None):
        self.replay = list(trace) if trace is not None else None
        self.rng = _random.Random(seed) if trace is None else None
        self.trace = []
        self.pos = 0
        self.counts = {}

    def choose(self, n, kind, weights=None):
        """0 <= result < n."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n or v < 0:
                v = v % n
        elif weights is not None:
            x = self.rng.random() * sum(weights)
            v = 0
            for v, w in enumerate(weights):
                x -= w
                if x < 0:
                    break
        else:
            v = int(self.rng.random() * n)
        self.trace.append(v)
        return v

    def flip(self, p, kind):
        """True with probability p; recorded as 1, the default is False."""
        if p <= 0:
            return False
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = 1 if v else 0
        else:
            v = 1 if self.rng.random() < p else 0
        self.trace.append(v)
        return bool(v)


class Process(object):
    """A simulated OS process: host, pid, clock, module image."""

    def __init__(self, sim, name, host='host', pid=100, skew=0.0, image=None):
        self.sim = sim
        self.name = name
        self.host = host
        self.pid = pid
        self.skew = skew
        self.image = image
        self.alive = True
        self.next_ident = 0
        self.rng = None
        self.lists = {}


class Task(object):
    __slots__ = ('sim', 'id', 'name', 'fn', 'process', 'ident', 'baton', 'state', 'wake', 'killed',
                 'waiting_on', 'error', 'real_ident', 'kind', 'info', 'thread', 'no_preempt', 'in_backend', 'spawner',
                 'started', 'prio')

    def __init__(self, sim, name, fn, process, kind):
        self.sim = sim
        self.id = len(sim.tasks)
        self.name = name
        self.fn = fn
        self.process = process
        self.ident = 140000000000000 + 4096 * process.next_ident  # idents collide between processes, on purpose
        process.next_ident += 1
        self.baton = _allocate_lock()
        self.baton.acquire()
        self.state = 'ready'   # ready | blocked | done
        self.wake = None
        self.killed = False
        self.waiting_on = None
        self.error = None
        self.real_ident = None
        self.kind = kind
        self.info = None
        self.thread = None
        self.no_preempt = 0
        self.in_backend = 0
        self.spawner = None
        self.started = False
        self.prio = 0


def current_task():
    return _by_real_ident.get(_real_get_ident())


class Sim(object):

    def __init__(self, chooser, config=None):
        cfg = config or {}
        self.chooser = chooser
        self.now = 1500000000.0 + cfg.get('epoch', 0.0)
        self.start_time = self.now
        self.seq = 0
        self.tasks = []
        self.processes = []
        self.current = None
        self.main_baton = _allocate_lock()
        self.main_baton.acquire()
        self.steps = 0
        self.max_steps = cfg.get('max_steps', 20000)
        self.switch_p = cfg.get('switch_p', 0.3)
        self.policy = cfg.get('policy', 'random')   # random | prio
        self.tick = cfg.get('tick', 1e-6)
        self.clock_grain = cfg.get('clock_grain', 0.0)
        self.line_gap = cfg.get('line_gap', 0)       # mean lines between line-level preemptions; 0: off
        self.trace_prefix = cfg.get('trace_prefix')
        self.log = []
        self.sig = []
        self.stuck = None
        self.aborting = False
        self.on_switch = None
        self.faults = {}
        self.switches = 0
        self._line_left = 0
        self.harness_error = None

    # -- building -----------------------------------------------------------------
    def process(self, name, **kw):
        p = Process(self, name, **kw)
        self.processes.append(p)
        return p

    def spawn(self, name, fn, process, kind='actor', delay=None):
        t = Task(self, name, fn, process, kind)
        if self.policy == 'prio':
            t.prio = self.chooser.choose(1000, 'prio')
        if delay is not None:
            t.state = 'blocked'
            t.wake = self.now + delay
        t.spawner = self.current
        self.tasks.append(t)
        _start_new_thread(self._thread_main, (t,))
        return t

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    # -- task side ----------------------------------------------------------------
    def _thread_main(self, t):
        t.baton.acquire()
        t.real_ident = _real_get_ident()
        _by_real_ident[t.real_ident] = t
        try:
            if not t.killed and not self.aborting:
                t.started = True
                if self.line_gap:
                    self._line_left = self._draw_gap()
                    sys.settrace(self._trace_call)
                t.fn()
        except SimKilled:
            pass
        except BaseException as e:  # noqa: reported by the world
            t.error = e
        finally:
            sys.settrace(None)
            t.state = 'done'
            _by_real_ident.pop(t.real_ident, None)
            for other in self.tasks:
                if other.waiting_on is t:
                    other.waiting_on = None
                    other.state = 'ready'
            self._dispatch_from(None)

    def _trace_call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.trace_prefix):
            return self._trace_line
        return None

    def _trace_line(self, frame, event, arg):
        if event == 'line':
            self._line_left -= 1
            if self._line_left <= 0:
                self._line_left = self._draw_gap()
                t = self.current
                if t is not None and not t.killed and not self.aborting and not t.no_preempt and not t.in_backend:
                    self.yield_point('line', force=False)
        return self._trace_line

    def _draw_gap(self):
        if self.chooser.replay is not None and self.chooser.pos >= len(self.chooser.replay):
            return 10 ** 9
        # 0 (the default) means: no more line-level preemption for a long time
        v = self.chooser.choose(2 * self.line_gap, 'gap')
        return v if v else 10 * self.line_gap

    # -- scheduling ----------------------------------------------------------------
    def _runnable(self):
        now = self.now
        res = []
        for t in self.tasks:
            if t.state == 'ready':
                res.append(t)
            elif t.state == 'blocked' and t.wake is not None and t.wake <= now:
                res.append(t)
        return res

    def _pick(self, me):
        """Chooses the next task; `me` is the yielding task if it can continue, else None."""
        while True:
            if self.aborting:
                for t in self.tasks:
                    if t.state != 'done':
                        t.killed = True
                        return t
                return None
            cand = self._runnable()
            if cand:
                break
            # Nobody is runnable: advance the clock to the next wake-up.
            wakes = [t.wake for t in self.tasks if t.state == 'blocked' and t.wake is not None]
            if not wakes:
                if any(t.state != 'done' for t in self.tasks):
                    self.stuck = self.stuck or 'deadlock'
                    self.aborting = True
                    continue
                return None
            self.now = max(self.now, min(wakes))
        if me is not None and me in cand:
            cand.remove(me)
            cand.insert(0, me)
        if len(cand) == 1:
            t = cand[0]
        elif self.policy == 'prio':
            # Strict priorities; with a small probability the leader is demoted.
            order = sorted(cand, key=lambda t: (-t.prio, t.id))
            if self.chooser.flip(self.switch_p * 0.3, 'demote'):
                order[0].prio = -self.steps
                order = sorted(cand, key=lambda t: (-t.prio, t.id))
            t = order[0]
        elif me is not None and me in cand:
            if self.chooser.flip(self.switch_p, 'switch'):
                t = cand[1 + self.chooser.choose(len(cand) - 1, 'who')]
            else:
                t = me
        else:
            t = cand[self.chooser.choose(len(cand), 'who')]
        if t.state == 'blocked':
            t.state = 'ready'
            t.wake = None
            t.waiting_on = None
        return t

    def _activate(self, t):
        prev = self.current
        self.current = t
        if t is not prev:
            self.switches += 1
            if self.on_switch is not None:
                self.on_switch(prev, t)

    def _dispatch_from(self, me):
        """Gives the baton away (me is blocked or done)."""
        nxt = self._pick(None)
        if nxt is None:
            self.current = None
            self.main_baton.release()
            return
        self._activate(nxt)
        if nxt is not me:
            nxt.baton.release()
            if me is not None:
                me.baton.acquire()

    def _check(self, t):
        if t.killed or self.aborting:
            t.killed = True
            raise SimKilled()

    def yield_point(self, kind, force=False):
        """A point where another task may be scheduled."""
        t = self.current
        self._check(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.stuck = self.stuck or 'step budget exhausted'
            self.aborting = True
            raise SimKilled()
        if t.no_preempt and not force:
            return
        nxt = self._pick(t)
        if nxt is not t:
            self._activate(nxt)
            nxt.baton.release()
            t.baton.acquire()
        self._check(t)

    def sleep(self, seconds):
        t = self.current
        self._check(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.stuck = self.stuck or 'step budget exhausted'
            self.aborting = True
            raise SimKilled()
        if seconds <= 0:
            return self.yield_point('sleep0')
        t.state = 'blocked'
        t.wake = self.now + seconds
        if t.no_preempt:
            self.now = t.wake
            t.state = 'ready'
            t.wake = None
            return
        self._dispatch_from(t)
        self._check(t)

    def block(self, obj, timeout=None):
        """Blocks the current task until wake(obj) (or the timeout)."""
        t = self.current
        self._check(t)
        t.state = 'blocked'
        t.waiting_on = obj
        t.wake = None if timeout is None else self.now + timeout
        self._dispatch_from(t)
        self._check(t)

    def wake(self, obj):
        for t in self.tasks:
            if t.state == 'blocked' and t.waiting_on is obj:
                t.state = 'ready'
                t.waiting_on = None
                t.wake = None

    def clock(self, process):
        self.now += self.tick
        now = self.now + process.skew
        g = self.clock_grain
        if g:
            now = int(now / g) * g
        return now

    def next_seq(self):
        self.seq += 1
        return self.seq

    def kill_process(self, process):
        process.alive = False
        for t in self.tasks:
            if t.process is process and t.state != 'done':
                t.killed = True
                if t.state == 'blocked':
                    t.state = 'ready'
                    t.wake = None
                    t.waiting_on = None

    # -- main side -----------------------------------------------------------------
    def run(self):
        """Runs until every task is done (or the run is stuck)."""
        nxt = self._pick(None)
        if nxt is not None:
            self._activate(nxt)
            nxt.baton.release()
            self.main_baton.acquire()
        self.current = None
        if self.on_switch is not None:
            self.on_switch(None, None)


class atomic(object):
    """No other task runs inside of the block (used by checks made at one moment)."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.task = self.sim.current
        self.task.no_preempt += 1

    def __exit__(self, *a):
        self.task.no_preempt -= 1
        return False
