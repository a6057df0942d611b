"""Simulated shared cache server (memcached/redis-like) and the client side of it.

Real code: everything above ICache/BaseCache.  Stub: this server.  Values are
serialized when they leave a client and rebuilt with the classes of the reading
process, so no Python object is ever shared between simulated processes.
"""
import pickle
import socket
import sys

from .engine import SimKilled, HarnessError

_ATOMS = (int, float, str, bytes, bool, type(None), complex)


class SimBackendError(Exception):
    """Injected failure of a cache operation (connection refused, timeout...)."""


class SimOSError(SimBackendError, OSError):
    pass


class SimTimeout(SimBackendError, socket.timeout):
    pass


class SimValueError(SimBackendError, ValueError):
    pass


class SimRuntimeError(SimBackendError, RuntimeError):
    pass


class SimKeyError(SimBackendError, KeyError):
    pass


class SimTypeError(SimBackendError, TypeError):
    pass


# Client libraries raise errors of their own, of the socket, of the protocol and of the serialization.
ERRORS = (SimBackendError, SimOSError, SimTimeout, SimValueError, SimRuntimeError, SimKeyError, SimTypeError)


# -- serialization ------------------------------------------------------------------

_plain = {}


def _is_plain(cls):
    """Instances of classes of the code under test with default pickling behaviour."""
    return (cls.__module__.split('.')[0] in ('cache_dependencies', 'django_cache_dependencies', 'cache_tagging')
            and cls.__reduce_ex__ is object.__reduce_ex__ and cls.__reduce__ is object.__reduce__
            and not any(hasattr(cls, n) for n in ('__getstate__', '__setstate__', '__getnewargs__',
                                                  '__getnewargs_ex__', '__slots__'))
            and cls.__mro__[-2].__mro__ == (cls.__mro__[-2], object)
            and not issubclass(cls, (dict, list, tuple, set, frozenset, str, bytes, int, float, BaseException, type)))


def freeze(obj, depth=0):
    cls = type(obj)
    if cls in _ATOMS:
        return obj
    if depth > 60:
        return ('pickle', pickle.dumps(obj, pickle.HIGHEST_PROTOCOL))
    d = depth + 1
    if cls is dict:
        return ('dict', [(freeze(k, d), freeze(v, d)) for k, v in obj.items()])
    if cls is list:
        return ('list', [freeze(i, d) for i in obj])
    if cls is tuple:
        return ('tuple', [freeze(i, d) for i in obj])
    if cls is set:
        return ('set', [freeze(i, d) for i in obj])
    if cls is frozenset:
        return ('frozenset', [freeze(i, d) for i in obj])
    plain = _plain.get(cls)
    if plain is None:
        plain = _plain[cls] = _is_plain(cls)
    if plain:
        return ('obj', cls.__module__, cls.__qualname__, [(k, freeze(v, d)) for k, v in obj.__dict__.items()])
    return ('pickle', pickle.dumps(obj, pickle.HIGHEST_PROTOCOL))


def thaw(x):
    if type(x) is not tuple:
        return x
    tag = x[0]
    if tag == 'dict':
        return {thaw(k): thaw(v) for k, v in x[1]}
    if tag == 'list':
        return [thaw(i) for i in x[1]]
    if tag == 'tuple':
        return tuple([thaw(i) for i in x[1]])
    if tag == 'set':
        return set([thaw(i) for i in x[1]])
    if tag == 'frozenset':
        return frozenset([thaw(i) for i in x[1]])
    if tag == 'obj':
        o = sys.modules[x[1]]
        for part in x[2].split('.'):
            o = getattr(o, part)
        inst = object.__new__(o)
        inst.__dict__.update({k: thaw(v) for k, v in x[3]})
        return inst
    if tag == 'pickle':
        return pickle.loads(x[1])
    raise HarnessError(tag)


class Server(object):
    """One cache server: keys are the final (prefixed) strings."""

    def __init__(self, sim, name, cfg, is_data_key):
        self.sim = sim
        self.name = name
        self.cfg = cfg
        self.data = {}
        self.is_data_key = is_data_key
        self.generation = 0
        self.ops = 0
        self.lossy = False      # something was lost (eviction, restart, failed call)

    # raw operations, executed atomically at the server
    def _get(self, key):
        item = self.data.get(key)
        if item is None:
            return None
        if item[1] is not None and item[1] <= self.sim.now:
            del self.data[key]
            return None
        return item

    def get(self, key):
        item = self._get(key)
        return None if item is None else (item[0],)

    def set(self, key, frozen, ttl):
        if ttl is not None and ttl <= 0:
            self.data.pop(key, None)
            return
        self.data[key] = (frozen, None if ttl is None else self.sim.now + ttl)

    def add(self, key, frozen, ttl):
        if self._get(key) is not None:
            return False
        self.set(key, frozen, ttl)
        return True

    def delete(self, key):
        return self.data.pop(key, None) is not None

    def flush(self):
        self.data.clear()

    def evict_candidates(self):
        res = []
        for key in sorted(self.data):
            item = self._get(key)
            if item is None:
                continue
            if self.is_data_key(key):
                res.append(key)
            elif self.cfg.get('evict_meta'):
                # Short-lived protocol records are not evicted where the property assumes so.
                if self.cfg.get('evict_short') or item[1] is None or item[1] - self.sim.now > 3600:
                    res.append(key)
        return res


class Client(object):
    """What one process sees of a server; every operation is a yield point and a fault point."""

    def __init__(self, sim, server):
        self.sim = sim
        self.server = server
        self.owner = sim.current        # a connection belongs to the thread which opened it

    def _maybe_latency(self):
        lat = self.server.cfg.get('latency', 0)
        if lat and self.sim.chooser.flip(self.server.cfg.get('latency_p', 0.2), 'lat'):
            self.sim.sleep(lat * (1 + self.sim.chooser.choose(4, 'latn')))

    def call(self, kind, keys, fn, parts=None, mutating=False):
        """fn() executes the operation; parts: list of callables for a torn multi-key operation."""
        sim, srv = self.sim, self.server
        t = sim.current
        if t is None or t.killed:
            raise SimKilled()
        if self.owner is not None and self.owner is not t:
            sim.world.violation('confine', 'thread %r uses the connection to the cache server of %r for %s' % (
                t.name, self.owner.name, kind))
        sim.yield_point('op')
        if not t.no_preempt:        # (what has to happen at one moment takes no time)
            self._maybe_latency()
            dt = sim.world.stall(t)
            if dt:
                sim.sleep(dt)
        cfg = srv.cfg
        world = sim.world
        world.note_call(t, kind, keys)
        ch = sim.chooser
        fault = None
        if world.faults_on and not t.no_preempt and t.kind in cfg.get('fault_tasks', ('actor', 'timer', 'thread')):
            p = cfg.get('fault_p', 0.0)
            if p and ch.flip(p, 'fault'):
                kinds = cfg['fault_kinds']
                fault = kinds[ch.choose(len(kinds), 'fkind')]
                if fault in ('error_after', 'late', 'partial') and not mutating:
                    fault = 'error'
                if fault == 'partial' and (not parts or len(parts) < 2):
                    fault = 'error'
                if fault == 'kill' and t.kind != 'actor':
                    fault = 'error'
        error = SimBackendError
        if fault in ('error', 'error_after', 'late', 'partial'):
            error = ERRORS[ch.choose(len(ERRORS), 'ecls', (4, 4, 1, 1, 1, 0.5, 0.5))]
        srv.ops += 1
        if fault == 'evict':
            cand = srv.evict_candidates()
            if cand:
                k = cand[ch.choose(len(cand), 'victim')]
                srv.data.pop(k, None)
                srv.lossy = True
                sim.fault('evict')
                world.log_event(t, 'EVICT', k)
                world.note_evict(srv, k)
            fault = None
        elif fault == 'flush':
            srv.flush()
            srv.lossy = True
            sim.fault('flush')
            world.log_event(t, 'FLUSH', srv.name)
            world.note_evict(srv, None)
            fault = None
        if fault == 'kill':
            before = ch.choose(2, 'killwhen') == 0
            sim.fault('kill')
            if not before and mutating:
                self._apply(t, kind, keys, fn)
            world.kill(t)
            raise SimKilled()
        if fault == 'error':
            sim.fault('error')
            srv.lossy = srv.lossy or mutating
            world.log_event(t, 'ERR ' + kind, keys)
            world.note_fault(t, kind, keys)
            raise error(kind)
        if fault == 'partial':
            n = 1 + ch.choose(len(parts) - 1, 'partn')
            sim.fault('partial')
            for part in parts[:n]:
                part()
            world.log_event(t, 'PARTIAL ' + kind, keys)
            world.note_fault(t, kind, keys)
            raise error(kind + ' partially applied')
        if fault == 'late':
            sim.fault('late')
            delay = (1 + ch.choose(40, 'lated')) * cfg.get('late_unit', 0.01)
            world.note_fault(t, kind, keys)
            world.log_event(t, 'LATE ' + kind, keys)
            rec = world.late_token(t)

            def late():
                sim.yield_point('late')
                world.log_event(sim.current, 'APPLY LATE ' + kind, keys)
                fn()
                world.note_late(rec, kind, keys)
            p = world.net_process
            sim.spawn('net', late, p, kind='net', delay=delay)
            raise error(kind + ' timed out')
        if parts and len(parts) > 1 and cfg.get('torn') and not t.no_preempt:
            res = []
            for i, part in enumerate(parts):
                if i:
                    sim.yield_point('torn')
                res.append(part())
            world.log_event(t, kind, keys)
            world.note_applied(t, kind, keys)
            result = res
        else:
            result = self._apply(t, kind, keys, fn)
        if fault == 'error_after':
            sim.fault('error_after')
            world.log_event(t, 'ERRAFTER ' + kind, keys)
            world.note_fault(t, kind, keys)
            raise error(kind + ' reply lost')
        sim.yield_point('reply')
        return result

    def _apply(self, t, kind, keys, fn):
        r = fn()
        self.sim.world.log_event(t, kind, keys)
        self.sim.world.note_applied(t, kind, keys)
        return r

    # -- operations ------------------------------------------------------------------
    def get(self, key):
        r = self.call('get', (key,), lambda: self.server.get(key))
        return None if r is None else (thaw(r[0]),)

    def get_many(self, keys):
        keys = list(keys)
        s = self.server

        def all_():
            return [s.get(k) for k in keys]
        r = self.call('get_many', tuple(keys), all_,
                      [lambda k=k: s.get(k) for k in keys] if not s.cfg.get('atomic_reads') else None)
        return {k: thaw(v[0]) for k, v in zip(keys, r) if v is not None}

    def set(self, key, value, ttl):
        f = freeze(value)
        self.call('set', (key,), lambda: self.server.set(key, f, ttl), mutating=True)

    def add(self, key, value, ttl):
        f = freeze(value)
        return self.call('add', (key,), lambda: self.server.add(key, f, ttl), mutating=True)

    def set_many(self, mapping, ttl):
        items = [(k, freeze(v)) for k, v in mapping.items()]
        s = self.server
        parts = [lambda k=k, f=f: s.set(k, f, ttl) for k, f in items]
        self.call('set_many', tuple(k for k, f in items), lambda: [p() for p in parts], parts, mutating=True)

    def delete(self, key):
        return self.call('delete', (key,), lambda: self.server.delete(key), mutating=True)

    def delete_many(self, keys):
        keys = list(keys)
        s = self.server
        parts = [lambda k=k: s.delete(k) for k in keys]
        self.call('delete_many', tuple(keys), lambda: [p() for p in parts], parts, mutating=True)

    def incr(self, key, delta):
        s = self.server

        def fn():
            item = s._get(key)
            if item is None:
                return None
            s.data[key] = (item[0] + delta, item[1])
            return s.data[key][0]
        return self.call('incr', (key,), fn, mutating=True)

    def clear(self):
        self.call('clear', (), lambda: self.server.flush(), mutating=True)
