"""The file world: the real file backend of several simulated processes on one real scratch directory.

Every system call which reaches the scratch directory is a yield point and may be delayed, failed, cut short, or be the
last one of its process.  Calls which would change anything outside of the scratch directory are refused.
"""
import atexit
import builtins
import errno
import fcntl
import glob  # noqa
import hashlib
import io
import os
import random
import shutil
import stat
import sys
import tempfile

from . import bindings, engine, images, seams
from .core import Violation, _tb
from .engine import HarnessError, Sim, SimKilled
from .gen import Gen

_real = {}
_world = [None]
_root = [None]
INF = float('inf')
FAULTS = ('errno', 'short', 'cut', 'kill')


def setup():
    images.EXTRA[:] = ['django_cache_dependencies.backends']
    images.setup_django(bindings.DJANGO_SETTINGS)
    images.pool(3)
    base = os.environ.get('DST_SCRATCH')    # of the master, which removes it
    if not base:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    _root[0] = tempfile.mkdtemp(prefix='dst-files-', dir=base)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_root[0], ignore_errors=True))
    shutil._USE_CP_SENDFILE = False
    install()


def cleanup():
    if _root[0]:
        shutil.rmtree(_root[0], ignore_errors=True)


def generate(rng, spec):
    total = sum(w for w, _ in spec['profiles'])
    x = rng.random() * total
    for w, p in spec['profiles']:
        x -= w
        if x < 0:
            break
    return FileGen(rng, p).scenario()


def run(scenario, chooser, spec):
    w = FileWorld(scenario, chooser)
    try:
        w.run()
        judge(w)
    finally:
        w.close()
    return w


# -- the seam ----------------------------------------------------------------------------------

def _here():
    """(world, task) when called from a simulated task of a file world"""
    w = _world[0]
    if w is None:
        return None, None
    t = seams._task()
    if t is None or t.sim is not w.sim:
        return None, None
    return w, t


def _path(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if hasattr(p, '__fspath__'):
        p = p.__fspath__()
    return p


def _wrap(name, dangerous, mod=os, args=1):
    orig = getattr(mod, name)
    _real[name] = orig

    def wrapper(*a, **kw):
        w, t = _here()
        if w is None or w.inside or not a or isinstance(a[0], int):
            return orig(*a, **kw)
        paths = [_path(x) for x in a[:args] if not isinstance(x, int)]
        if not any(isinstance(p, str) and p.startswith(w.dir) for p in paths):
            if dangerous:
                w.refuse(name, paths)
            return orig(*a, **kw)
        if dangerous and not all(p.startswith(w.dir) for p in paths):
            w.refuse(name, paths)
        return w.syscall(t, name, paths, orig, a, kw)
    wrapper.__name__ = name
    wrapper.orig = orig
    setattr(mod, name, wrapper)


class SimFile(io.FileIO):
    """The raw file: every read and write is a system call of the simulation."""
    world = task = None

    def _dead(self):
        w, t = self.world, self.task
        if w is None or w.closed or t is None:
            return True
        cur = seams._task()
        if cur is not None and (cur.killed or w.sim.aborting):
            raise SimKilled()
        return t.killed

    def write(self, b):
        if self._dead():
            return len(b)
        return self.world.transfer(self, 'write', b, io.FileIO.write)

    def readinto(self, b):
        if self._dead():
            return 0
        m = memoryview(b).cast('B')
        data = self.world.transfer(self, 'read', len(m), io.FileIO.read)
        m[:len(data)] = data
        return len(data)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        if self._dead():
            return b''
        return self.world.transfer(self, 'read', n, io.FileIO.read)

    def readall(self):
        res = []
        while True:
            x = self.read(16384)
            if not x:
                return b''.join(res)
            res.append(x)

    def close(self):
        if not self.closed and self.world is not None and not self.world.closed:
            self.world.fds.pop(self.fileno(), None)
        io.FileIO.close(self)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w, t = _here()
    orig = _real['open']
    if w is None or w.inside:
        return orig(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file not in w.fds:
            return orig(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        p = _path(file)
        if not isinstance(p, str) or not p.startswith(w.dir):
            if set(mode) & set('wax+'):
                w.refuse('open', [p])
            return orig(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    if isinstance(file, int):
        raw = SimFile(file, raw_mode, closefd)
        raw.world, raw.task = w, t
    else:
        raw = w.syscall(t, 'open', [_path(file)], lambda: SimFile(file, raw_mode, closefd, opener), (), {})
        raw.world, raw.task = w, t
        w.fds[raw.fileno()] = (t, _path(file))
    w.files.append(raw)
    if buffering == 0:
        return raw
    if '+' in raw_mode:
        f = io.BufferedRandom(raw)
    elif 'r' in raw_mode:
        f = io.BufferedReader(raw)
    else:
        f = io.BufferedWriter(raw)
    w.files.append(f)
    if 'b' not in mode:
        f = io.TextIOWrapper(f, encoding, errors, newline)
        w.files.append(f)
    return f


def _os_open(path, flags, *a, **kw):
    w, t = _here()
    orig = _real['os_open']
    p = _path(path)
    if w is None or w.inside or not isinstance(p, str):
        return orig(path, flags, *a, **kw)
    if not p.startswith(w.dir):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            w.refuse('open', [p])
        return orig(path, flags, *a, **kw)
    fd = w.syscall(t, 'open', [p], orig, (path, flags) + a, kw)
    w.fds[fd] = (t, p)
    return fd


def _os_write(fd, data):
    w, t = _here()
    if w is None or fd not in w.fds:
        return _real['write'](fd, data)
    return w.syscall(t, 'write', [w.fds[fd][1]], _real['write'], (fd, data), {})


def _os_close(fd):
    w, t = _here()
    if w is not None:
        w.fds.pop(fd, None)
    return _real['close'](fd)


def _flock(f, op):
    w, t = _here()
    if w is None or op & (fcntl.LOCK_UN | fcntl.LOCK_NB):
        return _real['flock'](f, op)
    while True:
        try:
            return _real['flock'](f, op | fcntl.LOCK_NB)
        except BlockingIOError:
            w.sim.sleep(0.001)


def install():
    if _real:
        return
    for name in ('remove', 'unlink', 'rmdir', 'mkdir', 'truncate', 'chmod', 'utime'):
        if hasattr(os, name):
            _wrap(name, True)
    for name in ('rename', 'replace', 'link', 'symlink'):
        _wrap(name, True, args=2)
    for name in ('stat', 'lstat', 'listdir', 'scandir', 'access'):
        _wrap(name, False)
    _real['open'] = io.open
    _real['os_open'] = os.open
    _real['write'] = os.write
    _real['close'] = os.close
    _real['flock'] = fcntl.flock
    io.open = builtins.open = _open
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    fcntl.flock = _flock


ERRNO = {
    'open': (errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOSPC),
    'write': (errno.ENOSPC, errno.EIO, errno.EDQUOT),
    'read': (errno.EIO,),
    'rename': (errno.EIO, errno.EACCES, errno.ENOSPC),
    'replace': (errno.EIO, errno.EACCES, errno.ENOSPC),
    'link': (errno.EIO, errno.EMLINK),
    'remove': (errno.EIO, errno.EACCES),
    'unlink': (errno.EIO, errno.EACCES),
    'mkdir': (errno.EIO, errno.EACCES, errno.ENOSPC),
    'listdir': (errno.EIO, errno.EACCES),
    'scandir': (errno.EIO, errno.EACCES),
    'stat': (errno.EIO, errno.EACCES),
}


# -- the world ---------------------------------------------------------------------------------

class Rec(object):
    def __init__(self, w, actor, kind, **kw):
        self.actor = actor
        self.kind = kind
        self.start = w.sim.next_seq()
        self.t_start = w.sim.now
        self.end = None
        self.t_end = None
        self.ok = False
        self.fault = 0          # injected faults
        self.remove_fault = 0
        self.killed = False
        self.__dict__.update(kw)
        w.history.append(self)

    def close(self, w):
        self.end = w.sim.next_seq()
        self.t_end = w.sim.now

    def stop(self):
        return INF if self.end is None else self.end

    def __repr__(self):
        return '<%s %s>' % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'value')})


class Unpicklable(object):
    def __reduce__(self):
        raise TypeError('can not be pickled')


def blob(uid, size):
    return random.Random(uid).getrandbits(8 * size).to_bytes(size, 'big') if size else b''


def make_value(uid, key, kind):
    if kind == 'small':
        return ('v', uid, key)
    if kind == 'dict':
        return {'uid': uid, 'key': key, 'list': [uid, (uid,), None, {'x': uid}]}
    if kind == 'text':
        return 'uid %d %s ' % (uid, key) + 'a' * 20000
    if kind == 'bytes':
        return ('b', uid, key, blob(uid, 12000))
    if kind == 'big':
        return ('b', uid, key, blob(uid, 40000))
    raise HarnessError(kind)


def uid_of(v):
    try:
        if isinstance(v, tuple):
            return v[1]
        if isinstance(v, dict):
            return v['uid']
        if isinstance(v, str):
            return int(v.split(' ')[1])
    except Exception:
        pass
    return None


MISS = ('miss',)


class Actor(object):
    def __init__(self, w, name, proc, reqs):
        self.w, self.name, self.proc, self.reqs = w, name, proc, reqs
        self.rec = None
        self.backend = None

    def main(self):
        for req in self.reqs:
            for op in req:
                self.op(op)

    def op(self, op):
        getattr(self, 'op_' + op[0])(*op[1:])

    def cache(self):
        if self.backend is None:
            self.backend = self.w.make_backend(self.proc)
        return self.backend

    def do(self, kind, fn, **kw):
        w = self.w
        rec = Rec(w, self, kind, **kw)
        self.rec = rec
        try:
            res = fn(rec)
            rec.ok = True
            return res
        except SimKilled:
            rec.killed = True
            raise
        except HarnessError:
            raise
        except Exception as e:
            rec.error = e
            tb = _tb(e)
            if kind == 'set' and kw.get('payload') == 'bad' and isinstance(e, TypeError):
                pass
            elif kind in ('delete', 'clear') and rec.fault and isinstance(e, EnvironmentError):
                pass
            else:
                if images.REPO not in tb and 'site-packages' not in tb:
                    raise HarnessError(tb)
                w.violation('file_raised', '%s of %r raised %r%s' % (
                    kind, kw.get('key'), e, ' after an injected fault' if rec.fault else ''), rec, tb)
        finally:
            rec.close(w)
            self.rec = None

    def op_set(self, key, version, payload, ttl):
        w = self.w
        w.uid += 1
        uid = w.uid
        value = Unpicklable() if payload == 'bad' else make_value(uid, key, payload)

        def fn(rec):
            w.sets[uid] = rec
            c = self.cache()
            kw = {}
            if version is not None:
                kw['version'] = version
            if ttl != 'default':
                kw['timeout'] = ttl
            rec.result = c.set(key, value, **kw)
        self.do('set', fn, key=(key, version or 1), uid=uid, payload=payload, value=value,
                ttl=w.default_timeout if ttl in ('default', None) else ttl)

    def op_setmany(self, keys, version, payload, ttl):
        w = self.w
        data, uids = {}, {}
        for k in keys:
            w.uid += 1
            uids[k] = w.uid
            data[k] = make_value(w.uid, k, payload)

        def fn(rec):
            self.cache().set_many(data, ttl, version=version)
        recs = []
        for k in keys:
            r = Rec(w, self, 'set', key=(k, version or 1), uid=uids[k], payload=payload, value=data[k],
                    ttl=w.default_timeout if ttl is None else ttl)
            w.sets[uids[k]] = r
            recs.append(r)
        try:
            self.do('setmany', fn, key=tuple(keys))
        finally:
            outer = [r for r in w.history if r.kind == 'setmany' and r.actor is self][-1]
            for r in recs:
                r.close(w)
                r.ok, r.fault, r.killed, r.remove_fault = outer.ok, outer.fault, outer.killed, outer.remove_fault

    def op_get(self, key, version):
        def fn(rec):
            kw = {'version': version} if version is not None else {}
            rec.value = self.cache().get(key, MISS, **kw)
        self.do('get', fn, key=(key, version or 1), value=MISS)

    def op_getmany(self, keys, version):
        w = self.w

        def fn(rec):
            d = self.cache().get_many(keys, version=version)
            for k in keys:
                r = Rec(w, self, 'get', key=(k, version or 1), value=d.get(k, MISS))
                r.start, r.t_start = rec.start, rec.t_start
                r.ok = True
                r.many = True
                r.close(w)
                r.fault = rec.fault
        self.do('getmany', fn, key=tuple(keys))

    def op_delete(self, key, version):
        kw = {'version': version} if version is not None else {}
        self.do('delete', lambda rec: self.cache().delete(key, **kw), key=(key, version or 1))

    def op_clear(self):
        self.do('clear', lambda rec: self.cache().clear(), key=None)

    def op_wipe(self):
        """Somebody removes the directory of the cache."""
        w = self.w

        def fn(rec):
            d = w.location
            try:
                for name in sorted(os.listdir(d)):
                    try:
                        os.remove(os.path.join(d, name))
                    except OSError:
                        pass
            except OSError:
                pass
            try:
                os.rmdir(d)
            except OSError:
                pass
        w.wiping += 1
        self.do('wipe', fn, key=None)
        w.wiping -= 1

    def op_sleep(self, s):
        self.w.sim.sleep(s)

    def op_call(self, fn):
        fn(self)


class FileWorld(object):
    _n = [0]

    def __init__(self, scenario, chooser):
        self.sc = scenario
        cfg = self.cfg = scenario['cfg']
        seams.reseed(scenario['rseed'])
        tempfile._name_sequence = None
        self.sim = Sim(chooser, dict(cfg, trace_prefix=images.REPO))
        self.sim.world = self
        self.violations, self.history, self.log, self.probes = [], [], [], {}
        self.sigh = hashlib.md5()
        self.calls = 0
        self.uid = 0
        self.sets = {}
        self.fds, self.files = {}, []
        self.closed = self.inside = False
        self.wiping = 0
        self.kills = 0
        self.faults_on = bool(cfg.get('faults'))
        self.by_task = {}
        self.default_timeout = cfg.get('default_timeout', 300)
        FileWorld._n[0] += 1
        self.dir = os.path.join(_root[0], 'run')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, 'tmp'))
        self.location = os.path.join(self.dir, 'cache')
        self.saved_tempdir = tempfile.tempdir
        tempfile.tempdir = os.path.join(self.dir, 'tmp')
        bindings.set_world(self)
        _world[0] = self
        sim = self.sim
        sim.on_switch = lambda prev, t: images.activate(t.process.image if t is not None else None)
        sim.on_spawn = self.on_spawn
        imgs = images.pool(3)
        self.net = sim.process('net', host='net', pid=1)
        self.procs = [sim.process('p%d' % i, host='h0', pid=100 + i, image=imgs[i])
                      for i, p in enumerate(scenario['procs'])]
        for i, a in enumerate(scenario['actors']):
            self.start(Actor(self, 'a%d' % i, self.procs[a['proc']], a['reqs']))
        sim.spawn('final', self.final, self.net, kind='final')

    def start(self, a):
        t = self.sim.spawn(a.name, a.main, a.proc)
        self.by_task[t] = a
        return t

    def on_spawn(self, parent, child):
        child.info = ('child', self.by_task[parent].rec if parent in self.by_task else None)
        self.probe('cull_thread')

    def make_backend(self, proc):
        cls = proc.image['django_cache_dependencies.backends'].FileBasedCache
        o = {'MAX_ENTRIES': self.cfg.get('max_entries', 1000), 'CULL_FREQUENCY': self.cfg.get('cull_frequency', 3)}
        self.inside = True
        try:
            return cls(self.location, {'TIMEOUT': self.default_timeout, 'OPTIONS': o})
        finally:
            self.inside = False

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def violation(self, oracle, message, rec=None, tb=None):
        self.violations.append(Violation(oracle, message, rec, tb, self.sim.seq))

    def refuse(self, name, paths):
        self.log.append(('refused', name))
        raise OSError(errno.EACCES, 'refused by the simulator', paths[0])

    # -- system calls
    def syscall(self, t, name, paths, fn, args, kw):
        sim = self.sim
        if t.killed or sim.aborting:
            raise SimKilled()
        self.before(t, name)
        a = self.by_task.get(t)
        base = tuple(self.short(p) for p in paths)
        self.log.append((t.id, name) + base)
        self.sigh.update(('%d%s;' % (t.id, name)).encode())
        self.calls += 1
        self.fault(t, a, name, paths)
        if name in ('rename', 'replace', 'link') and len(paths) == 2:
            # the directory for temporary files is another file system
            if self.top(paths[0]) != self.top(paths[1]):
                raise OSError(errno.EXDEV, 'Invalid cross-device link', paths[0])
        self.inside = True
        try:
            return fn(*args, **kw)
        finally:
            self.inside = False

    def short(self, p):
        p = os.path.basename(p)
        if not hasattr(self, 'names'):
            self.names = {}
        if p not in self.names:
            self.names[p] = '%s%d' % (os.path.splitext(p)[1], len(self.names))
        return self.names[p]

    def top(self, p):
        return os.path.relpath(p, self.dir).split(os.sep)[0]

    def before(self, t, name):
        sim, cfg = self.sim, self.cfg
        sim.yield_point(name)
        if cfg.get('latency') and self.final_started is None and sim.chooser.flip(cfg.get('latency_p', 0.1), 'lat'):
            sim.sleep(cfg['latency'] * (1 + sim.chooser.choose(4, 'lat')))

    final_started = None

    def fault(self, t, a, name, paths):
        if not self.faults_on:
            return
        sim, cfg = self.sim, self.cfg
        if not sim.chooser.flip(cfg['fault_p'], 'fault'):
            return
        if a is not None and a.rec is not None and a.rec.kind == 'wipe':
            return
        kinds = [k for k in cfg['fault_kinds'] if k in ('errno', 'kill')]
        if not kinds:
            return
        k = kinds[sim.chooser.choose(len(kinds), 'kind')]
        if k == 'kill':
            if self.kills >= 2 or t.process is self.net:
                return
            self.kills += 1
            sim.fault('kill')
            for o in self.by_task.values():
                if o.proc is t.process and o.rec is not None:
                    o.rec.killed = True
            sim.kill_process(t.process)
            raise SimKilled()
        es = ERRNO.get(name)
        if not es:
            return
        e = es[sim.chooser.choose(len(es), 'errno')]
        sim.fault('%s_%s' % (name, errno.errorcode[e]))
        self.note_fault(t, name)
        raise OSError(e, os.strerror(e), paths[0])

    def note_fault(self, t, name):
        a = self.by_task.get(t)
        rec = a.rec if a is not None else None
        if rec is None and isinstance(t.info, tuple):
            rec = t.info[1]
        if rec is not None:
            rec.fault += 1
            if name in ('remove', 'unlink'):
                rec.remove_fault += 1
        if name in ('remove', 'unlink'):
            self.probe('remove_fault')

    def transfer(self, f, name, arg, fn):
        t = seams._task()
        if t is None:
            return fn(f, arg)
        sim, cfg = self.sim, self.cfg
        self.before(t, name)
        self.calls += 1
        self.log.append((t.id, name, self.short(f.name) if isinstance(f.name, str) else '', arg if isinstance(arg, int) else len(arg)))
        n = arg if isinstance(arg, int) else len(arg)
        self.fault(t, self.by_task.get(t), name, [str(f.name)])
        if self.faults_on and n > 1 and sim.chooser.flip(cfg['fault_p'], 'part'):
            kinds = [k for k in cfg['fault_kinds'] if k == 'short' or k == 'cut' and name == 'write']
            if kinds:
                k = kinds[sim.chooser.choose(len(kinds), 'kind')]
                m = (1, n // 2, n - 1)[sim.chooser.choose(3, 'part')]
                m = max(1, m)
                sim.fault('%s_%s' % (k, name))
                if name == 'read':
                    return fn(f, m)
                done = fn(f, bytes(memoryview(arg)[:m]))
                if k == 'cut':
                    self.note_fault(t, name)
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                return done
        elif cfg.get('torn') and name == 'write' and n > 16 and sim.chooser.flip(0.3, 'torn'):
            # the system takes the data page by page, others may look in between
            return fn(f, bytes(memoryview(arg)[:n // 2]))
        return fn(f, arg)

    # -- the end
    def final(self):
        sim = self.sim
        while True:
            alive = [t for t in sim.tasks if t.state != 'done' and t.kind != 'final']
            if not alive:
                break
            wakes = [t.wake for t in alive if t.state == 'blocked' and t.wake is not None]
            idle = len(wakes) == len(alive) and min(wakes) - sim.now
            sim.sleep(max(0.05, idle))
        self.faults_on = False
        self.final_started = sim.next_seq()
        sim.line_gap = 0
        proc = sim.process('p9', host='h0', pid=900, image=images.pool(1)[0])
        self.check_files()
        keys = sorted({r.key for r in self.history if r.kind in ('set', 'get', 'delete')})

        def last(actor):
            for k, v in keys:
                actor.op_get(k, v)
            for k, v in keys:
                actor.op_set(k, v, 'small', 60)
                actor.op_get(k, v)
        a = Actor(self, 'last', proc, [[['call', last]]])
        t = self.start(a)
        sim.block(t)

    def check_files(self):
        """Nothing but complete values may be left behind."""
        import pickle
        import zlib
        loc = self.location
        killed = any(r.killed for r in self.history) or any(t.killed for t in self.sim.tasks)
        for d in (loc, os.path.join(self.dir, 'tmp')):
            self.inside = True
            try:
                names = sorted(os.listdir(d)) if os.path.isdir(d) else []
            finally:
                self.inside = False
            for n in names:
                if n.endswith('.djcache') and d == loc:
                    self.inside = True
                    try:
                        with _real['open'](os.path.join(d, n), 'rb') as f:
                            data = f.read()
                    finally:
                        self.inside = False
                    try:
                        b = io.BytesIO(data)
                        pickle.load(b)
                        v = pickle.loads(zlib.decompress(b.read()))
                    except Exception as e:
                        self.violation('file_partial', 'a partial value was left behind: %r' % (e,))
                        continue
                    if uid_of(v) not in self.sets or self.sets[uid_of(v)].value != v:
                        self.violation('file_partial', 'a wrong value was left behind: %r' % (v,))
                elif not killed and not self.probes.get('remove_fault'):
                    self.violation('file_stray', 'a stray file was left behind (%s)' % os.path.splitext(n)[1])
        if not killed and self.fds:
            self.violation('file_stray', '%d descriptors were left open' % len(self.fds))

    def run(self):
        self.sim.run()
        for t in self.sim.tasks:
            if t.error is not None:
                if isinstance(t.error, HarnessError):
                    raise t.error
                if t.kind == 'thread' and isinstance(t.error, EnvironmentError) and self.cfg.get('faults'):
                    continue
                tb = _tb(t.error)
                if images.REPO in tb:
                    self.violation('file_raised', 'background thread raised %r' % (t.error,), None, tb)
                else:
                    raise HarnessError('task %s: %s' % (t.name, tb))
        if self.sim.stuck:
            self.violation('stuck', self.sim.stuck)

    def close(self):
        self.closed = True
        _world[0] = None
        tempfile.tempdir = self.saved_tempdir
        for f in self.files:
            try:
                f.close()
            except Exception:
                pass
        for fd in list(self.fds):
            try:
                _real['close'](fd)
            except OSError:
                pass
        self.files = []
        shutil.rmtree(self.dir, ignore_errors=True)

    def nontrivial(self):
        return self.sim.switches > 4 and any(r.kind == 'get' and r.value is not MISS for r in self.history)

    def signature(self):
        return self.sigh.hexdigest()[:16]


# -- oracles -----------------------------------------------------------------------------------

def judge(w):
    by_key = {}
    everywhere = []
    for r in w.history:
        if r.kind in ('get', 'set', 'delete'):
            by_key.setdefault(r.key, []).append(r)
        elif r.kind in ('clear', 'wipe'):
            everywhere.append(r)
    wipes = [r for r in everywhere if r.kind == 'wipe']
    culling = len(by_key) >= w.cfg.get('max_entries', 1000)

    def sure(o):
        """The effect of the operation certainly took place before its end."""
        return o.ok and not o.fault and not o.killed and not (
            o.kind == 'set' and any(x.start < o.stop() and o.start < x.stop() for x in wipes))
    for key, recs in by_key.items():
        sets = [r for r in recs if r.kind == 'set']
        gets = [r for r in recs if r.kind == 'get' and r.end is not None and not r.killed]
        ends = [r for r in recs if r.kind in ('set', 'delete') and sure(r)] + [r for r in everywhere if r.kind == 'clear' and sure(r)]
        for g in gets:
            if g.value is MISS:
                w.probe('miss')
                lost(w, g, sets, recs, everywhere, gets, sure, culling)
                continue
            w.probe('hit')
            v = g.value
            s = w.sets.get(uid_of(v)) if uid_of(v) is not None else None
            if s is None or s.value != v or type(s.value) is not type(v):
                w.violation('file_wrong', 'get of %r returned %s' % (key, repr(v)[:120]), g)
                continue
            if s.key != key:
                w.violation('file_wrong', 'get of %r returned a value stored under %r' % (key, s.key), g)
                continue
            if s.ttl is not None and g.t_start > (s.t_end if s.t_end is not None else s.t_start) + max(0, s.ttl) + 1e-3:
                w.violation('file_expired', 'value %d of %r was read %.3f s after its timeout' % (
                    s.uid, key, g.t_start - s.t_end - s.ttl), g)
            for o in ends:
                if o is not s and s.stop() < o.start and o.end < g.start:
                    w.violation('file_old', 'value %d of %r [%s,%s] was read at [%s,%s] after a later %s [%s,%s]' % (
                        s.uid, key, s.start, s.end, g.start, g.end, o.kind, o.start, o.end), g)
                    break
            for g2 in gets:
                if g2.value is not MISS and g2.end < g.start:
                    s2 = w.sets.get(uid_of(g2.value))
                    if s2 is not None and s2 is not s and s2.key == key and s.stop() < s2.start:
                        w.violation('file_old', 'value %d of %r was read [%s,%s] after the later value %d was [%s,%s]' % (
                            s.uid, key, g.start, g.end, s2.uid, g2.start, g2.end), g)
                        break


def lost(w, g, sets, recs, everywhere, gets, sure, culling):
    """A miss must have a reason."""
    if culling or g.fault or g.killed:
        return
    for s in sets:
        if not sure(s) or s.payload == 'bad' or not s.stop() < g.start:
            continue
        if s.ttl is not None and g.t_end >= s.t_start + s.ttl - 1e-3:
            continue
        # anything which may have removed it
        if any(o is not s and o.kind in ('set', 'delete') and o.stop() > s.start and o.start < g.end and not keeps(o, g)
               for o in recs if o.kind in ('set', 'delete')):
            continue
        if any(o.stop() > s.start and o.start < g.end for o in everywhere):
            continue
        # a reader of the previous value which had expired may delete the new one (Django's backend does so)
        if any(o.ttl is not None and o.t_start + o.ttl <= g.t_end and o is not s for o in sets) and any(
                r.start < s.stop() and r.stop() > s.start for r in recs + w.history
                if r.kind in ('get', 'getmany') and r is not g):
            continue
        w.violation('file_lost', 'value %d of %r stored [%s,%s] with timeout %s was not found at [%s,%s]' % (
            s.uid, s.key, s.start, s.end, s.ttl, g.start, g.end), g)
        return


def keeps(o, g):
    """The operation can not make the key disappear: it replaces the value by one which is readable, at once."""
    return o.kind == 'set' and o.ok and not o.fault and not o.killed and o.payload != 'bad' and (
        o.ttl is None or o.t_start + o.ttl > g.t_end + 1e-3)


# -- scenarios ---------------------------------------------------------------------------------

FILE = dict(
    n_procs=((1, 1), (2, 3), (3, 2)),
    n_actors=((2, 3), (3, 3), (4, 1)),
    n_keys=((1, 3), (2, 2), (4, 1)),
    n_reqs=((1, 1), (2, 1)),
    n_ops=((2, 2), (4, 3), (7, 1)),
    ttls=((60, 4), ('default', 1), (None, 1), (5, 1), (1, 1), (0, 0.3), (-1, 0.2)),
    payloads=(('small', 3), ('dict', 1), ('text', 1), ('bytes', 2), ('big', 1)),
    ops=dict(set=5, get=5, setmany=0.6, getmany=0.8, delete=0.8, clear=0.2, wipe=0, sleep=1, bad=0.3),
    sleeps=(0.001, 0.5, 1.001, 5.0, 61.0, 301.0),
    faults=0.0,
    fault_p=(0.01, 0.05, 0.15),
    fault_kinds=FAULTS,
    cull=0.25,
    latency=0.2,
    line=0.1,
    versions=((None, 3), (2, 1)),
)


def profile(**kw):
    p = dict(FILE)
    ops = kw.pop('ops', None)
    p.update(kw)
    if ops:
        p['ops'] = dict(FILE['ops'], **ops)
    return p


class FileGen(Gen):
    def scenario(self):
        p, rng = self.p, self.rng
        cfg = {'switch_p': rng.choice((0.1, 0.3, 0.5, 0.8)), 'policy': 'prio' if self.flip(0.25) else 'random',
               'max_steps': 60000, 'torn': self.flip(0.5), 'default_timeout': rng.choice((300, 300, 7, None))}
        if self.flip(p['latency']):
            cfg['latency'] = rng.choice((0.001, 0.05))
            cfg['latency_p'] = rng.choice((0.05, 0.2))
        if self.flip(p['faults']):
            cfg['faults'] = True
            cfg['fault_p'] = rng.choice(p['fault_p'])
            cfg['fault_kinds'] = [k for k in p['fault_kinds'] if self.flip(0.5)] or [rng.choice(p['fault_kinds'])]
        if self.flip(p['line']):
            cfg['line_gap'] = rng.choice((5, 20))
        if self.flip(p['cull']):
            cfg['max_entries'] = rng.choice((1, 2, 3))
            cfg['cull_frequency'] = rng.choice((0, 1, 2, 3))
        keys = ['k%d' % i for i in range(self.pick(p['n_keys']))]
        ops = dict(p['ops'])
        for k in list(ops):
            if k not in ('set', 'get') and self.flip(0.2):
                ops[k] = 0
        procs = [{} for _ in range(self.pick(p['n_procs']))]

        def op():
            k = self.pick(tuple(ops.items()))
            key, v = rng.choice(keys), self.pick(p['versions'])
            ks = sorted(rng.sample(keys, rng.randint(1, len(keys))))
            if k == 'set':
                return ['set', key, v, self.pick(p['payloads']), self.pick(p['ttls'])]
            if k == 'bad':
                return ['set', key, v, 'bad', 60]
            if k == 'get':
                return ['get', key, v]
            if k == 'setmany':
                return ['setmany', ks, v, self.pick(p['payloads']), rng.choice((60, 5, None))]
            if k == 'getmany':
                return ['getmany', ks, v]
            if k == 'delete':
                return ['delete', key, v]
            if k == 'sleep':
                return ['sleep', rng.choice(p['sleeps'])]
            return [k]
        actors = [{'proc': rng.randrange(len(procs)),
                   'reqs': [[op() for _ in range(self.pick(p['n_ops']))] for _ in range(self.pick(p['n_reqs']))]}
                  for _ in range(self.pick(p['n_actors']))]
        return {'cfg': cfg, 'procs': procs, 'actors': actors, 'rseed': rng.randrange(10 ** 9)}
