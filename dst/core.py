"""The core world: actors in simulated processes use the cache API against a simulated server.

A scenario is a JSON document (configuration, processes, actors with their
programs).  Running it yields a history of records; dst/oracles.py judges it.
"""
import hashlib
import os
import sys

from . import bindings, engine, images, models, seams
from .models import model_tags
from .engine import HarnessError, Process, Sim, SimKilled, atomic
from .server import Server, SimBackendError

INF = float('inf')


class AppError(Exception):
    """Raised by the simulated application."""


class AppExit(BaseException):
    """A BaseException raised by the simulated application (like SystemExit, GeneratorExit)."""


class Miss(object):
    def __repr__(self):
        return 'MISS'


class Nothing(Miss):
    """A default which is false."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__


MISS = Miss()
NOTHING = Nothing()


class Obj(object):
    """A user-defined value."""

    def __init__(self, uid):
        self.uid = uid

    def __repr__(self):
        return 'Obj(%r)' % (self.uid,)


class Empty(Obj):
    """A user-defined value which is false."""

    def __len__(self):
        return 0

    def __repr__(self):
        return 'Empty(%r)' % (self.uid,)


def make_payload(uid, kind):
    k = kind
    if k == 'str':
        return 'v%d' % uid
    if k == 'dict':
        return {'uid': uid, 'n': [uid, None]}
    if k == 'list':
        return [uid, 'x', (uid,)]
    if k == 'tuple':
        return (uid, 'y')
    if k == 'int':
        return 1000 + uid
    if k == 'bytes':
        return b'b%d' % uid
    if k == 'inner':
        return {'__value': uid, 'other': 1}
    if k == 'packed':
        return {'__value': uid, '__dependency': 'fake'}
    if k == 'obj':
        return Obj(uid)
    if k == 'fobj':
        return Empty(uid)
    if k == 'nested':
        return {'a': {'uid': uid, 'b': [None, False, 0, '']}, 'c': (uid, [])}
    if k == 'zero':
        return 0
    if k == 'false':
        return False
    if k == 'empty':
        return ''
    if k == 'elist':
        return []
    if k == 'edict':
        return {}
    if k == 'none':
        return None
    raise HarnessError(k)


UNIQUE_KINDS = ('str', 'dict', 'list', 'tuple', 'int', 'bytes', 'inner', 'packed', 'obj', 'fobj', 'nested')
FALSY_KINDS = ('zero', 'false', 'empty', 'elist', 'edict', 'none')


def canon(value):
    return type(value).__name__ + ':' + repr(value)


class Rec(object):
    """One record of the history."""
    _defaults = dict(end=None, t_end=None, ok=None, fault=False, error=None, late_end=0, late_t=0.0)

    def __init__(self, kind, w, actor, **kw):
        self.__dict__.update(self._defaults)
        self.kind = kind
        self.actor = actor
        self.start = w.sim.next_seq()
        self.t_start = w.sim.now
        self.__dict__.update(kw)

    def close(self, w):
        if self.end is None:
            self.end = w.sim.next_seq()
            self.t_end = w.sim.now

    def eff_end(self):
        """When the effects of the call certainly ended."""
        if self.end is None:
            return INF
        return max(self.end, self.late_end)

    def __repr__(self):
        return '<%s %s>' % (self.kind, ' '.join('%s=%r' % (k, v) for k, v in sorted(self.__dict__.items())
                                                if k not in ('kind',)))


class TxModel(object):
    """The outermost transaction of one thread on one alias."""

    def __init__(self, w, actor, alias):
        self.actor = actor
        self.alias = alias
        self.depth = 0
        self.begin_start = w.sim.next_seq()
        self.t_begin_start = w.sim.now
        self.raw_begin_start = w.sim.now + actor.proc.skew
        self.begin_end = None
        self.t_begin_end = None
        self.raw_begin_end = None
        self.tags = {}          # normalized version -> set of tags (invalidations which succeeded)
        self.may = {}           # the same with the invalidations which failed
        self.invs = []
        self.fin = None

    def began(self, w):
        self.begin_end = w.sim.next_seq()
        self.t_begin_end = w.sim.now
        self.raw_begin_end = w.sim.now + self.actor.proc.skew


class Window(object):
    __slots__ = ('version', 'seq', 'contrib')

    def __init__(self, version, seq):
        self.version = version
        self.seq = seq
        self.contrib = {}     # raw version -> set


class RelModel(object):
    """What the computations open in one thread on one alias must (L) and may (U) have inherited."""

    def __init__(self):
        self.L = {}       # key -> Window
        self.U = {}       # key -> {norm version: set}
        self.last_begin = {}   # key -> seq of the last begin

    def begin(self, key, version, seq, firm, batch=False):
        if batch and (key not in self.U or key not in self.last_begin):
            # A batch read begins no computation.
            self.U.setdefault(key, {})
            self.last_begin.pop(key, None)
            return
        self.U.setdefault(key, {})
        if firm:
            if key not in self.L:
                self.L[key] = Window(version, seq)
            elif self.L[key].version != version:
                # one computation of the key under two versions at once: nothing is promised
                self.L[key].version = '?'
        self.last_begin[key] = seq

    def hit(self, key, version, nversion, effL, effU, counts):
        self._close(key)
        if counts:
            for w in self.L.values():
                w.contrib.setdefault(version, set()).update(effL)
        for u in self.U.values():
            u.setdefault(nversion, set()).update(effU)

    def store(self, key, version, nversion, given):
        """-> (effL, effU) of the stored value."""
        given = frozenset(given)
        own = self.L.get(key)
        effL = set(given)
        if own is not None and own.version == version:
            effL |= own.contrib.get(version, set())
        effU = set(given) | self.U.get(key, {}).get(nversion, set())
        last = self.last_begin.get(key) if key in self.U else None
        self._close(key)
        return frozenset(effL), frozenset(effU), last

    def stored(self, version, nversion, effL, effU, last, firm):
        for w in self.L.values():
            if firm and (last is None or last > w.seq):
                w.contrib.setdefault(version, set()).update(effL)
        for u in self.U.values():
            u.setdefault(nversion, set()).update(effU)

    def _close(self, key):
        self.L.pop(key, None)
        self.U.pop(key, None)

    abort = _close

    def forget_since(self, seq):
        """Nothing is promised for computations begun since then and left unfinished."""
        for k in list(self.L):
            if self.L[k].seq > seq:
                del self.L[k]

    def clear(self):
        self.L.clear()
        self.U.clear()
        self.last_begin.clear()


class Actor(object):
    def __init__(self, world, name, proc, program, kind='actor'):
        self.w = world
        self.name = name
        self.proc = proc
        self.program = program
        self.kind = kind
        self.task = None
        self.rel = {}
        self.tx = {}
        self.cur = []        # records of the calls in progress
        self.ignore = {}
        self.held = []
        self.ncalls = 0

    # -- helpers --------------------------------------------------------------------
    def relm(self, alias):
        r = self.rel.get(alias)
        if r is None:
            r = self.rel[alias] = RelModel()
        return r

    def nv(self, alias, v):
        return bindings.DEFAULT_VERSION[alias] if v is None else v

    def cache(self, alias):
        if alias == 'proxy':
            return self.proc.binding.default_proxy()
        return self.proc.binding.cache(alias)

    def real_alias(self, alias):
        return 'default' if alias == 'proxy' else alias

    def rec(self, kind, **kw):
        r = Rec(kind, self.w, self, **kw)
        self.w.history.append(r)
        return r

    # -- program --------------------------------------------------------------------
    def main(self):
        try:
            for req in self.program:
                self.request(req)
        finally:
            if self.w.registered:
                models.release()

    def request(self, ops):
        try:
            self.ops(ops)
        except (AppError, AppExit, SimBackendError):
            pass
        self.close_all()

    def ops(self, ops):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])

    def call(self, rec, fn, *a, **kw):
        """Runs one call of the API, recording its outcome."""
        self.cur.append(rec)
        try:
            res = fn(*a, **kw)
            rec.ok = True
            return res
        except SimKilled:
            rec.ok = False
            rec.error = 'killed'
            raise
        except BaseException as e:
            rec.ok = False
            rec.error = type(e).__name__
            self.classify(rec, e)
            raise
        finally:
            rec.close(self.w)
            self.cur.pop()

    def classify(self, rec, e):
        if isinstance(e, (AppError, AppExit)):
            if getattr(rec, 'app_ok', False):
                return
            self.w.violation('exception', '%s raised application error %r by itself' % (rec.kind, e), rec)
        elif isinstance(e, SimBackendError):
            if not rec.fault:
                self.w.violation('exception', '%s raised %r without a failure of the backend' % (rec.kind, e), rec)
        elif isinstance(e, (HarnessError, engine.SimStuck)):
            return
        else:
            import traceback
            self.w.violation('exception', '%s raised %s' % (
                rec.kind, ''.join(traceback.format_exception_only(type(e), e)).strip()), rec,
                tb=traceback.format_exc())

    # -- reads ----------------------------------------------------------------------
    def op_get(self, alias, key, version=None, abort=False, default=True):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        kw = {}
        if version is not None:
            kw['version'] = version
        if abort:
            kw['abort'] = True
        if default:
            kw['default'] = NOTHING if default == 'falsy' else MISS
        rec = self.rec('get', alias=alias, key=key, v=self.nv(alias, version), abort=abort, mode='get',
                       default=bool(default), calls=0)
        rel = self.relm(alias)
        quiet = abort or self.ignore.get(alias)
        if not quiet:
            rel.begin(key, version, rec.start, False)
        value = self.call(rec, c.get, key, **kw)
        self.w.judge_calls(rec, 3)
        if isinstance(value, Miss) and value is not kw.get('default'):
            self.w.violation('wrong', 'get returned default of another call', rec)
        if isinstance(value, Miss) or (value is None and not default):
            rec.value = MISS
            rec.uncertain = value is None
            if value is None:
                self.maybe_none(rel, self.real_alias(alias), key, self.nv(alias, version))
            if not quiet:
                rel.begin(key, version, rec.start, True)
                if value is None:
                    rel.U.setdefault(key, {})
        else:
            self.got(rec, value, rel, alias, key, version, not quiet)
            if value is None and not quiet:
                rel.begin(key, version, rec.end, True)
        return rec

    def got(self, rec, value, rel, alias, key, version, counts):
        rec.value = value
        rec.uncertain = False
        rec.canon = canon(value)
        cands = self.w.candidates(rec)
        if cands:
            effL = frozenset.intersection(*[s.effL for s in cands])
            effU = frozenset().union(*[s.effU for s in cands])
        else:
            effL = effU = frozenset()
        rel.hit(key, version, self.nv(alias, version), effL, effU, counts)

    def maybe_none(self, rel, alias, key, nv):
        """A read which could not tell a cached None from a miss: perhaps it was a hit."""
        for r in self.w.history:
            if r.kind == 'set' and r.alias == alias and r.v == nv and r.key == key and r.value is None:
                for u in rel.U.values():
                    u.setdefault(nv, set()).update(r.effU)
                rel.L.pop(key, None)

    def op_many(self, alias, keys, version=None, abort=False, form='list'):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        kw = {}
        if version is not None:
            kw['version'] = version
        if abort:
            kw['abort'] = True
        arg = {'list': list, 'tuple': tuple, 'set': dict.fromkeys, 'iter': iter, 'gen': lambda x: (i for i in x)}[form](
            keys)
        if form == 'set':
            arg = arg.keys()
        main = self.rec('many', alias=alias, calls=0, app_ok=False)
        rel = self.relm(alias)
        quiet = abort or self.ignore.get(alias)
        fresh = [key for key in keys if key not in rel.U]
        if not quiet:
            for key in keys:
                rel.begin(key, version, main.start, False, True)
        res = self.call(main, c.get_many, arg, **kw)
        for key in fresh:
            # One cached value of the batch is not used to compute another one of the same batch.
            rel.U.pop(key, None)
        self.w.judge_calls(main, 3)
        extra = [k for k in res if k not in keys]
        if extra:
            self.w.violation('wrong', 'get_many returned keys %r which were not asked for' % (extra,), main)
        for key in sorted(set(keys)):
            r = Rec('get', self.w, self, alias=alias, key=key, v=self.nv(alias, version), abort=abort, mode='many',
                    default=True, calls=0)
            r.start, r.t_start, r.end, r.t_end, r.ok, r.fault = (
                main.start, main.t_start, main.end, main.t_end, True, main.fault)
            self.w.history.append(r)
            if key in res:
                self.got(r, res[key], rel, alias, key, version, not quiet)
            else:
                r.value = MISS
                r.uncertain = False
        if not quiet:
            for key in fresh:
                if key not in res:
                    rel.U.setdefault(key, {})
        return res

    def op_cmp(self, alias, keys, version=None):
        """A batch read and individual reads at the same moment."""
        c = self.cache(alias)
        alias = self.real_alias(alias)
        kw = {} if version is None else {'version': version}
        rec = self.rec('cmp', alias=alias, calls=0)
        with atomic(self.w.sim):
            order = len(keys) > 1 and keys[0] > keys[-1]

            def many():
                return self.call(rec, c.get_many, list(keys), abort=True, **kw)

            def single():
                return {k: self.call(rec, c.get, k, default=MISS, abort=True, **kw) for k in keys}
            if order:
                res = many()
                one = single()
            else:
                one = single()
                res = many()
        rel = self.relm(alias)
        nv = self.nv(alias, version)
        for k in set(keys):
            if one[k] is not MISS:
                effU = frozenset().union(*[s.effU for s in self.w.history if s.kind == 'set' and (
                    s.alias, s.v, s.key) == (alias, nv, k)])
                rel.hit(k, version, nv, frozenset(), effU, False)
        one = {k: v for k, v in one.items() if v is not MISS}
        if {k: canon(v) for k, v in res.items()} != {k: canon(v) for k, v in one.items()}:
            self.w.violation('batch', 'get_many(%r) returned %r but individual reads %r' % (keys, res, one), rec)
        self.w.probe('cmp_hits' if res else 'cmp_empty')

    # -- writes ---------------------------------------------------------------------
    def shared_dependency(self, tags, composite):
        """An object which the application keeps and passes again and again."""
        d = self.proc.image['cache_dependencies.dependencies']
        k = (id(self.proc.image), tuple(tags), composite)
        if k not in self.w.shared_deps:
            dep = d.TagsDependency(*tags)
            self.w.shared_deps[k] = d.CompositeDependency(dep) if composite else dep
        return self.w.shared_deps[k]

    def _set_rec(self, alias, key, version, tags, ttl, value, mode, **kw):
        tx = self.tx.get(alias)
        raw = self.w.sim.now + self.proc.skew
        r = self.rec('set', alias=alias, key=key, v=self.nv(alias, version), given=frozenset(tags), ttl=ttl,
                     canon=canon(value), mode=mode, tx=tx, applied=None, t_applied=None, effL=frozenset(tags),
                     effU=frozenset(tags), calls=0, raw_start=raw, value=value, native=False)
        r.__dict__.update(kw)
        return r

    def do_store(self, alias, key, version, value, tags, ttl, form):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        tags = list(tags)
        rel = self.relm(alias)
        nv = self.nv(alias, version)
        args, kw = [], {}
        if form == 'kw':
            kw['tags'] = tags
            if ttl is not None:
                kw['timeout'] = ttl
            if version is not None:
                kw['version'] = version
        elif form == 'pos':
            args = [tuple(tags), ttl, version]
        elif form in ('set', 'fset', 'list'):
            args = [{'set': set, 'fset': frozenset, 'list': list}[form](tags)]
            if ttl is not None:
                kw['timeout'] = ttl
            if version is not None:
                kw['version'] = version
        elif form == 'dep':
            args = [self.proc.image['cache_dependencies.dependencies'].TagsDependency(*tags), ttl, version]
        elif form == 'depc':
            d = self.proc.image['cache_dependencies.dependencies']
            parts = [d.TagsDependency(t) for t in tags] + [d.DummyDependency()]
            args = [d.CompositeDependency(*parts)]
            if ttl is not None:
                kw['timeout'] = ttl
            if version is not None:
                kw['version'] = version
        elif form == 'wrap':         # API of the wrapper, which takes dependencies only
            c = c.cache
            d = self.proc.image['cache_dependencies.dependencies']
            if tags:
                kw['dependency'] = d.TagsDependency(*tags)
            if ttl is not None:
                kw['timeout'] = ttl
            if version is not None:
                kw['version'] = version
        elif form == 'wrapc':
            c = c.cache
            d = self.proc.image['cache_dependencies.dependencies']
            args = [d.CompositeDependency(*[d.TagsDependency(t) for t in tags]), ttl, version]
        elif form in ('shared', 'sharedc'):
            args = [self.shared_dependency(tags, form == 'sharedc'), ttl, version]
        elif form == 'native':       # set(key, value, timeout[, version])
            tags = []
            if ttl is None:
                ttl = 100
            args = [ttl] if version is None else [ttl, version]
        elif form == 'notags':
            tags = []
            if ttl is not None:
                kw['timeout'] = ttl
            if version is not None:
                kw['version'] = version
        else:
            raise HarnessError(form)
        rec = self._set_rec(alias, key, version, tags, ttl, value, 'set:' + form)
        last = self._model_store(rec, rel, key, version, nv, tags)
        try:
            self.call(rec, c.set, key, value, *args, **kw)
        finally:
            rec.raw_end = self.w.sim.now + self.proc.skew
            rel.stored(version, nv, rec.effL, rec.effU, last, bool(rec.ok))
        self.w.judge_calls(rec, 5)
        return rec

    def _model_store(self, rec, rel, key, version, nv, tags):
        rec.effL, rec.effU, last = rel.store(key, version, nv, tags)
        return last

    def op_set(self, alias, key, version, tags, ttl, form, pk):
        self.do_store(alias, key, version, self.w.payload(pk), tags, ttl, form)

    def op_raw(self, alias, key, version, ttl, how, pk):
        """Native methods of the backend."""
        c = self.cache(alias)
        alias = self.real_alias(alias)
        value = self.w.payload(pk)
        rec = self._set_rec(alias, key, version, (), ttl, value, 'raw:' + how, native=True)
        kw = {} if version is None else {'version': version}
        if ttl is not None:
            kw['timeout'] = ttl
        if how == 'add':
            added = self.call(rec, c.add, key, value, **kw)
            rec.added = bool(added)
        else:
            self.call(rec, c.set_many, {key: value}, **kw)
        rec.raw_end = self.w.sim.now + self.proc.skew

    def op_native(self, alias, version=None):
        """Native methods of the backend, all at one moment, compared with a dictionary."""
        if self.w.cfg.get('faults'):
            return
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rec = self.rec('native', alias=alias, calls=0)
        nv = self.nv(alias, version)
        kw = {} if version is None else {'version': version}
        self.w.uid += 1
        n, key = self.w.uid, 'kn%d' % self.w.uid

        def expect(what, got, wanted):
            if got != wanted:
                self.w.violation('wrong', 'native %s of version %s returned %r instead of %r' % (what, version, got, wanted), rec)

        def get(v):
            return self.call(rec, c.get, key, version=v, default=None, abort=True)

        with atomic(self.w.sim):
            try:
                self.call(rec, c.incr, key, 1, **kw)
                expect('incr of nothing', 'a value', 'ValueError')
            except ValueError:
                del self.w.violations[-1:]    # the expected error
            self.call(rec, c.set_many, {key: n}, timeout=100, **kw)
            expect('get after set_many', (get(version), get(nv), get(nv + 1)), (n, n, None))
            expect('incr', self.call(rec, c.incr, key, 2, **kw), n + 2)
            expect('decr', self.call(rec, c.decr, key, **kw), n + 1)
            expect('get after decr', (get(version), get(nv), get(nv + 1)), (n + 1, n + 1, None))
            expect('has_key', (self.call(rec, c.has_key, key, **kw), self.call(rec, c.has_key, key, version=nv + 1)),
                   (True, False))
            expect('incr_version', self.call(rec, c.incr_version, key, **kw), nv + 1)
            expect('get after incr_version', (get(version), get(nv + 1)), (None, n + 1))
            expect('decr_version', self.call(rec, c.decr_version, key, version=nv + 1), nv)
            expect('get after decr_version', (get(version), get(nv + 1)), (n + 1, None))
            self.call(rec, c.delete_many, [key], version=nv + 1)
            expect('get after delete_many of another version', get(version), n + 1)
            self.call(rec, c.set_many, {key: n + 5}, timeout=100, version=nv + 1)
            self.call(rec, c.delete_many, [key], **kw)
            expect('get after delete_many', (get(version), get(nv + 1)), (None, n + 5))
            self.call(rec, c.delete, key, version=nv + 1)
        rec.close(self.w)

    def op_delete(self, alias, key, version=None):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rec = self.rec('delete', alias=alias, key=key, v=self.nv(alias, version))
        self.call(rec, c.delete, key, **({} if version is None else {'version': version}))

    def op_clear(self, alias):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rec = self.rec('clear', alias=alias)
        self.call(rec, c.clear)

    # -- computations ---------------------------------------------------------------
    def op_comp(self, alias, key, version, tags, ttl, form, pk, body, outcome, addtags=()):
        """read; on a miss compute (body) and store."""
        rec = self.op_get(alias, key, version, False, pk != 'none')
        if rec.value is not MISS and rec.value is not None:
            return
        self.ops(body)
        if outcome == 'raise':
            raise AppError()
        if outcome == 'abort':
            c = self.cache(alias)
            r = self.rec('abort')
            self.call(r, c.abort, key)
            self.relm(self.real_alias(alias)).abort(key)
            return
        if outcome == 'skip':
            return
        self.do_store(alias, key, version, self.w.payload(pk), tags, ttl, form)

    def op_gos(self, alias, key, version, tags, ttl, pk, body, outcome, form='pos'):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rel = self.relm(alias)
        nv = self.nv(alias, version)
        get = self.rec('get', alias=alias, key=key, v=nv, abort=False, mode='gos', default=False, calls=0,
                       app_ok=True)
        quiet = self.ignore.get(alias)
        if not quiet:
            rel.begin(key, version, get.start, False)
        st = {'ran': 0, 'value': None, 'exc': None, 'set': None, 'last': None}
        self.cur.append(get)
        token = object()

        def callback(*a, **kw):
            st['ran'] += 1
            if a != (token,) or kw != {'x': 5}:
                self.w.violation('wrong', 'get_or_set_callback passed arguments %r %r' % (a, kw), get)
            get.ok = True
            get.value = MISS
            get.uncertain = True       # a cached None is not distinguished
            get.close(self.w)
            self.cur.remove(get)
            self.maybe_none(rel, alias, key, nv)
            if not quiet:
                rel.begin(key, version, get.start, True)
            try:
                self.ops(body)
                if outcome == 'raise':
                    raise AppError()
                if outcome == 'exit':
                    raise AppExit()
            except SimKilled:
                raise
            except BaseException as e:
                st['exc'] = e
                raise
            st['value'] = self.w.payload(pk)
            srec = self._set_rec(alias, key, version, tags, ttl, st['value'], 'gos')
            st['last'] = self._model_store(srec, rel, key, version, nv, tags)
            st['set'] = srec
            self.cur.append(srec)
            return st['value']
        try:
            if form == 'kw':
                kw = {'tags': tuple(tags), 'args': (token,), 'kwargs': {'x': 5}}
                if ttl is not None:
                    kw['timeout'] = ttl
                if version is not None:
                    kw['version'] = version
                value = c.get_or_set_callback(key, callback, **kw)
            elif form == 'wrap':
                d = self.proc.image['cache_dependencies.dependencies']
                value = c.cache.get_or_set_callback(key, callback, d.TagsDependency(*tags) if tags else None, ttl, version,
                                                    (token,), {'x': 5})
            elif form == 'shared':
                value = c.get_or_set_callback(key, callback, self.shared_dependency(tags, False), ttl, version, [token],
                                              {'x': 5})
            else:
                value = c.get_or_set_callback(key, callback, list(tags), ttl, version, [token], {'x': 5})
            ok, err = True, None
        except SimKilled:
            ok, err = False, 'killed'
            raise
        except BaseException as e:
            ok, err = False, type(e).__name__
            active = st['set'] or get
            if st['exc'] is not None and st['set'] is None:
                if e is not st['exc']:
                    self.w.violation('txexc', 'get_or_set_callback raised %r instead of %r' % (e, st['exc']), get)
                rel.abort(key)
                rel.forget_since(get.start)
            else:
                self.classify(active, e)
            raise
        finally:
            if st['set'] is not None:
                r = st['set']
                r.ok, r.error = ok, err
                r.close(self.w)
                r.raw_end = self.w.sim.now + self.proc.skew
                if r in self.cur:
                    self.cur.remove(r)
                rel.stored(version, nv, r.effL, r.effU, st['last'], bool(ok))
            elif not st['ran']:
                get.ok, get.error = ok, err
                get.close(self.w)
            if get in self.cur:
                self.cur.remove(get)
        if st['ran'] > 1:
            self.w.violation('wrong', 'callback ran %d times' % st['ran'], get)
        if st['ran']:
            if value is not st['value']:
                self.w.violation('wrong', 'get_or_set_callback returned %r instead of result of callback %r' % (
                    value, st['value']), get)
        else:
            self.got(get, value, rel, alias, key, version, not quiet)
            if value is None:
                self.w.violation('wrong', 'get_or_set_callback returned None without running callback', get)
        self.w.probe('gos_miss' if st['ran'] else 'gos_hit')

    def op_try(self, body):
        try:
            self.ops(body)
        except (AppError, AppExit, SimBackendError):
            self.w.probe('caught')

    def op_raise(self, exit=False):
        raise AppExit() if exit else AppError()

    def op_ignore(self, alias, flag):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        c.ignore_descendants = bool(flag)
        self.ignore[alias] = bool(flag)

    # -- invalidation and transactions ------------------------------------------------
    def op_inval(self, alias, tags, version=None, form='args'):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        tx = self.tx.get(alias)
        nv = self.nv(alias, version)
        rec = self.rec('inv', alias=alias, v=nv, tags=frozenset(tags), tx=tx, calls=0)
        kw = {} if version is None else {'version': version}
        if tx is not None:
            tx.may.setdefault(nv, set()).update(tags)
            tx.invs.append(rec)
        if form == 'args':
            args = list(tags)
        elif form == 'list':
            args = [list(tags)]
        elif form in ('set', 'fset', 'tuple'):
            args = [{'set': set, 'fset': frozenset, 'tuple': tuple}[form](tags)]
        elif form in ('shared', 'sharedc'):
            args = [self.shared_dependency(tags, form == 'sharedc')]
        else:
            d = self.proc.image['cache_dependencies.dependencies']
            args = [d.TagsDependency(*tags)]
        self.call(rec, c.cache.invalidate_dependency if form == 'wrap' else c.invalidate_tags, *args, **kw)
        if tx is not None and rec.ok:
            tx.tags.setdefault(nv, set()).update(tags)
        self.w.judge_calls(rec, 2 if tx is None else 2 + 2 * tx.depth)

    def op_model(self, what, which, pk, grp):
        """Saves or deletes an instance of a registered model."""
        model = self.proc.models[which]
        if what == 'qdelete':
            grp = 0        # (what is in the database)
        per = {}
        for regs in self.w.sc['registrations']:
            for idx, form, tags, alias in regs:
                if idx == which:
                    ts = model_tags(tags, pk, grp, what == 'create' if form == 'created' else False)
                    per.setdefault(self.real_alias(alias or 'default'), set()).update(ts)
        recs = []
        for alias, ts in sorted(per.items()):
            tx = self.tx.get(alias)
            nv = self.nv(alias, None)
            rec = self.rec('inv', alias=alias, v=nv, tags=frozenset(ts), tx=tx, calls=0)
            if tx is not None:
                tx.may.setdefault(nv, set()).update(ts)
                tx.invs.append(rec)
            recs.append(rec)
        top = self.rec('model', app_ok=False)
        self.cur.extend(recs)

        def run():
            if what == 'delete':
                obj = model(pk=pk, grp=grp)
                obj.delete()
            elif what == 'qdelete':
                model.objects.filter(pk=pk).delete()
            elif what == 'create':
                model(pk=pk, grp=grp).save(force_insert=True)
            elif what == 'raw':      # as a fixture is loaded
                model(pk=pk, grp=grp).save_base(raw=True)
            elif what == 'fields':
                model(pk=pk, grp=grp).save(update_fields=['grp'])
            elif what == 'uoc':
                model.objects.update_or_create(pk=pk, defaults={'grp': grp})
            else:
                obj = model(pk=pk, grp=grp)
                obj.save()
        try:
            models.prepare(model, self.w, pk, what)
            self.call(top, run)
        finally:
            for rec in recs:
                rec.ok = bool(top.ok)
                rec.error = top.error
                rec.close(self.w)
                self.cur.remove(rec)
                if rec.ok and rec.tx is not None:
                    rec.tx.tags.setdefault(rec.v, set()).update(rec.tags)

    def _tx_begin(self, alias):
        tx = self.tx.get(alias)
        if tx is None:
            tx = self.tx[alias] = TxModel(self.w, self, alias)
        tx.depth += 1
        return tx

    def _tx_began(self, alias, expect):
        tx = self.tx.get(self.real_alias(alias))
        if tx.begin_end is None:
            tx.began(self.w)
        cur = self.cache(alias).transaction.current()
        if not cur:
            self.w.violation('tx', 'not inside of a transaction after it began')
        elif expect is not None and cur is expect:
            self.w.violation('tx', 'nested begin did not open a scope')

    def _fin_start(self, alias, whole=False):
        """The outermost scope (or all of them) is about to be finished."""
        tx = self.tx.get(alias)
        rec = None
        if tx is not None:
            tx.depth -= 1
            if tx.depth <= 0 or whole:
                rec = self.rec('fin', alias=alias, tx=tx, tags={v: frozenset(t) for v, t in tx.tags.items()},
                               may={v: frozenset(t) for v, t in tx.may.items()},
                               raw_start=self.w.sim.now + self.proc.skew, timers=[], app_ok=True, calls=0)
                tx.fin = rec
                del self.tx[alias]
        if rec is None:
            rec = self.rec('fin0', alias=alias, tags={}, may={}, app_ok=True, calls=0)
        self.cur.append(rec)
        return rec

    def _fin_end(self, alias, rec, error):
        rec.ok = error is None
        rec.error = None if error is None else type(error).__name__
        rec.raw_end = self.w.sim.now + self.proc.skew
        rec.close(self.w)
        if rec in self.cur:
            self.cur.remove(rec)
        tx = self.tx.get(alias)
        cur = self.cache(alias).transaction.current()
        if bool(cur) != (tx is not None):
            self.w.violation('tx', 'thread is %s a transaction after finishing, expected %s it' % (
                'inside of' if cur else 'outside of', 'inside of' if tx is not None else 'outside of'), rec)

    def op_tx(self, alias, how, body, outcome='ok'):
        palias = alias
        alias = self.real_alias(alias)
        c = self.cache(palias)
        depth0 = self.tx[alias].depth if alias in self.tx else 0
        cur0 = c.transaction.current() if depth0 else None
        self._tx_begin(alias)
        st = {'body': None, 'fin': None, 'result': object(), 'entered': False}

        def inner(*a, **kw):
            st['entered'] = True
            self._tx_began(palias, cur0)
            try:
                self.ops(body)
                if outcome == 'raise':
                    raise AppError()
                if outcome == 'exit':
                    raise AppExit()
            except SimKilled:
                raise
            except BaseException as e:
                st['body'] = e
                raise
            finally:
                if how not in ('manual', 'open') and sys.exc_info()[0] is not SimKilled:
                    # Django's handler lets BaseException pass by the middleware
                    if how != 'mw' or st['body'] is None or isinstance(st['body'], Exception):
                        st['fin'] = self._fin_start(alias, how == 'mw' or how.startswith('legacy_all'))
            return st['result']
        err = None
        res = None
        try:
            if how == 'with':
                with c.transaction:
                    res = inner()
            elif how == 'call':
                with c.transaction():
                    res = inner()
            elif how == 'deco':
                res = c.transaction(inner)(1, a=2)
            elif how == 'shared':
                res = self.w.shared_decorated(self, palias)(inner)
            elif how in ('legacy', 'legacy_f', 'legacy_all', 'legacy_alln'):
                m = self.proc.image['django_cache_dependencies.decorators']
                if palias == 'proxy':
                    res = (m.cache_transaction_all if 'all' in how else m.cache_transaction)(inner)()
                elif how == 'legacy':
                    res = m.cache_transaction(c)(inner)()
                elif how == 'legacy_f':
                    res = m.cache_transaction(inner, c)()
                elif how == 'legacy_alln':
                    res = m.cache_transaction_all(cache=c)(inner)()
                else:
                    res = m.cache_transaction_all(inner, c)()
            elif how == 'manual':
                c.transaction.begin()
                try:
                    res = inner()
                finally:
                    if sys.exc_info()[0] is not SimKilled:
                        st['fin'] = self._fin_start(alias)
                        c.transaction.finish()
            elif how == 'old':
                c.transaction_begin()
                try:
                    res = inner()
                finally:
                    if sys.exc_info()[0] is not SimKilled:
                        c.transaction_finish()
            elif how == 'mw':
                m = self.proc.image['django_cache_dependencies.middleware']

                def get_response(request):
                    try:
                        return inner()
                    except Exception as e:
                        try:
                            mw.process_exception(request, e)
                        except Exception as e2:
                            st['mwerr'] = e2
                        return st['result']
                mw = m.TransactionMiddleware(get_response, **({} if palias == 'proxy' else {'cache_alias': alias}))
                res = mw(object())
                if st.get('mwerr') is not None:
                    raise st['mwerr']
                if st['body'] is not None:
                    raise st['body']
            elif how == 'open':       # the application forgets to finish it
                c.transaction.begin()
                res = inner()
            else:
                raise HarnessError(how)
        except SimKilled:
            raise
        except BaseException as e:
            err = e
        finally:
            if sys.exc_info()[0] is not SimKilled and st['fin'] is not None:
                fe = err if err is not None and err is not st['body'] else None
                self._fin_end(alias, st['fin'], fe)
        if how == 'open' or how == 'mw' and st['entered'] and st['fin'] is None:
            if err is not None:
                raise err
            return
        if err is not None:
            if st['body'] is not None and err is not st['body'] and not (st['fin'] is not None and st['fin'].fault):
                self.w.violation('txexc', 'exception %r turned into %r' % (st['body'], err), st['fin'])
            if st['body'] is None and not (st['fin'] is not None and st['fin'].fault):
                self.w.violation('exception', 'transaction raised %r' % (err,), st['fin'], tb=_tb(err))
            raise err
        if st['body'] is not None:
            self.w.violation('txexc', 'exception %r was swallowed' % (st['body'],), st['fin'])
            raise st['body']
        if not st['entered']:
            self.w.violation('txexc', 'decorated function was not called')
        elif res is not st['result']:
            self.w.violation('txexc', 'result of decorated function is lost: %r' % (res,), st['fin'])

    def op_flush(self, alias, old=False):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rec = self._fin_start(alias, True)
        self._finish_call(alias, rec, c.transaction_finish_all if old else c.transaction.flush)

    def op_xfinish(self, alias, old=False):
        """finish() once more than needed (or of a scope left open)."""
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rec = self._fin_start(alias)
        self._finish_call(alias, rec, c.transaction_finish if old else c.transaction.finish)

    def _finish_call(self, alias, rec, fn):
        err = None
        try:
            fn()
        except SimKilled:
            raise
        except BaseException as e:
            err = e
            self.classify(rec, e)
            raise
        finally:
            if sys.exc_info()[0] is not SimKilled:
                self._fin_end(alias, rec, err)

    def op_close(self, alias):
        c = self.cache(alias)
        alias = self.real_alias(alias)
        rec = self._fin_start(alias, True)
        self.relm(alias).clear()
        self._finish_call(alias, rec, c.close)

    def op_closeall(self):
        self.close_all()

    def close_all(self):
        recs = []
        for alias in sorted(self.tx):
            recs.append((alias, self._fin_start(alias, True)))
        top = self.rec('close', calls=0)
        self.cur.append(top)
        err = None
        try:
            self.proc.binding.close_all()
        except SimKilled:
            raise
        except BaseException as e:
            err = e
            if not (isinstance(e, SimBackendError) and (top.fault or any(r.fault for a, r in recs))):
                self.classify(top, e)
        top.ok = err is None
        top.close(self.w)
        self.cur.remove(top)
        for alias, rec in recs:
            rec.fault = rec.fault or top.fault
            self._fin_end(alias, rec, err)
        for rel in self.rel.values():
            rel.clear()

    # -- environment ------------------------------------------------------------------
    def op_sleep(self, dt):
        self.w.sim.sleep(dt)

    def op_until(self, t):
        """All meet again at this moment."""
        dt = t - (self.w.sim.now - self.w.sim.start_time)
        if dt > 0:
            self.w.sim.sleep(dt)

    def op_jump(self, dt):
        """The clock of the host is set."""
        self.proc.skew += dt
        self.w.sim.fault('clock_jump')
        self.w.jumped = True

    def op_call(self, fn):
        fn(self)


def _tb(e):
    import traceback
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))


class Violation(object):
    def __init__(self, oracle, message, rec=None, tb=None, seq=0, known=None):
        self.oracle = oracle
        self.message = message
        self.rec = rec
        self.tb = tb
        self.seq = seq
        self.known = known


class CoreWorld(object):
    """One run."""
    actor_class = Actor

    def __init__(self, scenario, chooser, seed_text='0'):
        self.sc = scenario
        self.cfg = scenario['cfg']
        cfg = self.cfg
        seams.reseed(seed_text)
        self.sim = Sim(chooser, dict(cfg, trace_prefix=images.REPO))
        self.sim.world = self
        self.history = []
        self.violations = []
        self.log = []
        self.sigh = hashlib.md5()
        self.servers = {}
        self.faults_on = cfg.get('faults', False)
        self.uid = 0
        self.shared_deps = {}
        self.actors = []
        self.probes = {}
        self.events = []           # loss events: (seq, server, kind, key)
        self.jumped = False
        self.by_task = {}
        self.shared = {}
        self.calls = 0
        self.stalls = {('a%d' % i, n): dt for i, n, dt in cfg.get('stalls', ())}
        self.keep_log = cfg.get('keep_log', False)
        self.final_started = None
        bindings.set_world(self)
        self.registered = bool(scenario.get('registrations'))
        self._django = cfg.get('binding', 'django') == 'django'
        bindings.configure_tagging(cfg.get('level', 'READ COMMITTED'), cfg.get('delay', 0), cfg.get('levels'))
        sim = self.sim
        sim.on_switch = self._on_switch
        sim.on_spawn = self._on_spawn
        sim.on_thread_end = self._on_thread_end
        self.net_process = sim.process('net', host='net', pid=1)
        self.procs = []
        imgs = images.pool(max(2, len(scenario['procs'])))
        for i, p in enumerate(scenario['procs']):
            self.procs.append(self.new_process(i, p, imgs[i]))
            if self.registered:
                self.procs[-1].models = models.register(imgs[i], scenario['registrations'], scenario.get('discover'))
        for i, a in enumerate(scenario['actors']):
            self.add_actor('a%d' % i, self.procs[a['proc']], a['reqs'])
        for a in self.actors:
            self.start_actor(a)
        sim.spawn('final', self._final, self.net_process, kind='final')

    def new_process(self, i, p, img):
        proc = self.sim.process('p%d' % i, host=p.get('host', 'h0'), pid=p.get('pid', 100 + i),
                                skew=p.get('skew', 0.0), image=img)
        if self._django:
            proc.binding = bindings.DjangoBinding(img)
        else:
            proc.binding = bindings.PlainBinding(img, self.cfg.get('level', 'READ COMMITTED'),
                                                 self.cfg.get('delay', 0))
        return proc

    def add_actor(self, name, proc, program, kind='actor'):
        a = self.actor_class(self, name, proc, program, kind)
        self.actors.append(a)
        return a

    def start_actor(self, a):
        a.task = self.sim.spawn(a.name, a.main, a.proc, kind=a.kind)
        self.by_task[a.task] = a

    def server(self, location):
        s = self.servers.get(location)
        if s is None:
            s = self.servers[location] = Server(self.sim, location, self.cfg, self.is_data_key)
        return s

    @staticmethod
    def is_data_key(key):
        parts = key.split(':', 2)
        return len(parts) == 3 and parts[2][:1] == 'k'

    def payload(self, kind):
        self.uid += 1
        return make_payload(self.uid, kind)

    # -- notifications -----------------------------------------------------------------
    def _on_switch(self, prev, t):
        images.activate(t.process.image if t is not None else None)

    def _on_spawn(self, parent, child):
        a = self.by_task.get(parent)
        if a is not None:
            for rec in a.cur:
                if rec.kind == 'fin':
                    rec.timers.append(child)
        if child.kind == 'timer':
            self.probe('timer')

    def _on_thread_end(self, t):
        if t.info is not None:
            t.info.done_seq = self.sim.next_seq()

    def cur_recs(self, t):
        a = self.by_task.get(t)
        return a.cur if a is not None else ()

    def stall(self, t):
        """A task which is chosen by the scenario is held up before one of its calls to the server."""
        if not self.stalls:
            return 0
        a = self.by_task.get(t)
        if a is None:
            return 0
        a.ncalls += 1
        return self.stalls.get((a.name, a.ncalls), 0)

    def note_call(self, t, kind, keys):
        self.calls += 1
        for rec in self.cur_recs(t):
            if 'calls' in rec.__dict__:
                rec.calls += 1
        self.sigh.update(('%d%s%d;' % (t.id, kind, len(keys))).encode())

    def note_applied(self, t, kind, keys):
        if kind in ('set', 'set_many', 'add'):
            for rec in self.cur_recs(t):
                if rec.kind == 'set' and self.data_key(rec) in keys:
                    rec.applied = self.sim.next_seq()
                    rec.t_applied = self.sim.now

    def data_key(self, rec):
        k = rec.__dict__.get('_dk')
        if k is None:
            prefix = 'p' if rec.alias == 'a1' else ''
            k = rec._dk = '%s:%s:%s' % (prefix, rec.v, rec.key)
        return k

    def note_fault(self, t, kind, keys):
        for rec in self.cur_recs(t):
            rec.fault = True
        if t.kind in ('timer', 'thread'):
            for rec in self.history:
                if rec.kind == 'fin' and t in rec.timers:
                    rec.timer_fault = True

    def late_token(self, t):
        return [r for r in self.cur_recs(t)] + [r for r in self.history if r.kind == 'fin' and t in r.timers]

    def note_late(self, recs, kind, keys):
        seq = self.sim.next_seq()
        for rec in recs:
            rec.late_end = max(rec.late_end, seq)
            rec.late_t = max(rec.late_t, self.sim.now)
            if rec.kind == 'set' and kind in ('set', 'set_many', 'add') and self.data_key(rec) in keys:
                rec.applied = seq
                rec.t_applied = self.sim.now

    def note_evict(self, srv, key):
        self.events.append((self.sim.next_seq(), srv.name, 'flush' if key is None else 'evict', key))

    def log_event(self, t, what, keys):
        self.log.append((t.id, what, keys))
        if len(self.log) > 1000000:
            raise HarnessError('log too long')

    def kill(self, t):
        self.log_event(t, 'KILL', t.process.name)
        for a in self.actors:
            if a.proc is t.process:
                for rec in a.cur:
                    rec.ok = False
                    rec.error = 'killed'
                    rec.close(self)
                a.tx_killed = dict(a.tx)
        self.sim.kill_process(t.process)

    def violation(self, oracle, message, rec=None, tb=None, known=None):
        self.violations.append(Violation(oracle, message, rec, tb, self.sim.seq, known))

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def judge_calls(self, rec, bound):
        """Round trips of one call of the API."""
        if self.cfg.get('binding') != 'django' and not self.cfg.get('native_many', True):
            return
        if rec.calls > bound:
            self.violation('trips', '%s needed %d round trips to the backend (bound %d)' % (
                rec.kind, rec.calls, bound), rec)

    def candidates(self, rec):
        """Stores which the value read by `rec` can come from."""
        key = (rec.alias, rec.v, rec.key)
        end = rec.end
        return [s for s in self.history if s.kind == 'set' and s.canon == rec.canon and s.start < end
                and (s.alias, s.v, s.key) == key and (s.applied is not None or s.error)]

    def shared_decorated(self, actor, alias):
        """A function decorated once per process, at import time so to say, by whichever thread was first."""
        key = (actor.proc.name, alias)
        f = self.shared.get(key)
        if f is None:
            @actor.cache(alias).transaction
            def f(fn):
                return fn()
            self.shared[key] = f
        return f

    # -- final phase -------------------------------------------------------------------
    def _final(self):
        sim = self.sim
        # wait until all the others are done
        while True:
            alive = [t for t in sim.tasks if t.state != 'done' and t.kind != 'final']
            if not alive:
                break
            if any(t.state == 'blocked' and t.wake is None for t in alive) and all(
                    t.state == 'blocked' and t.wake is None for t in alive):
                break
            wakes = [t.wake for t in alive if t.state == 'blocked' and t.wake is not None]
            idle = len(wakes) == len(alive) and min(wakes) - sim.now
            sim.sleep(max(0.05, idle))
        for srv in self.servers.values():
            srv.cfg = dict(srv.cfg, latency=0, torn=False)
        self.faults_on = False
        sim.line_gap = 0
        self.final_started = sim.next_seq()
        procs = [p for p in self.procs if p.alive]
        fresh = self.new_process(9, {'host': 'h9', 'pid': 900, 'skew': 0.0}, images.pool(1)[0])
        last = procs[:2] + [fresh]
        self.final_procs = last
        run = self.final_runner(last)
        sim.spawn('final2', run.main, self.net_process, kind='final')

    def final_runner(self, procs):
        return FinalRunner(self, procs)

    def run(self):
        try:
            self.sim.run()
        finally:
            if self.registered:
                models.reset()
        sim = self.sim
        for t in sim.tasks:
            if t.error is not None:
                e = t.error
                if isinstance(e, HarnessError):
                    raise e
                if t.kind in ('timer', 'thread'):
                    if isinstance(e, SimBackendError):
                        continue
                    self.violation('exception', 'background thread raised %r' % (e,), tb=_tb(e))
                elif isinstance(e, (AppError, AppExit)):
                    self.violation('exception', 'application error escaped', tb=_tb(e))
                elif self.by_task.get(t) is not None and any(
                        v.oracle == 'exception' for v in self.violations):
                    pass
                else:
                    tb = _tb(e)
                    if images.REPO + os.sep in tb:
                        self.violation('exception', 'unexpected %r' % (e,), tb=tb)
                    else:
                        raise HarnessError('task %s: %s' % (t.name, tb))
        if sim.stuck:
            self.violation('stuck', sim.stuck)
        return self

    def nontrivial(self):
        return self.sim.switches > 4 and any(r.kind == 'get' and r.ok and r.value is not MISS for r in self.history)

    def signature(self):
        return self.sigh.hexdigest()[:16]


class FinalRunner(object):
    """After everything is quiet: reads everything, then checks that service has recovered."""

    def __init__(self, w, procs):
        self.w = w
        self.procs = procs

    def used(self):
        w = self.w
        keys = {}
        tags = {}
        for r in w.history:
            if r.kind in ('set', 'get'):
                keys.setdefault((r.alias, r.v), set()).add(r.key)
            if r.kind == 'set':
                tags.setdefault((r.alias, r.v), set()).update(r.effU)
            elif r.kind == 'inv':
                tags.setdefault((r.alias, r.v), set()).update(r.tags)
        return keys, tags

    def spawn(self, name, proc, fn):
        w = self.w
        a = w.add_actor(name, proc, [[['call', fn]]], kind='probe')
        w.start_actor(a)
        w.sim.block(a.task)
        return a

    def main(self):
        w = self.w
        sim = w.sim
        delay = w.cfg.get('delay', 0) or 0
        sim.sleep(delay + 1.5)
        keys, tags = self.used()

        def reads(actor):
            for (alias, v), ks in sorted(keys.items()):
                for k in sorted(ks):
                    actor.op_get(alias, k, v, True, True)
                if len(ks) > 1:
                    actor.op_many(alias, sorted(ks), v, True)
        for i, p in enumerate(self.procs[-2:]):
            self.spawn('read%d' % i, p, reads)
        w.recovery_seq = sim.next_seq()
        if not w.cfg.get('recover'):
            return
        sim.sleep(40)
        w.recovery_t = sim.now
        allt = sorted(tags.items())

        def recover(actor):
            for (alias, v), ts in allt:
                ts = sorted(ts)
                w.recovering = True
                for how in ('plain', 'tx', 'nested'):
                    if how == 'plain':
                        r = actor.do_store(alias, 'kr', v, w.payload('str'), ts, 60, 'kw')
                    elif how == 'tx':
                        def body(a):
                            a.op_inval(alias, ts, v)
                            a.rr = a.do_store(alias, 'kr', v, w.payload('str'), ts, 60, 'kw')
                            self.expect(a, alias, v, a.rr, 'in transaction')
                        actor.op_tx(alias, 'with', [['call', body]])
                        # the delay concerns the next transactions of this session, too
                        sim.sleep(delay + 1.5)
                        continue
                    else:
                        def body2(a):
                            a.do_store(alias, 'kc', v, w.payload('str'), ts, 60, 'kw')
                        actor.op_delete(alias, 'kp', v)
                        actor.op_comp(alias, 'kp', v, [], 60, 'kw', 'str', [['call', body2]], 'ok')
                        r = [x for x in w.history if x.kind == 'set' and x.key == 'kp'][-1]
                    self.expect(actor, alias, v, r, how)
                    if how == 'nested' and ts:
                        actor.op_inval(alias, ts[:1], v)
                        g = actor.op_get(alias, 'kp', v, True, True)
                        if g.value is not MISS:
                            w.violation('recover', 'composite value is not invalidated after the recovery', g)
                if actor.tx:
                    raise HarnessError('model transaction open')
        for i, p in enumerate(self.procs):
            self.spawn('recover%d' % i, p, recover)
            # transactions of the previous probe delay the next session
            sim.sleep(delay + 10)

    def expect(self, actor, alias, v, srec, what):
        g = actor.op_get(alias, srec.key, v, True, True)
        if g.value is MISS or canon(g.value) != srec.canon:
            self.w.violation('recover', 'value stored (%s) after faults stopped is not readable: %r' % (what, g.value),
                             g)
