"""Confinement world (C19): caches, transactions and relations of threads, identities across threads, forks, hosts.

The core world plus operations which get hold of the objects of other threads, and processes which are forks of a
common parent: they share the identity of the thread, the pseudo-random state and everything computed before the fork,
and differ in the pid only.
"""
import random
import zlib

from . import bindings, core, oracles
from .engine import SimKilled
from .gen import Gen, profile as core_profile
from .core_run import setup  # noqa

TM_OPS = ('begin', 'finish', 'flush', 'current', 'current_set', 'enter', 'exit', 'with')
RM_OPS = ('get', 'pop', 'clear', 'current', 'current_key', 'current_node')


class Actor(core.Actor):
    def __init__(self, *a, **kw):
        core.Actor.__init__(self, *a, **kw)
        self.own = {}

    # -- one's own ------------------------------------------------------------------
    def op_identity(self, alias, how=0):
        w = self.w
        real = self.real_alias(alias)
        m = self.proc.binding
        if w._django:
            forms = [lambda: m.m.caches[real], lambda: m.m.caches(real), lambda: m.m.get_cache(real)]
            if real == 'default':
                forms += [lambda: m.m.caches(), lambda: m.m.caches(None)]
            c = forms[how % len(forms)]()
        else:
            c = m.cache(real)
        mine = (c, c.transaction, c.relation_manager)
        prev = self.own.setdefault(real, mine)
        if prev[0] is not c:
            w.violation('confine', 'caches[%r] is another object than before in the same thread' % real)
        elif prev[1] is not mine[1] or prev[2] is not mine[2]:
            w.violation('confine', 'transaction or relation manager of caches[%r] was replaced' % real)
        for a in w.actors:
            if a is not self and a.proc is self.proc and a.task is not None and a.task.state != 'done':
                o = a.own.get(real)
                if o is not None and any(x is y for x, y in zip(o, mine)):
                    w.violation('confine', 'caches[%r] is shared by two threads' % real)
        if w._django and real == 'default':
            p = m.default_proxy()
            if p.transaction is not c.transaction or p.relation_manager is not c.relation_manager or not p == c or p != c:
                w.violation('confine', 'default cache proxy does not refer to the cache of the current thread')
        w.publish(self, real, mine)
        w.probe('identity')
        return c

    def op_sid(self, alias):
        """Identity of the session; nobody else may have it."""
        w = self.w
        cur = self.cache(alias).transaction.current()
        sid = cur.get_session_id()
        me = (self.task.id, self.proc.pid, self.proc.host)
        other = w.sids.setdefault(sid, me)
        if other != me:
            w.violation('identity', 'session id %r of %r is used by %r, too' % (sid, me, other))
        old = w.sid_of.setdefault(me, sid)
        if old != sid:
            w.violation('identity', 'session id of %r changed from %r to %r' % (me, old, sid))
        w.probe('sid')

    def op_hold(self, alias, dt, n):
        """The state of the thread is not affected by what the others do meanwhile."""
        w = self.w
        real = self.real_alias(alias)
        c = self.cache(alias)
        tm, rm = c.transaction, c.relation_manager
        cur = tm.current()
        chain = []
        x = cur
        while x is not None and len(chain) < 20:
            chain.append(x)
            x = x.parent() if x else None
        node = rm.current()
        depth = self.tx[real].depth if real in self.tx else 0
        for _ in range(n):
            w.sim.sleep(dt)
        cur2 = self.cache(alias).transaction.current()
        if bool(cur) != bool(cur2) or cur and cur2 is not cur:
            w.violation('confine', 'current transaction changed from %r to %r while the thread slept' % (cur, cur2))
        elif bool(cur) != bool(depth):
            w.violation('confine', 'thread is %s a transaction, expected depth %d' % (
                'inside of' if cur else 'outside of', depth))
        elif depth:
            n2, x = 0, cur2
            while x is not None and n2 < 20:
                n2 += 1
                x = x.parent()
            if n2 != depth:
                w.violation('confine', 'depth of transactions is %d, expected %d' % (n2, depth))
        node2 = self.cache(alias).relation_manager.current()
        if bool(node) != bool(node2) or node and node2 is not node:
            w.violation('confine', 'current cache node changed from %r to %r while the thread slept' % (node, node2))
        w.probe('hold')

    def op_burst(self, alias, n, reseed=False):
        """Lots of new tags at nearly the same instant."""
        w = self.w
        c = self.cache(alias)
        for i in range(n):
            w.n_burst += 1
            rec = self.rec('burst')
            if reseed:          # as a simulation or a test of the application does
                random.seed(i % 2)
            self.call(rec, c.set, 'kburst', i, tags=['burst%d.%d' % (w.n_burst, j) for j in range(20)])
        w.probe('burst')

    # -- of the others -----------------------------------------------------------------
    def op_foreign(self, n, ops):
        w = self.w
        pub = [p for p in w.published.get(self.proc.name, ()) if p[0] is not self]
        if not pub:
            w.probe('foreign_none')
            return
        owner, alias, (c, tm, rm) = pub[n % len(pub)]
        for what in ops:
            self.foreign(owner, alias, tm, rm, what)

    def foreign(self, owner, alias, tm, rm, what):
        w = self.w
        kind, name = what.split('.')
        entered = False
        try:
            if kind == 'tm':
                if name == 'begin':
                    tm.begin()
                elif name == 'finish':
                    tm.finish()
                elif name == 'flush':
                    tm.flush()
                elif name == 'current':
                    tm.current()
                elif name == 'current_set':
                    tm.current(None)
                elif name == 'enter':
                    tm.__enter__()
                elif name == 'exit':
                    tm.__exit__(None, None, None)
                else:
                    with tm:
                        entered = True
            else:
                if name == 'get':
                    rm.get('k0')
                elif name == 'pop':
                    rm.pop('k0')
                elif name == 'clear':
                    rm.clear()
                elif name == 'current':
                    rm.current()
                elif name == 'current_key':
                    rm.current('k1')
                else:
                    rm.current(self.cache(alias).relation_manager.current())
        except SimKilled:
            raise
        except RuntimeError:
            w.probe('refused_' + kind)
            if not entered:
                return
            w.violation('confine', 'block of a transaction of another thread was entered')
            return
        except Exception as e:
            w.violation('confine', '%s of another thread raised %r instead of RuntimeError' % (what, e))
            return
        w.violation('confine', '%s of another thread (%s) did not raise' % (what, owner.name))

    # -- fork ---------------------------------------------------------------------------
    def op_fork(self, pid):
        """From here on this is a child of the process."""
        w = self.w
        old = self.proc
        new = w.sim.process(old.name + 'c', host=old.host, pid=pid, skew=old.skew, image=old.image)
        new.binding = old.binding
        new.models = getattr(old, 'models', None)
        new.next_ident = old.next_ident
        new.rstate = random.getstate()
        self.proc = self.task.process = new
        i = w.procs.index(old)
        w.procs[i] = new
        w.probe('fork')
        w.sim.fault('fork')


class ConfineWorld(core.CoreWorld):
    actor_class = Actor

    def __init__(self, scenario, chooser, seed_text='0'):
        self.published = {}
        self.sids = {}
        self.sid_of = {}
        self.tokens = {}
        self.items = {}
        self.n_burst = self.n_applied = 0
        core.CoreWorld.__init__(self, scenario, chooser, seed_text)

    def new_process(self, i, p, img):
        proc = core.CoreWorld.new_process(self, i, p, img)
        st = random.getstate()
        random.seed(zlib.crc32(('%s/%s' % (self.sc['rseed'], p.get('family', i))).encode()))
        proc.rstate = random.getstate()
        random.setstate(st)
        return proc

    def _on_switch(self, prev, t):
        """The pseudo-random generator belongs to the process."""
        core.CoreWorld._on_switch(self, prev, t)
        a = prev.process if prev is not None else None
        b = t.process if t is not None else None
        if a is b:
            return
        if getattr(a, 'rstate', None) is not None:
            a.rstate = random.getstate()
        if getattr(b, 'rstate', None) is not None:
            random.setstate(b.rstate)

    def publish(self, actor, alias, objs):
        pub = self.published.setdefault(actor.proc.name, [])
        if not any(p[0] is actor and p[1] == alias for p in pub):
            pub.append((actor, alias, objs))

    def note_applied(self, t, kind, keys):
        core.CoreWorld.note_applied(self, t, kind, keys)
        if kind not in ('set', 'add', 'set_many'):
            return
        self.n_applied += 1
        for k in keys:
            parts = k.split(':', 2)
            if len(parts) == 3 and parts[2].startswith('tag_'):
                for name, srv in self.servers.items():
                    item = srv.data.get(k)
                    if item is None or not isinstance(item[0], (str, int)):
                        continue
                    if self.items.get((name, k)) is item:
                        continue    # (of another server, or an add which failed)
                    self.items[(name, k)] = item
                    # (one call of the backend may give the same version to several tags)
                    me = (t.id, t.process.pid)
                    author, where, call = self.tokens.setdefault(item[0], (me, (name, k), self.n_applied))
                    if author != me or where != (name, k) and call != self.n_applied:
                        self.violation('identity', 'version %r of a tag was generated by %r and now by %r' % (
                            item[0], author, me))


CONFINE = dict(
    n_procs=((1, 5), (2, 2), (3, 0.5)),
    n_actors=((2, 3), (3, 3), (4, 2)),
    n_reqs=((1, 2), (2, 3)),
    aliases=(('default', 4), ('proxy', 2), ('a1', 1.5), ('a2', 1)),
    n_aliases=((1, 2), (2, 2)),
    n_versions=((1, 1),),
    n_tags=((1, 2), (2, 2)),
    n_keys=((1, 1), (2, 2)),
    grain=0.5,
    recover=0,
    line=0.15,
    families=0.4,
    tx_hows=(('with', 4), ('shared', 4), ('manual', 1), ('deco', 1), ('legacy', 0.5), ('open', 0.3)),
    ops=dict(identity=3, sid=1.5, foreign=4, hold=3, tx=4, comp=3, inval=3, get=2, set=2, closeall=0.5, many=0.5, raw=0,
             clear=0, cmp=0, burst=0.02),
    delays=((0, 4), (0.3, 1)),
    atomic_reads=True,
    torn=0.0,
)


def profile(**kw):
    ops = kw.pop('ops', {})
    kw = dict(CONFINE, **kw)
    kw['ops'] = dict(CONFINE['ops'], **ops)
    p = core_profile(**kw)
    return p


class ConfineGen(Gen):
    def scenario(self):
        sc = Gen.scenario(self)
        sc['world'] = 'confine'
        p, rng = self.p, self.rng
        if self.flip(p['families']):
            # children of one parent: each has one actor, all of them do the same before the fork, without the cache server
            n = rng.choice((2, 2, 3))
            local = [['identity', self.alias(), 0]
                     for _ in range(rng.choice((0, 1, 2)))]
            pre = [['warm', self.alias(), rng.choice(('sid', 'tx', 'identity'))] for _ in range(rng.choice((0, 1, 2)))]
            sc['procs'] = [{'host': 'h0', 'pid': 100, 'skew': 0.0, 'family': 'f'} for _ in range(n)]
            actors = sc['actors'][:n]
            while len(actors) < n:
                actors.append({'proc': 0, 'reqs': [self.request()]})
            for i, a in enumerate(actors):
                a['proc'] = i
                a['reqs'] = [local + pre + [['fork', 200 + i]]] + a['reqs']
            sc['actors'] = actors
        for a in sc['actors']:
            # everybody shows what it has
            a['reqs'][0].insert(0, ['identity', self.alias(), rng.randrange(5)])
        return sc

    def g_identity(self, depth, intx):
        return ['identity', self.alias(), self.rng.randrange(5)]

    def g_burst(self, depth, intx):
        return ['burst', self.alias(), self.rng.choice((5, 15, 30)), self.flip(0.3)]

    def g_sid(self, depth, intx):
        return ['sid', self.alias()]

    def g_hold(self, depth, intx):
        return ['hold', self.alias(), self.rng.choice((0.0, 0.001, 0.01, 0.05)), self.rng.choice((1, 1, 2, 4))]

    def g_foreign(self, depth, intx):
        alls = ['tm.' + x for x in TM_OPS] + ['rm.' + x for x in RM_OPS]
        return ['foreign', self.rng.randrange(6), [self.rng.choice(alls) for _ in range(self.rng.choice((1, 1, 2, 3)))]]


def op_warm(self, alias, what):
    """Before the fork: what does not need the cache server."""
    c = self.cache(alias)
    if what == 'sid':
        c.transaction.current().get_session_id()
    elif what == 'tx':
        c.transaction.begin()
        c.transaction.current().get_session_id()
        c.transaction.finish()
    else:
        self.op_identity(alias)


Actor.op_warm = op_warm


def generate(rng, spec):
    total = sum(w for w, _ in spec['profiles'])
    x = rng.random() * total
    for w, p in spec['profiles']:
        x -= w
        if x < 0:
            break
    return ConfineGen(rng, p).scenario()


def run(scenario, chooser, spec):
    w = ConfineWorld(scenario, chooser, scenario['rseed'])
    w.spec_known = spec.get('known', ())
    w.run()
    oracles.judge(w, spec['classes'])
    return w
