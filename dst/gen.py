"""Generates scenarios of the core world: swarm-style, everything varies from run to run."""

LEVELS = ('READ UNCOMMITTED', 'READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE')

FAULTS = ('error', 'error_after', 'late', 'partial', 'evict', 'flush', 'kill')

BASE = dict(
    levels=(('READ COMMITTED', 4), ('READ UNCOMMITTED', 1), ('REPEATABLE READ', 2), ('SERIALIZABLE', 1)),
    delays=((0, 1),),
    binding=(('django', 4), ('core', 1)),
    aliases=(('default', 6), ('proxy', 1), ('a1', 1), ('a2', 1)),
    n_aliases=((1, 3), (2, 1)),
    versions=((None, 1),),
    n_versions=((1, 3), (2, 1)),
    n_keys=((1, 1), (2, 3), (3, 3), (4, 1)),
    n_tags=((1, 1), (2, 3), (3, 2)),
    n_procs=((1, 2), (2, 3), (3, 1)),
    n_actors=((1, 1), (2, 4), (3, 3), (4, 1)),
    n_reqs=((1, 3), (2, 2), (3, 1)),
    n_ops=((1, 1), (2, 2), (3, 3), (4, 2), (6, 1)),
    depth=3,
    faults=0.0,
    fault_kinds=FAULTS,
    fault_p=(0.02, 0.05, 0.1),
    skew=0.0,
    grain=0.15,
    latency=0.25,
    stall=True,
    stalls=0.2,
    stall_calls=(8, 25),
    stall_role=None,
    stall_times=(0.01, 0.1, 0.6, 2.0),
    torn=0.3,
    atomic_reads=False,
    evict_short=False,
    line=0.0,
    recover=0.05,
    big=0.0,
    odd=0.2,
    warm=0.4,
    jump_ops=0.0,
    ttls=((60, 6), (None, 1), (5, 1), (3600, 1)),
    sleeps=(0.001, 0.05, 0.3),
    ops=dict(get=4, many=2, cmp=0.3, set=2, raw=0.2, delete=0.2, comp=4, gos=3, inval=3, tx=2, sleep=1, flush=0.1,
             xfinish=0.05, close=0.1, closeall=0.05, ignore=0.03, clear=0.02, **{'try': 0.5, 'raise': 0.1}),
    tx_hows=(('with', 4), ('call', 1), ('deco', 1), ('shared', 1), ('manual', 1), ('old', 1), ('legacy', 1),
             ('legacy_f', 0.5), ('legacy_all', 0.5), ('legacy_alln', 0.3), ('open', 0.4), ('mw', 0.6)),
    tx_out=(('ok', 5), ('raise', 1), ('exit', 0.4)),
    outs=(('ok', 8), ('raise', 1), ('skip', 0.7), ('abort', 0.5)),
    gos_outs=(('ok', 8), ('raise', 1), ('exit', 0.3)),
    forms=(('kw', 3), ('pos', 2), ('set', 0.7), ('fset', 0.4), ('list', 0.5), ('dep', 1), ('depc', 1), ('shared', 0.7), ('sharedc', 0.4), ('wrap', 0.7), ('wrapc', 0.3)),
    plain_forms=(('native', 0.3), ('notags', 0.3)),
    gos_forms=(('pos', 4), ('kw', 4), ('wrap', 2), ('shared', 0.5)),
    inval_forms=(('args', 4), ('list', 1), ('set', 0.7), ('tuple', 0.7), ('fset', 0.5), ('dep', 1), ('shared', 1), ('sharedc', 0.5), ('wrap', 0.7)),
    payloads=(('str', 3), ('dict', 1), ('list', 1), ('tuple', 1), ('int', 1), ('obj', 0.5)),
    roles=((None, 1),),
    max_sleep_tx=0.3,
)

RAW = (('str', 4), ('int', 1), ('dict', 0.5), ('zero', 0.4), ('false', 0.4), ('empty', 0.4), ('elist', 0.4), ('edict', 0.4))
TAG_NAMES = ('t0', 't1', 't2', 't3')
KEY_NAMES = ('k0', 'k1', 'k2', 'k3', 'k4')
# (names of data keys start with 'k')
# names which are easily taken for each other
ODD_TAGS = (('t', 't1', 't11', '1'), ('a:1', 'a:1:2', ':a', 'a'), (u'\u0442\u0435\u0433', u'\u0433\u0435\u0442', 'teg'),
            ('t', 'T', ' t', 't '), ('x' * 300, 'x' * 301, 'x'), ('', ' ', '0', 'None'), (0, 1, 11, 10),
            ('e', u'\u00e9', u'e\u0301', u'\u00c9'), ('%s', '%', '{0}', '{}'), ('t\n', 't', 't\x00', 't,'))
ODD_KEYS = (('k', 'k1', 'k11', 'k111', 'kk'), ('k:1', 'k:1:7', 'k:7:1', 'k', 'k::1'), (u'k\u043b\u044e\u0447', 'kK', 'k', 'kk', 'k0'))


def profile(**kw):
    p = dict(BASE)
    ops = kw.pop('ops', None)
    p.update(kw)
    if ops:
        o = dict(BASE['ops'])
        o.update(ops)
        p['ops'] = o
    return p


class Gen(object):
    def __init__(self, rng, p):
        self.rng = rng
        self.p = p

    def pick(self, weighted):
        total = sum(w for _, w in weighted)
        x = self.rng.random() * total
        for v, w in weighted:
            x -= w
            if x < 0:
                return v
        return weighted[-1][0]

    def flip(self, p):
        return self.rng.random() < p

    def scenario(self):
        p, rng = self.p, self.rng
        binding = self.pick(p['binding'])
        cfg = {
            'binding': binding,
            'level': self.pick(p['levels']),
            'delay': self.pick(p['delays']),
            'switch_p': rng.choice((0.05, 0.15, 0.3, 0.5, 0.8)),
            'policy': 'prio' if self.flip(0.25) else 'random',
            'torn': self.flip(p['torn']),
            'max_steps': 60000,
        }
        if p['atomic_reads']:
            cfg['atomic_reads'] = True
        if binding == 'core' and self.flip(0.2):
            cfg['native_many'] = False
            if p['atomic_reads']:
                cfg['native_many'] = True
        if self.flip(p['latency']):
            cfg['latency'] = rng.choice((0.0005, 0.005, 0.02, 0.1) if p['stall'] else (0.0005, 0.005, 0.02))
            cfg['latency_p'] = rng.choice((0.02, 0.1, 0.1, 0.3, 0.6))
        if self.flip(p['grain']):
            cfg['clock_grain'] = rng.choice((0.001, 0.015))
        if self.flip(p['faults']):
            kinds = [k for k in p['fault_kinds'] if self.flip(0.5)] or [rng.choice(p['fault_kinds'])]
            cfg['faults'] = True
            cfg['fault_p'] = rng.choice(p['fault_p'])
            cfg['fault_kinds'] = kinds
            cfg['evict_meta'] = self.flip(0.6)
            cfg['evict_short'] = p['evict_short']
            cfg['late_unit'] = rng.choice((0.001, 0.02))
        if self.flip(p['line']):
            cfg['line_gap'] = rng.choice((8, 25, 80))
            cfg['max_steps'] = 200000
        if self.flip(p['recover']):
            cfg['recover'] = True
        self.cfg = cfg
        if p.get('mixed_levels') and binding == 'django' and self.flip(p['mixed_levels']):
            cfg['levels'] = {a: self.pick(p['levels']) for a in ('default', 'a1', 'a2')}
        aliases = [a for a in p['aliases'] if binding == 'django' or a[0] != 'proxy']
        self.aliases = self.distinct(aliases, self.pick(p['n_aliases']))
        self.versions = self.distinct(p['versions'], self.pick(p['n_versions']))
        self.keys = list((rng.choice(ODD_KEYS) if self.flip(p['odd']) else KEY_NAMES)[:self.pick(p['n_keys'])])
        n_tags = self.pick(p['n_tags'])
        if not p.get('models') and self.flip(p['odd']):
            group = rng.choice(ODD_TAGS)
            self.tags = rng.sample(group, min(len(group), max(2, n_tags)))
        else:
            self.tags = list(TAG_NAMES[:n_tags])
            if p.get('models') and self.flip(p['odd']):
                self.tags = list(range(n_tags))
        self.big = self.flip(p['big'])
        if self.big:
            cfg['max_steps'] = 400000
            self.keys = ['k%d' % i for i in range(rng.choice((12, 30, 70, 130)))]
            self.tags = ['t%d' % i for i in range(rng.choice((4, 12, 40)))]
        self.w = dict(p['ops'])
        self.pool = []
        # swarm: every run leaves some of the operations out
        for k in list(self.w):
            if k not in ('get', 'comp') and self.flip(0.15):
                self.w[k] = 0
        procs = []
        n_procs = self.pick(p['n_procs'])
        same_host = self.flip(0.5)
        same_pid = not same_host and self.flip(0.5)
        for i in range(n_procs):
            skew = 0.0
            if p['skew'] and not same_host:
                skew = round((rng.random() * 2 - 1) * p['skew'], 4)
            procs.append({'host': 'h0' if same_host else 'h%d' % i, 'pid': 100 if same_pid else 100 + i, 'skew': skew})
        actors = []
        self.roles = []
        n_actors = self.pick(p['n_actors'])
        if p.get('script'):
            actors = p['script'](self, n_procs)
        else:
            for i in range(n_actors):
                role = self.pick(p['roles'])
                self.roles.append(role)
                reqs = [self.request(role) for _ in range(self.pick(p['n_reqs']))]
                if i == 0 and self.flip(p['warm']):
                    reqs.insert(0, self.warm())
                actors.append({'proc': rng.randrange(n_procs), 'reqs': reqs})
        res = {'world': 'core', 'cfg': cfg, 'procs': procs, 'actors': actors, 'rseed': str(rng.randrange(10 ** 9))}
        if self.flip(p['stalls']):
            victims = [i for i, r in enumerate(self.roles) if r == p['stall_role']] or range(len(actors))
            cfg['stalls'] = [[rng.choice(victims), rng.randint(1, rng.choice(p['stall_calls'])),
                              rng.choice(p['stall_times'])] for _ in range(rng.choice((1, 1, 2)))]
        if p.get('models'):
            res['registrations'] = self.registrations()
            if self.flip(0.3):
                res['discover'] = True
        return res

    def registrations(self):
        from .models import FORMS, N_MODELS
        names = [a for a, _ in self.p['aliases']]
        batches = []
        num = isinstance(self.tags[0], int)       # primary keys are used as tags
        pk, grp, mark = ('npk', 'ngrp', '+#%s') if num else ('pk', 'grp', '+%s')
        for _ in range(self.rng.choice((1, 1, 2))):
            batch = []
            for _ in range(self.rng.choice((1, 2, 2, 3))):
                form = self.rng.choice(FORMS)
                tags = [self.rng.choice((pk, grp, pk) + tuple(self.tags))]
                if form != 'one' and self.flip(0.5):
                    tags.append(self.rng.choice((grp,) + tuple(self.tags)))
                elif form != 'one' and self.flip(0.1):
                    tags = []
                if form == 'created':
                    tags.append(mark % self.rng.choice(self.tags))
                alias = None if self.flip(0.5) else self.rng.choice(names)
                batch.append([self.rng.randrange(N_MODELS), form, tags, alias])
            batches.append(batch)
        return batches

    def g_model(self, depth, intx):
        from .models import N_MODELS
        return ['model', self.rng.choice(('save', 'save', 'create', 'delete', 'qdelete', 'raw', 'fields', 'uoc')), self.rng.randrange(N_MODELS),
                self.rng.randrange(len(self.tags)), self.rng.randrange(len(self.tags))]

    def distinct(self, weighted, n):
        res = []
        weighted = list(weighted)
        while weighted and len(res) < n:
            v = self.pick(weighted)
            res.append(v)
            weighted = [x for x in weighted if x[0] != v]
        return res

    # -- pieces -------------------------------------------------------------------------
    def alias(self):
        return self.aliases[0] if self.flip(0.75) else self.rng.choice(self.aliases)

    def version(self):
        return self.versions[0] if self.flip(0.7) else self.rng.choice(self.versions)

    def key(self):
        return self.rng.choice(self.keys)

    def sub(self, seq, lo, hi):
        if self.big and hi > 1:
            hi = len(seq)
        n = min(len(seq), self.rng.randint(lo, hi))
        return self.rng.sample(seq, n)

    def ttl(self):
        return self.pick(self.p['ttls'])

    def payload(self):
        return self.pick(self.p['payloads'])

    def form(self, tags):
        f = self.p['forms']
        if not tags:
            f = tuple(f) + tuple(self.p['plain_forms'])
        return self.pick(f)

    def warm(self):
        return [['set', self.alias(), k, self.version(), self.sub(self.tags, 1, 2), 60, 'kw', 'str']
                for k in self.keys]

    def request(self, role=None):
        if role is not None:
            return getattr(self, 'role_' + role)()
        return self.oplist(self.pick(self.p['n_ops']), self.p['depth'], False)

    def oplist(self, n, depth, intx):
        return [self.op(depth, intx) for _ in range(n)]

    def body(self, depth, intx):
        return self.oplist(self.rng.choice((0, 1, 1, 1, 2, 2, 3)), depth - 1, intx)

    def op(self, depth, intx):
        kinds = [(k, w) for k, w in self.w.items() if w and (depth > 1 or k not in ('comp', 'gos', 'tx', 'try'))]
        if depth <= 1:
            kinds += [('comp0', self.w['comp']), ('gos0', self.w['gos'])]
        if self.p['jump_ops']:
            kinds.append(('jump', self.p['jump_ops']))
        k = self.pick(kinds)
        return getattr(self, 'g_' + k)(depth, intx)

    def g_get(self, depth, intx):
        return ['get', self.alias(), self.key(), self.version(), self.flip(0.1), self.pick(((True, 6), (False, 2), ('falsy', 2)))]

    def g_many(self, depth, intx):
        ks = self.sub(self.keys, 1, 4)
        return ['many', self.alias(), ks, self.version(), self.flip(0.1),
                self.rng.choice(('list', 'list', 'tuple', 'set', 'iter', 'gen'))]

    def g_cmp(self, depth, intx):
        return ['cmp', self.alias(), self.sub(self.keys, 1, 4), self.version()]

    def shared(self, form, tags):
        """The application keeps few dependency objects."""
        if not form.startswith('shared') or self.flip(0.15):
            return tags
        if not self.pool:
            self.pool.extend(self.sub(self.tags, 1, 2) for _ in range(2))
        return list(self.rng.choice(self.pool))

    def g_set(self, depth, intx):
        tags = self.sub(self.tags, 0, 2)
        form = self.form(tags)
        return ['set', self.alias(), self.key(), self.version(), self.shared(form, tags), self.ttl(), form, self.payload()]

    def g_raw(self, depth, intx):
        return ['raw', self.alias(), self.key(), self.version(), self.ttl(), self.rng.choice(('add', 'set_many')),
                self.pick(RAW)]

    def g_native(self, depth, intx):
        return ['native', self.alias(), self.version()]

    def g_delete(self, depth, intx):
        return ['delete', self.alias(), self.key(), self.version()]

    def g_clear(self, depth, intx):
        return ['clear', self.alias()]

    def g_comp(self, depth, intx, body=None):
        tags = self.sub(self.tags, 0, 2)
        form = self.form(tags)
        return ['comp', self.alias(), self.key(), self.version(), self.shared(form, tags), self.ttl(), form, self.payload(),
                self.body(depth, intx) if body is None else body, self.pick(self.p['outs'])]

    def g_comp0(self, depth, intx):
        return self.g_comp(depth, intx, [])

    def g_gos(self, depth, intx, body=None):
        tags = self.sub(self.tags, 0, 2)
        pk = self.payload()
        form = self.pick(self.p['gos_forms'])
        return ['gos', self.alias(), self.key(), self.version(), self.shared(form, tags), self.ttl(), pk if pk != 'none' else 'zero',
                self.body(depth, intx) if body is None else body, self.pick(self.p['gos_outs']),
                form]

    def g_gos0(self, depth, intx):
        return self.g_gos(depth, intx, [])

    def g_try(self, depth, intx):
        return ['try', self.body(depth, intx)]

    def g_raise(self, depth, intx):
        return ['raise', self.flip(0.2)]

    def g_ignore(self, depth, intx):
        return ['ignore', self.alias(), self.flip(0.5)]

    def g_inval(self, depth, intx):
        form = self.pick(self.p['inval_forms'])
        tags = self.sub(self.tags, 1, 2) if self.flip(0.96) else []
        return ['inval', self.alias(), self.shared(form, tags), self.version(), form]

    def g_tx(self, depth, intx):
        how = self.pick(self.p['tx_hows'])
        if self.cfg['binding'] == 'core' and how in ('shared', 'mw'):
            how = 'deco'
        return ['tx', self.alias(), how, self.body(depth, True), self.pick(self.p['tx_out'])]

    def g_flush(self, depth, intx):
        return ['flush', self.alias(), self.flip(0.3)]

    def g_xfinish(self, depth, intx):
        return ['xfinish', self.alias(), self.flip(0.3)]

    def g_close(self, depth, intx):
        return ['close', self.alias()]

    def g_closeall(self, depth, intx):
        return ['closeall']

    def g_sleep(self, depth, intx):
        s = self.rng.choice(self.p['sleeps'])
        return ['sleep', min(s, self.p['max_sleep_tx']) if intx else s]

    def g_jump(self, depth, intx):
        return ['jump', self.rng.choice((-3600.0, -1.0, -0.01, 0.01, 1.0, 30.0, 100000.0))]

    # -- roles ----------------------------------------------------------------------------
    def role_writer(self):
        """A transaction which changes data."""
        body = [['inval', self.alias(), self.sub(self.tags, 1, 2), self.version(), 'args']]
        n = self.rng.choice((0, 1, 1, 2, 3))
        for _ in range(n):
            op = self.op(1 if self.flip(0.6) else 2, True)
            body.insert(self.rng.randint(0, len(body)), op)
        if self.flip(0.5):
            body.append(['sleep', self.rng.choice((0.001, 0.02, 0.2))])
        how = self.pick(self.p['tx_hows'])
        if self.cfg['binding'] == 'core' and how in ('shared', 'mw'):
            how = 'deco'
        return [['tx', self.alias(), how, body, self.pick(self.p['tx_out'])]]

    def role_reader(self):
        """A transaction which computes and caches."""
        body = []
        if self.flip(0.4):
            body.append(['sleep', self.rng.choice((0.001, 0.02, 0.2))])
        for _ in range(self.rng.choice((1, 1, 2, 3))):
            op = self.rng.choice((self.g_comp, self.g_gos, self.g_set))(2 if self.flip(0.3) else 1, True)
            body.append(op)
            if self.flip(0.15):
                body.insert(self.rng.randint(0, len(body) - 1), ['inval', op[1], self.sub(self.tags, 1, 1), op[3], 'args'])
            if self.flip(0.3):
                body.append(['sleep', self.rng.choice((0.001, 0.02, 0.2))])
        if self.flip(0.25):
            return body
        how = self.rng.choice(('with', 'deco', 'manual'))
        return [['tx', self.alias(), how, body, 'ok']]

    def role_storer(self):
        """Caches again and again outside of transactions."""
        res = []
        for _ in range(self.rng.choice((1, 2, 3))):
            if self.flip(0.5):
                res.append(['sleep', self.rng.choice(self.p['sleeps'])])
            res.append(self.rng.choice((self.g_comp, self.g_gos, self.g_set))(1, False))
        return res

    def role_tightreader(self):
        body = [['sleep', self.rng.choice((0.001, 0.005, 0.02))]] if self.flip(0.4) else []
        body += [self.rng.choice((self.g_gos, self.g_set))(1, True) for _ in range(self.rng.choice((1, 1, 2)))]
        return [['tx', self.alias(), 'with', body, 'ok']]

    def role_tightwriter(self):
        body = [['inval', self.alias(), self.sub(self.tags, 1, 1), self.version(), 'args']]
        if self.flip(0.5):
            body.insert(0, ['sleep', self.rng.choice((0.001, 0.005, 0.02))])
        return [['tx', self.alias(), 'with', body, 'ok']]

    def role_chain(self):
        """One transaction right after another."""
        tags = self.sub(self.tags, 1, 1)
        res = []
        for _ in range(self.rng.choice((2, 2, 3))):
            body = [['inval', self.alias(), tags if self.flip(0.8) else self.sub(self.tags, 1, 1), self.version(), 'args']]
            if self.flip(0.5):
                body.append(['sleep', self.rng.choice((0.001, 0.02, 0.1))])
            res.append(['tx', self.alias(), self.rng.choice(('with', 'manual')), body, 'ok'])
        return res

    def role_kept(self):
        """The application passes the same few dependency objects again and again, along with others."""
        a, v, key = self.alias(), self.versions[0], self.rng.choice(self.keys)
        mine = self.sub(self.tags, 1, 1)

        def inval():
            kept = self.flip(0.6)
            tags = mine if kept else self.sub(self.tags, 1, 2)
            return ['inval', a, tags, v, self.rng.choice(('shared', 'shared', 'sharedc') if kept else ('args', 'dep', 'wrap', 'set'))]

        def store():
            kept = self.flip(0.4)
            tags = mine if kept else self.sub(self.tags, 1, 2)
            form = self.rng.choice(('shared', 'sharedc') if kept else ('kw', 'dep', 'wrap'))
            if self.flip(0.3):
                return ['comp', a, key, v, tags, 60, form, 'str', [store()] if self.flip(0.3) else [], 'ok']
            return ['set', a, key, v, tags, 60, form, 'str']
        res = []
        for _ in range(self.rng.choice((2, 3, 4))):
            body = [inval() if self.flip(0.7) else store() for _ in range(self.rng.choice((1, 2, 2, 3)))]
            if self.flip(0.5):
                body = [['tx', a, self.rng.choice(('with', 'manual', 'call')), body, 'ok']]
            res += body
            if self.flip(0.6):
                res.append(store())
                if self.flip(0.6):
                    res.append(inval())
                res.append(['get', a, key, v, False, True])
        return res

    def role_derived(self):
        """Caches a value made from other cached values, changes what those depend on and reads it."""
        res = []
        for _ in range(self.rng.choice((1, 2, 3))):
            v, a = self.rng.choice(self.versions), self.alias()
            outer = self.rng.choice(self.keys)
            inner = [k for k in self.keys if k != outer] or self.keys
            inner = self.sub(inner, 1, 3)
            tags = self.sub(self.tags, 1, 2)

            b = a if self.flip(0.75) else self.rng.choice(self.aliases)

            def ver():
                return v if self.flip(0.8) else self.rng.choice(self.versions)
            warm = 0.8 if self.flip(0.75) else 0.2
            if self.flip(0.2):
                res.append(['many', a, inner, v, False, 'list'])
            for k in inner:
                if self.flip(warm):
                    res.append(['set', b, k, ver(), tags if self.flip(0.7) else self.sub(self.tags, 0, 2), 60, 'kw', 'str'])
            body = []
            for _ in range(self.rng.choice((1, 1, 2))):
                body.append(self.rng.choice((
                    ['many', b, inner, ver(), False, self.rng.choice(('list', 'tuple', 'gen'))],
                    ['many', a, inner, v, False, 'list'],
                    ['get', b, self.rng.choice(inner), ver(), False, True],
                    ['gos', b, self.rng.choice(inner), ver(), tags, 60, 'str', [], 'ok', 'pos'],
                    ['set', a, self.rng.choice(inner), v, tags, 60, 'kw', 'str'],
                    ['cmp', a, inner, v])))
            other = [t for t in self.tags if t not in tags]
            if self.flip(0.5):
                res.append(['comp', a, outer, v, other[:1] if self.flip(0.5) else [], 60, 'kw', 'str', body, 'ok'])
            else:
                res.append(['gos', a, outer, v, other[:1] if self.flip(0.5) else [], 60, 'str', body, 'ok', 'pos'])
            if self.flip(0.7):
                res.append(['inval', self.rng.choice((a, b)), tags[:1], ver(), 'args'])
            if self.flip(0.3):
                res.append(self.op(1, False))
            if self.flip(0.3):
                res.append(['get', a, self.rng.choice(self.keys), v, False, True])
            res.append(['get', a, outer, ver(), False, True])
        return res

    def role_retry(self):
        """Computations which fail, other reads in between, and the next attempt."""
        res = []
        for _ in range(self.rng.choice((1, 2, 3))):
            a, v, key = self.alias(), self.rng.choice(self.versions), self.rng.choice(self.keys)
            others = [k for k in self.keys if k != key] or self.keys
            other = self.rng.choice(others)
            tags, unrelated = self.sub(self.tags, 1, 1), self.sub(self.tags, 1, 1)
            if self.flip(0.7):
                res.append(['set', a, other, v, unrelated, 60, 'kw', 'str'])
            body = [['get', a, self.rng.choice(others), v, False, True] for _ in range(self.rng.choice((0, 0, 1)))]
            out = self.rng.choice(('raise', 'exit'))
            if self.flip(0.7):
                res.append(['try', [['gos', a, key, v, tags, 60, 'str', body, out, self.rng.choice(('pos', 'kw', 'wrap'))]]])
            else:
                res.append(['try', [['comp', a, key, v, tags, 60, 'kw', 'str', body, self.rng.choice(('raise', 'abort'))]]])
            for _ in range(self.rng.choice((1, 1, 2))):
                res.append(self.rng.choice((['get', a, other, v, False, True], ['many', a, self.sub(others, 1, 2), v, False, 'list'],
                                            ['gos', a, other, v, unrelated, 60, 'str', [], 'ok', 'pos'], self.op(1, False))))
            res.append(self.rng.choice((['set', a, key, v, tags, 60, 'kw', 'str'], ['gos', a, key, v, tags, 60, 'str', [], 'ok', 'pos'])))
            if self.flip(0.8):
                res.append(['inval', a, unrelated, v, 'args'])
            res.append(['get', a, key, v, False, True])
        return res

    def role_poller(self):
        res = []
        for _ in range(self.rng.choice((2, 3, 5))):
            res.append(self.rng.choice((self.g_get, self.g_get, self.g_many))(1, False))
            if self.flip(0.5):
                res.append(['sleep', self.rng.choice((0.001, 0.02, 0.2))])
        return res


VARIED = (('str', 2), ('dict', 1), ('list', 1), ('tuple', 1), ('int', 1), ('bytes', 1), ('inner', 1), ('packed', 1),
          ('obj', 1), ('fobj', 1), ('nested', 1), ('zero', 0.6), ('false', 0.6), ('empty', 0.6), ('elist', 0.6), ('edict', 0.6),
          ('none', 0.6))
