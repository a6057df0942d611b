"""Generates scenarios of the web world."""
from .gen import FAULTS, Gen

WEB = dict(
    levels=(('READ COMMITTED', 6), ('READ UNCOMMITTED', 1), ('REPEATABLE READ', 2), ('SERIALIZABLE', 1)),
    delays=((0, 6), (0.3, 1)),
    n_procs=((1, 2), (2, 2), (3, 1)),
    n_actors=((1, 1), (2, 4), (3, 3)),
    n_reqs=((1, 1), (2, 2), (3, 2)),
    n_ops=((1, 2), (2, 3), (3, 2), (5, 1)),
    n_templates=((1, 2), (2, 3), (3, 2)),
    n_views=((1, 2), (2, 2)),
    n_tags=((1, 1), (2, 2), (3, 2), (4, 1)),
    pages=1.0,
    prevent=0.35,
    fail=0.3,
    exits=1,
    faults=0.0,
    fault_kinds=FAULTS,
    fault_p=(0.01, 0.03, 0.08),
    latency=0.3,
    line=0.0,
    torn=0.2,
    timeouts=((None, 3), (60, 4), (5, 1), (3600, 0.7), (0, 0.3)),
    lang=0.25,
    sleeps=(0.001, 0.05, 0.5, 6.0, 61.0, 601.0, 1100.0),
    bad=0.3,
    page_alias=0.2,
    rounds=0.15,
    kinds=(('mw', 3), ('deco', 4), ('both', 1)),
    deco_tl=0.3,
    ops=dict(req=6, render=2, inval=4, sleep=0.7),
    depth=3,
)


def web(**kw):
    p = dict(WEB)
    ops = kw.pop('ops', None)
    p.update(kw)
    if ops:
        p['ops'] = dict(WEB['ops'], **ops)
    return p


class WebGen(Gen):
    def scenario(self):
        p, rng = self.p, self.rng
        cfg = {
            'binding': 'django', 'level': self.pick(p['levels']), 'delay': self.pick(p['delays']),
            'switch_p': rng.choice((0.05, 0.15, 0.3, 0.5)), 'policy': 'prio' if self.flip(0.25) else 'random',
            'torn': self.flip(p['torn']), 'max_steps': 60000,
        }
        if self.flip(p['latency']):
            cfg['latency'] = rng.choice((0.0005, 0.005, 0.02))
            cfg['latency_p'] = rng.choice((0.1, 0.3))
        if self.flip(p['faults']):
            cfg['faults'] = True
            cfg['fault_p'] = rng.choice(p['fault_p'])
            cfg['fault_kinds'] = [k for k in p['fault_kinds'] if self.flip(0.5)] or [rng.choice(p['fault_kinds'])]
            cfg['evict_meta'] = self.flip(0.6)
            cfg['evict_short'] = True
            cfg['late_unit'] = rng.choice((0.001, 0.02))
        if self.flip(p['line']):
            cfg['line_gap'] = rng.choice((15, 40, 120))
            cfg['max_steps'] = 400000
        self.tags = ['t%d' % i for i in range(self.pick(p['n_tags']))]
        self.pv = self.flip(p['prevent'])
        self.failing = self.flip(p['fail'])
        self.bad = self.flip(p['bad'])
        self.n_frag = self.n_region = 0
        self.aliases = ['default']
        self.flags = ['fl0', 'fl1']
        self.value_tags = {k: self.some(self.tags, 0) for k in ('w0', 'w1')}
        n_t = self.pick(p['n_templates'])
        templates = []
        included = set()
        self.extended = n_t > 1 and self.flip(0.25)
        # templates include those with a higher number; decide who is included first
        self.inc = {i: [j for j in range(i + 1, n_t) if self.flip(0.6)] for i in range(n_t)}
        for i, js in self.inc.items():
            included.update(js)
        for i in range(n_t):
            self.idx = i
            self.may_nocache = i not in included
            t = {'body': self.nodes(p['depth'], False, False, False)}
            templates.append(t)
        if self.extended:
            # T0 gets a block, a further template overrides it
            self.idx = 0
            self.may_nocache = True
            wrap = self.frag(['block', 'main', self.nodes(2, True, False, False)], False, False) if self.flip(0.6) else \
                ['block', 'main', self.nodes(2, False, False, False)]
            templates[0]['body'].append(wrap)
            self.inc[0] = []
            nocache_ctx = wrap[0] == 'frag' and wrap[6]
            templates.append({'extends': 0, 'body': [['block', 'main', self.nodes(2, wrap[0] == 'frag', nocache_ctx, False)]]})
        tops = [i for i in range(len(templates)) if i not in included] or [0]
        mw, views = [], []
        self.lang = self.lang_mw = False
        if self.flip(p['pages']):
            kind = self.pick(p['kinds'])
            if kind in ('mw', 'both'):
                if self.flip(0.2):
                    mw = ['auth', 'both']
                else:
                    mw = ['update', 'auth', 'fetch']
            elif self.flip(0.3):
                mw = ['auth']
            if self.flip(0.35):
                mw.insert(rng.randrange(len(mw) + 1), 'tx')
            if self.flip(0.2):
                mw.insert(rng.randrange(len(mw) + 1), 'crash')
            if self.flip(p['lang']):
                self.lang = True
                self.lang_mw = self.flip(0.5)
                # (without i18n the language is known only from the header Vary, which must be there when the page is stored)
                if not self.lang_mw or kind == 'mw' and 'update' in mw and self.flip(0.6):
                    cfg['i18n'] = False
                if self.lang_mw:
                    # has to come before the cache is looked up
                    mw.insert(min([mw.index(m) for m in ('fetch', 'both') if m in mw] or [len(mw)]), 'lang')
            cfg['legacy'] = self.flip(0.25)
            if kind != 'mw' or self.flip(0.3):
                cfg['anonymous_only'] = 'auth' in mw and self.flip(0.4)
            if self.flip(0.3):
                cfg['prefix'] = 'pp'
            for i in range(self.pick(p['n_views'])):
                views.append(self.view(i, kind, tops, mw))
        cfg['middleware'] = mw
        if self.flip(0.5):
            cfg['kept_lists'] = True
        self.views = views
        self.tops = tops
        procs = []
        for i in range(self.pick(p['n_procs'])):
            procs.append({'host': 'h0', 'pid': 100 + i})
        self.w = dict(p['ops'])
        if not views:
            self.w['req'] = 0
        elif self.flip(0.5):
            self.w['render'] = 0
        actors = []
        if self.flip(p['rounds']):
            actors = self.rounds(p, len(procs))
        for i in range(0 if actors else self.pick(p['n_actors'])):
            role = self.pick(((None, 3), ('reader', 2), ('writer', 1)))
            self.ow = dict(self.w)
            if role == 'reader':
                self.ow['inval'] = 0
            elif role == 'writer':
                self.ow['inval'] *= 4
            actors.append({'proc': rng.randrange(len(procs)),
                           'reqs': [[self.op(p) for _ in range(self.pick(p['n_ops']))]
                                    for _ in range(self.pick(p['n_reqs']))]})
        return {'cfg': cfg, 'procs': procs, 'actors': actors, 'templates': templates, 'views': views,
                'rseed': rng.randrange(10 ** 9)}

    def some(self, items, least=1):
        n = self.rng.choice((least, 1, 1, 2))
        return sorted(self.rng.sample(items, min(n, len(items))))

    # -- templates
    def nodes(self, depth, infrag, nocache, inloop):
        rng = self.rng
        res = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            r = rng.random()
            if depth <= 0:
                r = 0.5 + r / 2
            if r < 0.4 or (not infrag and r < 0.6):
                res.append(self.frag(None, infrag, inloop, depth, nocache))
            elif r < 0.48 and depth > 0:
                k = rng.choice(('if', 'for', 'with', 'filter'))
                if k == 'if':
                    res.append(['if', rng.choice(self.flags), self.nodes(depth - 1, infrag, nocache, inloop),
                                self.nodes(depth - 1, infrag, nocache, inloop) if self.flip(0.5) else []])
                elif k == 'for':
                    res.append(['for', rng.choice((1, 2, 2)), self.nodes(depth - 1, infrag, nocache, True)])
                elif k == 'with':
                    res.append(['with', self.nodes(depth - 1, infrag, nocache, inloop)])
                else:
                    res.append(['with', self.nodes(depth - 1, infrag, nocache, inloop)])
            elif r < 0.6 and self.inc.get(self.idx):
                res.append(['inc', rng.choice(self.inc[self.idx])])
            elif r < 0.72:
                k = rng.choice(sorted(self.value_tags))
                tags = self.value_tags[k] if self.flip(0.9) else self.some(self.tags, 0)
                res.append(['value', k, 60, tags])
            elif r < 0.84 and infrag:
                res.append(['add', 'tl' if self.flip(0.25) else self.some(self.tags)])
            elif r < 0.88 and infrag and self.pv:
                res.append(['prevent', rng.choice((None, 'pv', 'pv'))])
            elif r < 0.92 and self.failing:
                res.append(['fail'])
            elif r < 0.95 and nocache:
                self.n_region += 1
                res.append(['region', self.n_region, rng.choice(('one', 'lines', 'nested'))])
            elif r < 0.98:
                res.append(['slow'])
            else:
                res.append(['text', ' x\n'])
        return res

    def frag(self, node, infrag, inloop, depth=2, nocache=False):
        self.n_frag += 1
        top_nocache = not infrag and self.may_nocache and self.flip(0.35)
        naming = 'loop' if inloop and self.flip(0.6) else self.pick((('lit', 4), ('q', 1)))
        nc = nocache or top_nocache
        fid = 'f%d' % self.n_frag
        tags = self.some(self.tags, 0)
        tl = 'tl' if self.flip(0.4 if self.bad else 0.2) else None
        body = [node] if node else self.nodes(depth - 1, True, nc, inloop)
        if nc and not infrag and self.flip(0.7):
            self.n_region += 1
            body.append(['region', self.n_region, self.rng.choice(('one', 'lines', 'nested'))])
        timeout = self.pick(self.p['timeouts'])
        opts = {}
        if timeout is not None and self.flip(0.7 if self.bad else 0.3):
            opts['tv'] = 'to%d'
        if self.flip(0.1):
            opts['more'] = [self.rng.choice(['phased=1', 'phased=0', 'phased=none'])]
        if not top_nocache and self.flip(0.1):
            opts['more'] = opts.get('more', []) + [self.rng.choice(['nocache=0', 'nocache=none'])]
        return ['frag', fid, naming, tags, tl, timeout, 1 if top_nocache else 0, body] + ([opts] if opts else [])

    def has(self, templates, i, what, seen=None):
        return False

    # -- views
    def view(self, i, kind, tops, mw):
        rng = self.rng
        v = {'name': 'v%d' % i, 'tpl': rng.choice(tops + [None]), 'kind': self.pick((('html', 4), ('tpl', 3), ('stream', 0.4)))}
        if kind in ('deco', 'both') and self.flip(0.85):
            d = {'timeout': self.pick(((60, 4), (600, 1), (None, 1), (5, 1), (3600, 1.5), (0, 0.4)))}
            if not d['timeout'] and kind == 'both':
                d['timeout'] = None      # (it would be the page of the site, without the tags of the decorator)
            if self.flip(0.6):
                d['tags'] = self.some(self.tags)
            if self.flip(self.p['deco_tl']):
                d['tl'] = 1
            if self.flip(0.3):
                d['prefix'] = 'x'
            d['form'] = self.pick((('plain', 4), ('first', 1), ('last', 1)))
            v['deco'] = d
            if kind == 'deco' and self.flip(self.p['page_alias']):
                # a page on its own alias; the fragments live on the default one, so it has none of them
                d['alias'] = 'a1'
                v['tpl'] = None
                self.aliases = ['default', 'a1']
                return v
        if self.flip(0.4):
            v['values'] = [[k, 60, self.value_tags[k]] for k in sorted(self.value_tags) if self.flip(0.6)]
        if self.flip(0.4):
            v['vary'] = rng.choice((['X-A'], ['X-A', 'X-Long-B'], ['x-a'], ['Cookie'], ['X-Long-B', 'X-A']))
            if self.flip(0.2):
                v['vary2'] = rng.choice(([], ['X-Long-B'], ['X-A', 'Cookie']))
        if self.lang and not self.lang_mw and self.flip(0.6):
            v['vary'] = v.get('vary', []) + ['Accept-Language']
        if 'auth' in mw and self.flip(0.4):
            v['session'] = 1
        if self.flip(0.15):
            v['tx'] = 1
        if self.flip(0.15):
            v['qtags'] = self.some(self.tags)
        if not self.pv and self.flip(0.2):
            v['reqctx'] = False
        return v

    def mode(self, req):
        rng = self.rng
        m = {}
        fl = [f for f in self.flags if self.flip(0.3)]
        if self.pv and self.flip(0.3):
            fl.append('pv')
        if fl:
            m['flags'] = fl
        if self.flip(0.4):
            m['tl'] = self.some(self.tags)
        if self.failing and self.flip(0.3):
            m['fail'] = self.pick((('error', 4), ('exit', self.p['exits'])) + ((('view', 2),) if req else ()))
        if self.bad and self.flip(0.35):
            m['bad'] = rng.choice(('tl', 'to'))
        if req:
            if self.flip(0.1):
                m['status'] = rng.choice((404, 500, 302, 201, 203, 304, 410))
            if self.flip(0.15):
                m['age'] = rng.choice((0, 0, 5, 60))
            if self.flip(0.3):
                m['user'] = 1
            if self.flip(0.05):
                m['crash'] = rng.choice(('request', 'response'))
            if self.flip(0.2):
                m['vary2'] = 1
            if self.flip(0.15):
                m['ops'] = [['inval', self.rng.choice(self.aliases), self.some(self.tags)] for _ in range(rng.choice((1, 1, 2)))]
        return m

    def rounds(self, p, n_procs):
        """All do the same thing at the same time, then something changes, and so on."""
        rng = self.rng
        self.ow = dict(self.w, inval=0, sleep=0)
        focus = self.op(p)
        n = rng.choice((2, 2, 3, 4))
        proc = rng.randrange(n_procs)
        actors = [{'proc': proc if self.flip(0.8) else rng.randrange(n_procs), 'reqs': []} for _ in range(n)]
        for r in range(rng.choice((2, 3, 4, 6))):
            changer = rng.randrange(n) if r and self.flip(0.6) else None
            for i, a in enumerate(actors):
                ops = [['until', float(r)]]
                if i == changer:
                    ops.append(['inval', rng.choice(self.aliases), self.some(self.tags)])
                    if self.flip(0.5):
                        a['reqs'].append(ops)
                        continue
                elif changer is not None and self.flip(0.8):
                    continue
                op = self.op(p)
                if self.flip(0.85):
                    op = list(focus)
                    if self.flip(0.5):
                        op[-1] = self.mode(op[0] == 'req')
                    if self.flip(0.3):
                        op[-3 if op[0] == 'req' else -2] = rng.choice(('x', 'y'))
                    if op[0] == 'req' and self.lang and self.flip(0.4):
                        op[-2] = dict(op[-2], **{'Accept-Language': rng.choice(('en', 'de'))})
                    if op[0] == 'req' and self.flip(0.3):
                        op[-2] = dict(op[-2], **{'X-A': rng.choice(('a1', 'a2'))})
                ops.append(op)
                a['reqs'].append(ops)
        return actors

    def op(self, p):
        rng = self.rng
        k = self.pick(tuple(self.ow.items()))
        if k == 'req':
            v = rng.choice(self.views)
            h = {}
            for name, vals in (('X-A', ('a1', 'a2')), ('X-Long-B', ('b1', 'b2')), ('Cookie', ('c1', 'c2'))):
                if self.flip(0.5):
                    h[name] = rng.choice(vals)
            if self.lang:
                h['Accept-Language'] = rng.choice(('en', 'de'))
            m = self.mode(True)
            method = self.pick((('GET', 7), ('HEAD', 1.5), ('POST', 1.5)))
            if method == 'POST' and self.flip(0.6):
                m['ops'] = [['inval', self.rng.choice(self.aliases), self.some(self.tags)]]
            return ['req', v['name'], method, rng.choice(('x', 'x', 'y')), h, m]
        if k == 'render':
            return ['render', rng.choice(self.tops), rng.choice(('x', 'x', 'y')), self.mode(False)]
        if k == 'inval':
            return ['inval', self.rng.choice(self.aliases), self.some(self.tags)]
        return ['sleep', rng.choice(p['sleeps'])]
